"""Spectral elements: the value table is the identity exactly when the points
are the element's own nodes on the cell interior; every other table is the
ordinary tabulation."""
import gem
import FIAT

from finat.fiat_elements import DiscontinuousLagrange, FiatElement, Lagrange, ScalarFiatElement
from finat.point_set import GaussLegendrePointSet, GaussLobattoLegendrePointSet, PointSet
from finat.spectral import GaussLegendre, GaussLobattoLegendre

opaque(FiatElement.basis_evaluation, "dict[tuple[int],gem]")


def delta(n, ps):
    q, = ps.indices
    r = gem.Index(extent=n)
    return gem.ComponentTensor(gem.Delta(q, r), (r,))


def tables(e, P, Other, cell: "Cell", order, pts, f, D):
    ps, other, plain = P(pts), Other(pts), PointSet(pts)
    n = e.space_dimension()
    base = lambda p, ent=None: FiatElement.basis_evaluation(e, order, p, ent)
    top = (cell.get_dimension(), 0)
    hit = lambda ent=None: {**base(ps, ent), (0,) * cell.get_spatial_dimension(): delta(n, ps)} if len(ps.points) == n else base(ps, ent)
    return {
        "own nodes": (lambda: e.basis_evaluation(order, ps), hit),
        "own nodes, interior": (lambda: e.basis_evaluation(order, ps, top), lambda: hit(top)),
        "own nodes, sub-entity": (lambda: e.basis_evaluation(order, ps, f), lambda: base(ps, f)),
        "other family": (lambda: e.basis_evaluation(order, other), lambda: base(other)),
        "plain points": (lambda: e.basis_evaluation(order, plain, top), lambda: base(plain, top)),
    }


def case_gll(cell: "Cell", k: "int", order: "int", pts: "array", f):
    assert len(pts.shape) == 2 and pts.shape[1] == 1
    assert f is not None and f != (cell.get_dimension(), 0)
    e = GaussLobattoLegendre(cell, k)
    assert e.cell == cell
    return tables(e, GaussLobattoLegendrePointSet, GaussLegendrePointSet, cell, order, pts, f, None)


def case_gl(cell: "Cell", k: "int", order: "int", pts: "array", f):
    assert len(pts.shape) == 2 and pts.shape[1] == 1
    assert f is not None and f != (cell.get_dimension(), 0)
    e = GaussLegendre(cell, k)
    assert e.cell == cell
    return tables(e, GaussLegendrePointSet, GaussLobattoLegendrePointSet, cell, order, pts, f, None)
