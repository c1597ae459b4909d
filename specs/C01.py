"""A tensor-product element over unknown factors, against the factorwise
definition."""
from functools import reduce
from itertools import chain

import FIAT
import gem
from FIAT.polynomial_set import mis
from FIAT.reference_element import TensorProductCell

from finat.tensor_product import TensorProductElement
from finat.point_set import PointSet, PointSingleton, TensorPointSet, UnknownPointSet


def case_data(fs: "tuple[Element]*3"):
    assert fs[1].value_shape == ()
    assert fs[2].value_shape == ()
    d = TensorProductElement(fs)
    return {
        "factors": (lambda: d.factors, lambda: fs),
        "cell": (lambda: d.cell, lambda: TensorProductCell(*[f.cell for f in fs])),
        "complex": (lambda: d.complex, lambda: TensorProductCell(*[f.complex for f in fs])),
        "degree": (lambda: d.degree, lambda: tuple(f.degree for f in fs)),
        "formdegree": (lambda: d.formdegree, lambda: None if any(f.formdegree is None for f in fs) else sum(f.formdegree for f in fs)),
        "index_shape": (lambda: d.index_shape, lambda: fs[0].index_shape + fs[1].index_shape + fs[2].index_shape),
        "value_shape": (lambda: d.value_shape, lambda: fs[0].value_shape),
        "space_dimension": (lambda: d.space_dimension(), lambda: fs[0].space_dimension() * fs[1].space_dimension() * fs[2].space_dimension()),
    }


def case_data_any(fs: "tuple[Element]"):
    expects("NotImplementedError")
    d = TensorProductElement(fs)
    return {
        "factors": (lambda: d.factors, lambda: fs),
        "cell": (lambda: d.cell, lambda: TensorProductCell(*[f.cell for f in fs])),
        "degree": (lambda: d.degree, lambda: tuple(f.degree for f in fs)),
        "index_shape": (lambda: d.index_shape, lambda: tuple(n for f in fs for n in f.index_shape)),
        "formdegree": (lambda: d.formdegree, lambda: None if any(f.formdegree is None for f in fs) else sum(f.formdegree for f in fs)),
    }


def table(fs, tabs, delta, dims):
    """product over the factors of the factor's own derivative slice"""
    al = [f.get_indices() for f in fs]
    ze = [f.get_value_indices() for f in fs]
    body = 1
    pos = 0
    for f, t, a, z, n in zip(fs, tabs, al, ze, dims):
        body = body * t[delta[pos:pos + n]][a + z]
        pos = pos + n
    return gem.ComponentTensor(body, tuple(chain(*al)) + tuple(chain(*ze)))


def case_merge2(fs: "tuple[Element]*2", tabs: "tuple[dict[tuple[int],gem]]*2", D: "tuple[int]"):
    expects("NotImplementedError")
    d = TensorProductElement(fs)
    dims = [f.cell.get_spatial_dimension() for f in fs]
    return {
        "tables": (lambda: d._merge_evaluations(tabs)[D], lambda: table(fs, tabs, D, dims)),
    }


def case_merge3(fs: "tuple[Element]*3", tabs: "tuple[dict[tuple[int],gem]]*3", D: "tuple[int]"):
    expects("NotImplementedError")
    d = TensorProductElement(fs)
    dims = [f.cell.get_spatial_dimension() for f in fs]
    return {
        "tables": (lambda: d._merge_evaluations(tabs)[D], lambda: table(fs, tabs, D, dims)),
    }


def case_merge_order2(fs: "tuple[Element]*2", tabs: "tuple[gem]*12"):
    expects("NotImplementedError")
    assert fs[0].cell.get_spatial_dimension() == 1
    assert fs[1].cell.get_spatial_dimension() == 2
    d = TensorProductElement(fs)
    t0 = {(0,): tabs[0], (1,): tabs[1], (2,): tabs[2]}
    t1 = {(0, 0): tabs[3], (1, 0): tabs[4], (0, 1): tabs[5], (2, 0): tabs[6], (1, 1): tabs[7], (0, 2): tabs[8]}
    return {
        "derivatives": (lambda: set(d._merge_evaluations([t0, t1])),
                        lambda: set((i, j, k) for i in range(3) for j in range(3) for k in range(3) if i + j + k <= 2)),
        "all tables": (lambda: [d._merge_evaluations([t0, t1])[i, j, k] for i in range(3) for j in range(3) for k in range(3) if i + j + k <= 2],
                       lambda: [table(fs, [t0, t1], (i, j, k), [1, 2]) for i in range(3) for j in range(3) for k in range(3) if i + j + k <= 2]),
    }


def case_point_set(fs: "tuple[Element]*2", ps: "tuple[PointSet]*2", order: "int", entity, cm, D: "tuple[int]", dims: "tuple[int]*2", e: "int"):
    expects("NotImplementedError")
    d = TensorProductElement(fs)
    for f, p, k in zip(fs, ps, dims):
        assert p.dimension == f.cell.construct_subelement(k).get_spatial_dimension()
    tps = TensorPointSet(ps)
    sd = [f.cell.get_spatial_dimension() for f in fs]

    n0, n1 = [len(f.cell.get_topology()[x]) for f, x in zip(fs, dims)]
    assert e // n1 // n0 == 0      # the number of an entity of these dimensions

    def fe():
        return [(dims[0], e // n1), (dims[1], e % n1)]
    return {
        "basis_evaluation": (lambda: d.basis_evaluation(order, tps, (dims, e))[D],
                             lambda: table(fs, [f.basis_evaluation(order, p, x) for f, p, x in zip(fs, ps, fe())], D, sd)),
    }


def case_cell(fs: "tuple[Element]*2", ps: "tuple[PointSet]*2", order: "int", D: "tuple[int]"):
    expects("NotImplementedError")
    d = TensorProductElement(fs)
    for f, p in zip(fs, ps):
        assert p.dimension == f.cell.construct_subelement(f.cell.get_dimension()).get_spatial_dimension()
    tps = TensorPointSet(ps)
    sd = [f.cell.get_spatial_dimension() for f in fs]
    return {
        "basis_evaluation": (lambda: d.basis_evaluation(order, tps)[D],
                             lambda: table(fs, [f.basis_evaluation(order, p, (f.cell.get_dimension(), 0)) for f, p in zip(fs, ps)], D, sd)),
    }


def case_plain_points(fs: "tuple[Element]*2", pts: "array", order: "int", D: "tuple[int]", dims: "tuple[int]*2", e: "int"):
    expects("NotImplementedError")
    d = TensorProductElement(fs)
    sd = [f.cell.get_spatial_dimension() for f in fs]
    pd = [f.cell.construct_subelement(x).get_spatial_dimension() for f, x in zip(fs, dims)]
    assert len(pts.shape) == 2 and pts.shape[1] == pd[0] + pd[1]
    ps = PointSet(pts)

    n0, n1 = [len(f.cell.get_topology()[x]) for f, x in zip(fs, dims)]
    assert e // n1 // n0 == 0      # the number of an entity of these dimensions

    def fe():
        return [(dims[0], e // n1), (dims[1], e % n1)]

    def part(lo, hi):
        r = PointSet(pts[:, lo:hi])
        r.indices = ps.indices
        return r
    return {
        "basis_evaluation": (lambda: d.basis_evaluation(order, ps, (dims, e))[D],
                             lambda: table(fs, [fs[0].basis_evaluation(order, part(0, pd[0]), fe()[0]),
                                                fs[1].basis_evaluation(order, part(pd[0], pd[0] + pd[1]), fe()[1])], D, sd)),
    }


def case_regrouped(fs: "tuple[Element]*2", ps: "tuple[PointSet]*3", order: "int", D: "tuple[int]", x: "gem"):
    """a product of more point sets than the element has factors is split by coordinates"""
    expects("NotImplementedError")
    d = TensorProductElement(fs)
    tps = TensorPointSet(ps)
    sd = [f.cell.get_spatial_dimension() for f in fs]
    pd = [f.cell.construct_subelement(f.cell.get_dimension()).get_spatial_dimension() for f in fs]
    assert tps.dimension == pd[0] + pd[1]

    def part(lo, hi):
        r = PointSet(tps.points[:, lo:hi])
        r.indices = tps.indices
        return r
    unknown = UnknownPointSet(gem.Variable("rt_X", (4, 3)))
    assert pd[0] == 1 and pd[1] == 2
    return {
        "basis_evaluation": (lambda: d.basis_evaluation(order, tps)[D],
                             lambda: table(fs, [fs[0].basis_evaluation(order, part(0, pd[0]), (fs[0].cell.get_dimension(), 0)),
                                                fs[1].basis_evaluation(order, part(pd[0], pd[0] + pd[1]), (fs[1].cell.get_dimension(), 0))], D, sd)),
        "unknown points": (lambda: d.basis_evaluation(order, unknown)[D], lambda: raises("NotImplementedError")),
    }


class Grid(TensorPointSet):
    """a product of point sets whose points are the rows of a given array"""

    def __init__(self, factors, rows):
        super().__init__(factors)
        self.rows = rows

    @property
    def points(self):
        return self.rows


def case_regrouped_rows(fs: "tuple[Element]*2", ps: "tuple[PointSet]*3", rows: "array", order: "int", D: "tuple[int]"):
    expects("NotImplementedError")
    d = TensorProductElement(fs)
    tps = Grid(ps, rows)
    sd = [f.cell.get_spatial_dimension() for f in fs]
    pd = [f.cell.construct_subelement(f.cell.get_dimension()).get_spatial_dimension() for f in fs]
    assert len(rows.shape) == 2 and rows.shape[1] == pd[0] + pd[1] and tps.dimension == pd[0] + pd[1]

    def part(lo, hi):
        r = PointSet(rows[:, lo:hi])
        r.indices = tps.indices
        return r
    return {
        "basis_evaluation": (lambda: d.basis_evaluation(order, tps)[D],
                             lambda: table(fs, [fs[0].basis_evaluation(order, part(0, pd[0]), (fs[0].cell.get_dimension(), 0)),
                                                fs[1].basis_evaluation(order, part(pd[0], pd[0] + pd[1]), (fs[1].cell.get_dimension(), 0))], D, sd)),
    }


def case_singleton(fs: "tuple[Element]*2", pt: "array", order: "int", D: "tuple[int]", dims: "tuple[int]*2", e: "int"):
    expects("NotImplementedError")
    d = TensorProductElement(fs)
    sd = [f.cell.get_spatial_dimension() for f in fs]
    pd = [f.cell.construct_subelement(x).get_spatial_dimension() for f, x in zip(fs, dims)]
    assert len(pt.shape) == 1 and pt.size == pd[0] + pd[1] and len(pt) == pt.size
    ps = PointSingleton(pt)

    n0, n1 = [len(f.cell.get_topology()[x]) for f, x in zip(fs, dims)]
    assert e // n1 // n0 == 0      # the number of an entity of these dimensions

    def fe():
        return [(dims[0], e // n1), (dims[1], e % n1)]
    return {
        "basis_evaluation": (lambda: d.basis_evaluation(order, ps, (dims, e))[D],
                             lambda: table(fs, [fs[0].basis_evaluation(order, PointSingleton(pt[0:pd[0]]), fe()[0]),
                                                fs[1].basis_evaluation(order, PointSingleton(pt[pd[0]:pd[0] + pd[1]]), fe()[1])], D, sd)),
    }


def case_point_evaluation(fs: "tuple[Element]*2", pt: "gem", order: "int", D: "tuple[int]", dims: "tuple[int]*2", e: "int"):
    expects("NotImplementedError")
    d = TensorProductElement(fs)
    sd = [f.cell.get_spatial_dimension() for f in fs]
    pd = [f.cell.construct_subelement(x).get_spatial_dimension() for f, x in zip(fs, dims)]
    n0, n1 = [len(f.cell.get_topology()[x]) for f, x in zip(fs, dims)]
    assert e // n1 // n0 == 0      # the number of an entity of these dimensions
    assert pt.shape == (pd[0] + pd[1],)

    def part(lo, hi):
        return gem.ListTensor([gem.Indexed(pt, (k,)) for k in range(lo, hi)])
    return {
        "point_evaluation": (lambda: d.point_evaluation(order, pt, (dims, e))[D],
                             lambda: table(fs, [fs[0].point_evaluation(order, part(0, pd[0]), (dims[0], e // n1)),
                                                fs[1].point_evaluation(order, part(pd[0], pd[0] + pd[1]), (dims[1], e % n1))], D, sd)),
    }


def case_dual_basis(fs: "tuple[Element]*2"):
    expects("NotImplementedError")
    d = TensorProductElement(fs)

    def weights():
        al = [f.get_indices() for f in fs]
        ze = [f.get_value_indices() for f in fs]
        q0, q1 = fs[0].dual_basis[0], fs[1].dual_basis[0]
        return gem.ComponentTensor(q0[al[0] + ze[0]] * q1[al[1] + ze[1]], al[0] + al[1] + ze[0] + ze[1])
    return {
        "weights": (lambda: d.dual_basis[0], weights),
        "points": (lambda: d.dual_basis[1], lambda: TensorPointSet([f.dual_basis[1] for f in fs])),
    }


def case_fiat(fs: "tuple[Element]*2"):
    expects("NotImplementedError")
    d = TensorProductElement(fs)
    return {
        "fiat_equivalent": (lambda: d.fiat_equivalent, lambda: FIAT.TensorProductElement(fs[0].fiat_equivalent, fs[1].fiat_equivalent)),
    }


def case_mapping(fs: "tuple[Element]*2"):
    expects("NotImplementedError")
    d = TensorProductElement(fs)
    return {
        "mapping": (lambda: d.mapping, lambda: fs[1].mapping if fs[0].mapping == "affine" else fs[0].mapping if fs[1].mapping == "affine" else None),
    }


def case_value_shapes(fs: "tuple[Element]*2"):
    def spec():
        if fs[0].value_shape != () and fs[1].value_shape != ():
            return raises("NotImplementedError")
        return fs[0].value_shape + fs[1].value_shape
    return {
        "value_shape": (lambda: TensorProductElement(fs).value_shape, spec),
    }
