"""Quadrature elements over an unknown rule and cell: one interior DoF per
point, the identity between point and DoF indices at the rule's own points,
refusal of everything else."""
from functools import reduce

import FIAT
import gem

from finat.point_set import GaussLegendrePointSet, PointSet, UnknownPointSet
from gem.interpreter import evaluate

from finat.quadrature import QuadratureRule, TensorProductQuadratureRule, make_quadrature
from finat.quadrature_element import QuadratureElement, make_quadrature_element


def identity(q, r):
    return gem.ComponentTensor(reduce(gem.Product, [gem.Delta(a, b) for a, b in zip(q, r)]), r)


def product(xs):
    n = 1
    for x in xs:
        n = n * x
    return n


def case_data(cell: "Cell", rule: "QuadratureRule", dim, i: "int", order: "int", pt: "gem", entity, D):
    assert cell.get_spatial_dimension() == rule.point_set.dimension
    assert dim in cell.get_topology()
    assert i in cell.get_topology()[dim]
    assert dim != cell.get_dimension()
    e = QuadratureElement(cell, rule)
    n = lambda: product([k.extent for k in rule.point_set.indices])
    return {
        "cell": (lambda: e.cell, lambda: cell),
        "complex": (lambda: e.complex, lambda: cell),
        "degree": (lambda: e.degree, lambda: raises("NotImplementedError")),
        "formdegree": (lambda: e.formdegree, lambda: None),
        "mapping": (lambda: e.mapping, lambda: "affine"),
        "value_shape": (lambda: e.value_shape, lambda: ()),
        "index_shape": (lambda: e.index_shape, lambda: tuple(k.extent for k in rule.point_set.indices)),
        "space_dimension": (lambda: e.space_dimension(), n),
        "entity_dofs boundary": (lambda: e.entity_dofs()[dim][i], lambda: []),
        "entity_dofs interior": (lambda: e.entity_dofs()[cell.get_dimension()][0], lambda: list(range(n()))),
        "entities": (lambda: dim in e.entity_dofs() and i in e.entity_dofs()[dim], lambda: True),
        "point_evaluation": (lambda: e.point_evaluation(order, pt, entity), lambda: raises("NotImplementedError")),
    }


def case_table(cell: "Cell", rule: "QuadratureRule", ps: "PointSet", k: "int"):
    assert cell.get_spatial_dimension() == rule.point_set.dimension
    assert rule.point_set.almost_equal(ps)
    assert [q.extent for q in ps.indices] == [q.extent for q in rule.point_set.indices]
    assert len(ps.indices) > 0
    e = QuadratureElement(cell, rule)
    table = lambda: {(0,) * cell.get_spatial_dimension(): identity(ps.indices, tuple(gem.Index(extent=q.extent) for q in rule.point_set.indices))}
    return {
        "everywhere": (lambda: e.basis_evaluation(0, ps), table),
        "interior": (lambda: e.basis_evaluation(0, ps, (cell.get_dimension(), 0)), table),
        "geometry ignored": (lambda: e.basis_evaluation(0, ps, coordinate_mapping=sym("cm")), table),
        "dual weights": (lambda: e.dual_basis[0], lambda: identity(rule.point_set.indices, tuple(gem.Index(extent=q.extent) for q in rule.point_set.indices))),
        "dual points": (lambda: e.dual_basis[1], lambda: rule.point_set),
    }


def case_dual(cell: "Cell", rule: "QuadratureRule"):
    assert cell.get_spatial_dimension() == rule.point_set.dimension
    assert len(rule.point_set.indices) > 0
    e = QuadratureElement(cell, rule)
    return {
        "dual weights": (lambda: e.dual_basis[0], lambda: identity(rule.point_set.indices, tuple(gem.Index(extent=q.extent) for q in rule.point_set.indices))),
        "dual points": (lambda: e.dual_basis[1], lambda: rule.point_set),
    }


def case_refused(cell: "Cell", rule: "QuadratureRule", ps: "PointSet", order: "int", dim, i: "int"):
    assert cell.get_spatial_dimension() == rule.point_set.dimension
    assert (dim, i) != (cell.get_dimension(), 0)
    assert order >= 1
    e = QuadratureElement(cell, rule)
    return {
        "sub-entity": (lambda: e.basis_evaluation(0, ps, (dim, i)), lambda: raises("ValueError")),
        "derivative": (lambda: e.basis_evaluation(order, ps), lambda: raises("ValueError")),
        "other points": (lambda: None if rule.point_set.almost_equal(ps) else e.basis_evaluation(0, ps),
                         lambda: None if rule.point_set.almost_equal(ps) else raises("ValueError")),
    }


def case_points(cell: "Cell", pa: "array", pb: "array", w: "array"):
    """almost equality of the points decides, by its own meaning"""
    assert len(pa) == len(w)
    assert len(pa.shape) == 2 and len(pb.shape) == 2
    assert cell.get_spatial_dimension() == pa.shape[1]
    rule = QuadratureRule(PointSet(pa), w, cell)
    e = QuadratureElement(cell, rule)
    same = lambda: rule.point_set.almost_equal(PointSet(pb))
    return {
        "other points": (lambda: None if same() else e.basis_evaluation(0, PointSet(pb)),
                         lambda: None if same() else raises("ValueError")),
        "other kind of points": (lambda: e.basis_evaluation(0, GaussLegendrePointSet(pa)) if pa.shape[1] == 1 else None,
                                 lambda: raises("ValueError") if pa.shape[1] == 1 else None),
        "no points": (lambda: e.basis_evaluation(0, UnknownPointSet(gem.Variable("X", (3, 2)))), lambda: raises("ValueError")),
    }


class NotARule:
    def __init__(self, ps):
        self.point_set = ps


def case_construction(cell: "Cell", rule: "QuadratureRule", ps: "PointSet"):
    assert cell.get_spatial_dimension() != rule.point_set.dimension
    return {
        "dimension mismatch": (lambda: QuadratureElement(cell, rule), lambda: raises("ValueError")),
        "not a rule": (lambda: QuadratureElement(cell, NotARule(ps)), lambda: raises("TypeError")),
    }


opaque(make_quadrature, "QuadratureRule")


def case_make(cell: "Cell", degree: "int", scheme):
    assert cell.get_spatial_dimension() == make_quadrature(cell, degree, scheme).point_set.dimension
    assert cell.get_spatial_dimension() == make_quadrature(cell, degree, "default").point_set.dimension
    return {
        "rule": (lambda: make_quadrature_element(cell, degree, scheme)._rule, lambda: make_quadrature(cell, degree, scheme)),
        "default scheme": (lambda: make_quadrature_element(cell, degree)._rule, lambda: make_quadrature(cell, degree, "default")),
        "cell": (lambda: make_quadrature_element(cell, degree, scheme).cell, lambda: cell),
    }


def case_fiat(cell: "Cell", rule: "QuadratureRule"):
    assert cell.get_spatial_dimension() == rule.point_set.dimension
    assert not isinstance(rule.point_set, UnknownPointSet)
    assert rule.weights is not None
    e = QuadratureElement(cell, rule)
    return {"fiat_equivalent": (lambda: e.fiat_equivalent, lambda: FIAT.QuadratureElement(cell, rule.point_set.points, rule.weights))}


def case_fiat_product(cell: "Cell", r: "tuple[QuadratureRule]"):
    """a rule made of factors has no array of weights: they are those of the expression"""
    rule = TensorProductQuadratureRule(r, cell)
    assert cell.get_spatial_dimension() == rule.point_set.dimension
    e = QuadratureElement(cell, rule)
    again = QuadratureElement(cell, rule)
    weights = lambda: evaluate([rule.weight_expression])[0].arr.flatten()
    return {
        "fiat_equivalent": (lambda: e.fiat_equivalent, lambda: FIAT.QuadratureElement(cell, rule.point_set.points, weights())),
        "repeated": (lambda: (e.fiat_equivalent, again.fiat_equivalent), lambda: (FIAT.QuadratureElement(cell, rule.point_set.points, weights()),) * 2),
    }


def case_fiat_unknown_points(cell: "Cell", w: "array", n: "int", d: "int"):
    assert len(w) == n
    assert cell.get_spatial_dimension() == d
    e = QuadratureElement(cell, QuadratureRule(UnknownPointSet(gem.Variable("rt_X", (n, d))), w, cell))
    return {"refused": (lambda: e.fiat_equivalent, lambda: raises("ValueError"))}


def case_fiat_plain(cell: "Cell", ps: "PointSet", w: "array"):
    assert len(ps.points) == len(w)
    assert not isinstance(ps, UnknownPointSet)
    assert cell.get_spatial_dimension() == ps.dimension
    e = QuadratureElement(cell, QuadratureRule(ps, w, cell))
    return {"fiat_equivalent": (lambda: e.fiat_equivalent, lambda: FIAT.QuadratureElement(cell, ps.points, w))}
