"""Quadrature construction for unknown cells and degrees: degree, scheme, cell
and orientation data reach every sub-rule; product rules combine points,
weights and orientation maps of all factors in factor order."""
import gem
import numpy
from FIAT.quadrature import GaussLegendreQuadratureLineRule
from FIAT.quadrature_schemes import create_quadrature as fiat_scheme
from FIAT.reference_element import LINE, QUADRILATERAL, TENSORPRODUCT, TRIANGLE

from finat.point_set import GaussLegendrePointSet, PointSet, TensorPointSet
from finat.quadrature import AbstractQuadratureRule, QuadratureRule, TensorProductQuadratureRule, make_quadrature

opaque(make_quadrature, "QuadratureRule")


def simple(rule, kind, fiat, cell):
    return {
        "kind": (lambda: type(rule) is QuadratureRule, lambda: True),
        "kind of points": (lambda: type(rule.point_set) is kind, lambda: True),
        "points": (lambda: rule.point_set.points, lambda: numpy.asarray(fiat.get_points())),
        "weights": (lambda: rule.weight_expression, lambda: gem.Indexed(gem.Literal(numpy.asarray(fiat.get_weights())), rule.point_set.indices)),
        "cell": (lambda: rule.ref_el, lambda: cell),
        "orientation": (lambda: rule._intrinsic_orientation_permutation_map_tuple, lambda: fiat._intrinsic_orientation_permutation_map_tuple),
    }


def case_line(cell: "Cell", degree: "int", scheme):
    assert cell.get_shape() == LINE
    assert not cell.is_macrocell()
    assert degree >= 0
    fiat = GaussLegendreQuadratureLineRule(cell, (degree + 2) // 2)
    assert len(numpy.asarray(fiat.get_points()).shape) == 2
    assert numpy.asarray(fiat.get_points()).shape[1] == 1
    assert len(numpy.asarray(fiat.get_points())) == len(numpy.asarray(fiat.get_weights()))
    return simple(unfold(make_quadrature, cell, degree, scheme), GaussLegendrePointSet, fiat, cell)


def case_macro_line(cell: "Cell", degree: "int", scheme):
    assert cell.get_shape() == LINE
    assert cell.is_macrocell()
    assert degree >= 0
    fiat = fiat_scheme(cell, degree, scheme)
    assert len(numpy.asarray(fiat.get_points()).shape) == 2
    assert len(numpy.asarray(fiat.get_points())) == len(numpy.asarray(fiat.get_weights()))
    return simple(unfold(make_quadrature, cell, degree, scheme), PointSet, fiat, cell)


def case_simplex(cell: "Cell", degree: "int", scheme):
    assert cell.get_shape() != TENSORPRODUCT
    assert cell.get_shape() != QUADRILATERAL
    assert cell.get_shape() != LINE
    assert degree >= 0
    fiat = fiat_scheme(cell, degree, scheme)
    assert len(numpy.asarray(fiat.get_points()).shape) == 2
    assert len(numpy.asarray(fiat.get_points())) == len(numpy.asarray(fiat.get_weights()))
    return simple(unfold(make_quadrature, cell, degree, scheme), PointSet, fiat, cell)


def case_default_scheme(cell: "Cell", degree: "int"):
    assert cell.get_shape() == TRIANGLE
    assert degree >= 0
    fiat = fiat_scheme(cell, degree, "default")
    assert len(numpy.asarray(fiat.get_points()).shape) == 2
    assert len(numpy.asarray(fiat.get_points())) == len(numpy.asarray(fiat.get_weights()))
    return simple(unfold(make_quadrature, cell, degree), PointSet, fiat, cell)


def case_negative(cell: "Cell", degree: "int", scheme):
    assert cell.get_shape() != TENSORPRODUCT
    assert cell.get_shape() != QUADRILATERAL
    assert degree < 0
    return {"refused": (lambda: unfold(make_quadrature, cell, degree, scheme), lambda: raises("ValueError"))}


class Product:
    """a tensor-product cell with the given factor cells"""

    def __init__(self, cells):
        self.cells = cells

    def get_shape(self):
        return TENSORPRODUCT


class Quadrilateral:
    def __init__(self, product):
        self.product = product

    def get_shape(self):
        return QUADRILATERAL


def case_product(cells: "tuple[Cell]", degree: "int", ds: "tuple[int]", scheme):
    assert len(ds) == len(cells)
    cell = Product(cells)
    r = unfold(make_quadrature, cell, degree, scheme)
    s = unfold(make_quadrature, cell, ds, scheme)
    t = unfold(make_quadrature, cell, degree)
    g = unfold(make_quadrature, cell, iter(ds), scheme=scheme)
    return {
        "kind": (lambda: type(r) is TensorProductQuadratureRule, lambda: True),
        "factors": (lambda: r.factors, lambda: [make_quadrature(c, degree, scheme) for c in cells]),
        "cell": (lambda: r.ref_el, lambda: cell),
        "factors by degree": (lambda: s.factors, lambda: [make_quadrature(c, d, scheme) for c, d in zip(cells, ds)]),
        "cell by degree": (lambda: s.ref_el, lambda: cell),
        "degrees from an iterator": (lambda: g.factors, lambda: [make_quadrature(c, d, scheme) for c, d in zip(cells, ds)]),
        "default scheme": (lambda: t.factors, lambda: [make_quadrature(c, degree, "default") for c in cells]),
        "flattened cell": (lambda: unfold(make_quadrature, Quadrilateral(cell), degree, scheme), lambda: make_quadrature(cell, degree, scheme)),
        "flattened cell by degree": (lambda: unfold(make_quadrature, Quadrilateral(cell), ds, scheme), lambda: make_quadrature(cell, ds, scheme)),
    }


def case_two(cells: "tuple[Cell]*2", p: "int", q: "int", scheme):
    """different degrees on two factor cells"""
    r = lambda: unfold(make_quadrature, Product(cells), (p, q), scheme)
    return {
        "factors": (lambda: r().factors, lambda: [make_quadrature(cells[0], p, scheme), make_quadrature(cells[1], q, scheme)]),
        "one degree": (lambda: unfold(make_quadrature, Product(cells), p, scheme).factors,
                       lambda: [make_quadrature(cells[0], p, scheme), make_quadrature(cells[1], p, scheme)]),
        "too few degrees": (lambda: unfold(make_quadrature, Product(cells), (p,), scheme), lambda: raises("AssertionError")),
    }


def case_rule(ps: "PointSet", w: "array", cell: "Cell", m: "tuple[any]*2"):
    assert len(ps.points) == len(numpy.asarray(w))
    assert m[0] is not None and m[1] is not None
    r = QuadratureRule(ps, w, cell, m)
    bare = QuadratureRule(ps, w)
    return {
        "point_set": (lambda: r.point_set, lambda: ps),
        "weights": (lambda: r.weights, lambda: numpy.asarray(w)),
        "weight_expression": (lambda: r.weight_expression, lambda: gem.Indexed(gem.Literal(numpy.asarray(w)), ps.indices)),
        "extrinsic": (lambda: r.extrinsic_orientation_permutation_map, lambda: cell.extrinsic_orientation_permutation_map),
        "intrinsic": (lambda: r.intrinsic_orientation_permutation_map_tuple, lambda: m),
        "no cell": (lambda: bare.extrinsic_orientation_permutation_map, lambda: raises("ValueError")),
        "no maps": (lambda: bare.intrinsic_orientation_permutation_map_tuple, lambda: raises("ValueError")),
        "one missing map": (lambda: QuadratureRule(ps, w, cell, (m[0], None)).intrinsic_orientation_permutation_map_tuple, lambda: raises("ValueError")),
    }


def case_tensor_rule(ps: "tuple[PointSet]*3", w: "tuple[array]*3", cell: "Cell", m: "tuple[any]*4"):
    assert m[0] is not None and m[1] is not None and m[2] is not None and m[3] is not None
    for p, x in zip(ps, w):
        assert len(p.points) == len(numpy.asarray(x))
    rules = [QuadratureRule(ps[0], w[0], None, (m[0],)), QuadratureRule(ps[1], w[1], None, (m[1], m[2])), QuadratureRule(ps[2], w[2], None, (m[3],))]
    t = TensorProductQuadratureRule((r for r in rules), ref_el=cell)
    n = TensorProductQuadratureRule([rules[0], TensorProductQuadratureRule(iter(rules[1:]))])
    return {
        "factors": (lambda: t.factors, lambda: rules),
        "points": (lambda: t.point_set.factors, lambda: ps),
        "kind of points": (lambda: type(t.point_set) is TensorPointSet, lambda: True),
        "weight_expression": (lambda: t.weight_expression, lambda: rules[0].weight_expression * rules[1].weight_expression * rules[2].weight_expression),
        "intrinsic": (lambda: t.intrinsic_orientation_permutation_map_tuple, lambda: m),
        "extrinsic": (lambda: t.extrinsic_orientation_permutation_map, lambda: cell.extrinsic_orientation_permutation_map),
        "nested weights": (lambda: n.weight_expression, lambda: rules[0].weight_expression * rules[1].weight_expression * rules[2].weight_expression),
        "nested intrinsic": (lambda: n.intrinsic_orientation_permutation_map_tuple, lambda: m),
        "nested indices": (lambda: n.point_set.indices, lambda: ps[0].indices + ps[1].indices + ps[2].indices),
    }
