"""H(div) and H(curl) wrappers of a product of two unknown factors, for every
admissible combination of form degrees and mapping: each table and the dual
weights get the same placement, rotation and sign."""
import FIAT
import gem
from FIAT.hdivcurl import Hdiv, Hcurl
from FIAT.reference_element import LINE

from finat.hdivcurl import HDivElement, HCurlElement
from finat.tensor_product import TensorProductElement

opaque(TensorProductElement.basis_evaluation, "dict[tuple[int],gem]")
opaque(TensorProductElement.point_evaluation, "dict[tuple[int],gem]")
opaque(TensorProductElement.dual_basis)


def transformed(e, t, f, n):
    b = e.get_indices()
    k = gem.Index(extent=n)
    return gem.ComponentTensor(gem.Indexed(gem.ListTensor(f(gem.partial_indexed(t, b))), (k,)), b + (k,))


def tables(d, w, f, n, order, ps, entity, pt):
    D = sym("D")
    return {
        "value_shape": (lambda: d.value_shape, lambda: (n,)),
        "index_shape": (lambda: d.index_shape, lambda: w.index_shape),
        "basis_evaluation": (lambda: d.basis_evaluation(order, ps, entity)[D], lambda: transformed(w, w.basis_evaluation(order, ps, entity)[D], f, n)),
        "point_evaluation": (lambda: d.point_evaluation(order, pt, entity)[D], lambda: transformed(w, w.point_evaluation(order, pt, entity)[D], f, n)),
        "dual weights": (lambda: d.dual_basis[0], lambda: transformed(w, w.dual_basis[0], f, n)),
        "dual points": (lambda: d.dual_basis[1], lambda: w.dual_basis[1]),
    }


Z = gem.Zero()


def case_hdiv_vertical_edge(a: "Element", b: "Element", order: "int", ps: "PointSet", entity, pt: "gem"):
    """0-form x 1-form: the flux through the x-normal facets, pointing along -x"""
    assert a.formdegree == 0 and b.formdegree == 1
    assert a.value_shape == () and b.value_shape == ()
    assert a.cell.get_spatial_dimension() == 1 and b.cell.get_spatial_dimension() == 1
    assert b.cell.get_shape() == LINE
    w = TensorProductElement([a, b])
    D = sym("D")
    assert D in w.basis_evaluation(order, ps, entity)
    assert D in w.point_evaluation(order, pt, entity)
    d = HDivElement(w)
    return tables(d, w, lambda v: [-1 * v, Z], 2, order, ps, entity, pt)


def case_hdiv_horizontal_edge(a: "Element", b: "Element", order: "int", ps: "PointSet", entity, pt: "gem"):
    assert a.formdegree == 1 and b.formdegree == 0
    assert a.value_shape == () and b.value_shape == ()
    assert a.cell.get_spatial_dimension() == 1 and b.cell.get_spatial_dimension() == 1
    assert b.cell.get_shape() == LINE
    w = TensorProductElement([a, b])
    D = sym("D")
    assert D in w.basis_evaluation(order, ps, entity)
    assert D in w.point_evaluation(order, pt, entity)
    d = HDivElement(w)
    return tables(d, w, lambda v: [Z, v], 2, order, ps, entity, pt)


def case_hdiv_horizontal_face(a: "Element", b: "Element", order: "int", ps: "PointSet", entity, pt: "gem"):
    assert a.formdegree == 2 and b.formdegree == 0
    assert a.value_shape == () and b.value_shape == ()
    assert a.cell.get_spatial_dimension() == 2 and b.cell.get_spatial_dimension() == 1
    assert b.cell.get_shape() == LINE
    w = TensorProductElement([a, b])
    D = sym("D")
    assert D in w.basis_evaluation(order, ps, entity)
    assert D in w.point_evaluation(order, pt, entity)
    d = HDivElement(w)
    return tables(d, w, lambda v: [Z, Z, v], 3, order, ps, entity, pt)


def case_hdiv_vertical_face_contra(a: "Element", b: "Element", order: "int", ps: "PointSet", entity, pt: "gem"):
    assert a.formdegree == 1 and b.formdegree == 1
    assert a.value_shape == (2,) and b.value_shape == ()
    assert a.mapping == "contravariant piola" and b.mapping == "affine"
    assert a.cell.get_spatial_dimension() == 2 and b.cell.get_spatial_dimension() == 1
    assert b.cell.get_shape() == LINE
    w = TensorProductElement([a, b])
    D = sym("D")
    assert D in w.basis_evaluation(order, ps, entity)
    assert D in w.point_evaluation(order, pt, entity)
    d = HDivElement(w)
    return tables(d, w, lambda v: [v[0], v[1], Z], 3, order, ps, entity, pt)


def case_hdiv_vertical_face_cov(a: "Element", b: "Element", order: "int", ps: "PointSet", entity, pt: "gem"):
    """a covariant horizontal factor is rotated by -90 degrees"""
    assert a.formdegree == 1 and b.formdegree == 1
    assert a.value_shape == (2,) and b.value_shape == ()
    assert a.mapping == "covariant piola" and b.mapping == "affine"
    assert a.cell.get_spatial_dimension() == 2 and b.cell.get_spatial_dimension() == 1
    assert b.cell.get_shape() == LINE
    w = TensorProductElement([a, b])
    D = sym("D")
    assert D in w.basis_evaluation(order, ps, entity)
    assert D in w.point_evaluation(order, pt, entity)
    d = HDivElement(w)
    return tables(d, w, lambda v: [v[1], -1 * v[0], Z], 3, order, ps, entity, pt)


def case_hcurl_scalar_first_2d(a: "Element", b: "Element", order: "int", ps: "PointSet", entity, pt: "gem"):
    assert a.formdegree == 1 and b.formdegree == 0
    assert a.value_shape == () and b.value_shape == ()
    assert a.mapping == "affine" and b.mapping == "affine"
    assert a.cell.get_spatial_dimension() == 1 and b.cell.get_spatial_dimension() == 1
    assert b.cell.get_shape() == LINE
    w = TensorProductElement([a, b])
    D = sym("D")
    assert D in w.basis_evaluation(order, ps, entity)
    assert D in w.point_evaluation(order, pt, entity)
    d = HCurlElement(w)
    return tables(d, w, lambda v: [v, Z], 2, order, ps, entity, pt)


def case_hcurl_scalar_second_2d(a: "Element", b: "Element", order: "int", ps: "PointSet", entity, pt: "gem"):
    assert a.formdegree == 0 and b.formdegree == 1
    assert a.value_shape == () and b.value_shape == ()
    assert a.mapping == "affine" and b.mapping == "affine"
    assert a.cell.get_spatial_dimension() == 1 and b.cell.get_spatial_dimension() == 1
    assert b.cell.get_shape() == LINE
    w = TensorProductElement([a, b])
    D = sym("D")
    assert D in w.basis_evaluation(order, ps, entity)
    assert D in w.point_evaluation(order, pt, entity)
    d = HCurlElement(w)
    return tables(d, w, lambda v: [Z, v], 2, order, ps, entity, pt)


def case_hcurl_scalar_second_3d(a: "Element", b: "Element", order: "int", ps: "PointSet", entity, pt: "gem"):
    assert a.formdegree == 0 and b.formdegree == 1
    assert a.value_shape == () and b.value_shape == ()
    assert a.mapping == "affine" and b.mapping == "affine"
    assert a.cell.get_spatial_dimension() == 2 and b.cell.get_spatial_dimension() == 1
    assert b.cell.get_shape() == LINE
    w = TensorProductElement([a, b])
    D = sym("D")
    assert D in w.basis_evaluation(order, ps, entity)
    assert D in w.point_evaluation(order, pt, entity)
    d = HCurlElement(w)
    return tables(d, w, lambda v: [Z, Z, v], 3, order, ps, entity, pt)


def case_hcurl_cov(a: "Element", b: "Element", order: "int", ps: "PointSet", entity, pt: "gem"):
    assert a.formdegree == 1 and b.formdegree == 0
    assert a.value_shape == (2,) and b.value_shape == ()
    assert a.mapping == "covariant piola" and b.mapping == "affine"
    assert a.cell.get_spatial_dimension() == 2 and b.cell.get_spatial_dimension() == 1
    assert b.cell.get_shape() == LINE
    w = TensorProductElement([a, b])
    D = sym("D")
    assert D in w.basis_evaluation(order, ps, entity)
    assert D in w.point_evaluation(order, pt, entity)
    d = HCurlElement(w)
    return tables(d, w, lambda v: [v[0], v[1], Z], 3, order, ps, entity, pt)


def case_hcurl_contra(a: "Element", b: "Element", order: "int", ps: "PointSet", entity, pt: "gem"):
    """a contravariant horizontal factor is rotated by 90 degrees"""
    assert a.formdegree == 1 and b.formdegree == 0
    assert a.value_shape == (2,) and b.value_shape == ()
    assert a.mapping == "contravariant piola" and b.mapping == "affine"
    assert a.cell.get_spatial_dimension() == 2 and b.cell.get_spatial_dimension() == 1
    assert b.cell.get_shape() == LINE
    w = TensorProductElement([a, b])
    D = sym("D")
    assert D in w.basis_evaluation(order, ps, entity)
    assert D in w.point_evaluation(order, pt, entity)
    d = HCurlElement(w)
    return tables(d, w, lambda v: [-1 * v[1], v[0], Z], 3, order, ps, entity, pt)


def case_refused(a: "Element", b: "Element", k: "int", n: "int"):
    """wrong or unknown form degrees are refused"""
    assert b.value_shape == ()
    assert a.cell.get_spatial_dimension() == n and b.cell.get_spatial_dimension() == 1
    assert b.cell.get_shape() == LINE

    def wrap(W, x, y):
        w = TensorProductElement([x, y])
        return W(w) is None

    def spec(good):
        if a.formdegree is None or b.formdegree is None:
            return raises("ValueError")
        if a.formdegree + b.formdegree != good:
            return raises("ValueError")
        return undefined()
    return {
        "H(div)": (lambda: HDivElement(TensorProductElement([a, b])), lambda: spec(n)),
        "H(curl)": (lambda: HCurlElement(TensorProductElement([a, b])), lambda: spec(1)),
    }



def case_unknown_mapping(a: "Element", b: "Element"):
    """values that no rule places are refused, never padded or rotated by guess"""
    assert b.value_shape == () and b.mapping == "affine"
    assert a.mapping == "double contravariant piola"
    assert a.formdegree == 1 and b.formdegree == 1
    assert a.cell.get_spatial_dimension() == 2 and b.cell.get_spatial_dimension() == 1
    assert b.cell.get_shape() == LINE
    return {"H(div)": (lambda: HDivElement(TensorProductElement([a, b])), lambda: raises())}


def case_unknown_mapping_curl(a: "Element", b: "Element"):
    assert b.value_shape == () and b.mapping == "affine"
    assert a.mapping == "double covariant piola"
    assert a.formdegree == 1 and b.formdegree == 0
    assert a.cell.get_spatial_dimension() == 2 and b.cell.get_spatial_dimension() == 1
    assert b.cell.get_shape() == LINE
    return {"H(curl)": (lambda: HCurlElement(TensorProductElement([a, b])), lambda: raises())}


def case_attributes(a: "Element", b: "Element"):
    assert a.value_shape == () and b.value_shape == ()
    assert a.mapping == "affine" and b.mapping == "affine"
    assert a.formdegree == 1 and b.formdegree == 0
    assert a.cell.get_spatial_dimension() == 1 and b.cell.get_spatial_dimension() == 1
    assert b.cell.get_shape() == LINE
    w = TensorProductElement([a, b])
    d, c = HDivElement(w), HCurlElement(w)
    return {
        "H(div) mapping": (lambda: d.mapping, lambda: "contravariant piola"),
        "H(curl) mapping": (lambda: c.mapping, lambda: "covariant piola"),
        "H(div) formdegree": (lambda: d.formdegree, lambda: 1),
        "H(curl) formdegree": (lambda: c.formdegree, lambda: 1),
        "H(div) fiat": (lambda: d.fiat_equivalent, lambda: Hdiv(w.fiat_equivalent)),
        "H(curl) fiat": (lambda: c.fiat_equivalent, lambda: Hcurl(w.fiat_equivalent)),
    }


def case_attributes_3d(a: "Element", b: "Element"):
    assert a.value_shape == () and b.value_shape == ()
    assert a.formdegree == 2 and b.formdegree == 0
    assert a.cell.get_spatial_dimension() == 2 and b.cell.get_spatial_dimension() == 1
    assert b.cell.get_shape() == LINE
    d = HDivElement(TensorProductElement([a, b]))
    return {
        "H(div) formdegree": (lambda: d.formdegree, lambda: 2),
        "H(div) value_shape": (lambda: d.value_shape, lambda: (3,)),
    }
