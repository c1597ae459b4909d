"""Delegating wrappers show the wrapped element's own data."""
import FIAT
from FIAT.reference_element import LINE

from finat.discontinuous import DiscontinuousElement
from finat.hdivcurl import HDivElement, HCurlElement
from finat.tensor_product import TensorProductElement


def case_discontinuous(e: "Element", order: "int", ps: "PointSet", entity, cm, dim, i: "int"):
    assert dim in e.cell.get_topology()
    assert i in e.cell.get_topology()[dim]
    assert i == 0 or not dim == e.cell.get_dimension()     # a cell has one interior
    d = DiscontinuousElement(e)
    return {
        "cell": (lambda: d.cell, lambda: e.cell),
        "degree": (lambda: d.degree, lambda: e.degree),
        "formdegree": (lambda: d.formdegree, lambda: e.cell.get_spatial_dimension()),
        "space_dimension": (lambda: d.space_dimension(), lambda: e.space_dimension()),
        "index_shape": (lambda: d.index_shape, lambda: e.index_shape),
        "value_shape": (lambda: d.value_shape, lambda: e.value_shape),
        "mapping": (lambda: d.mapping, lambda: e.mapping),
        "basis_evaluation": (lambda: d.basis_evaluation(order, ps, entity, coordinate_mapping=cm),
                             lambda: e.basis_evaluation(order, ps, entity=entity, coordinate_mapping=cm)),
        "point_evaluation": (lambda: d.point_evaluation(order, ps, entity), lambda: e.point_evaluation(order, ps, entity)),
        "dual_basis": (lambda: d.dual_basis, lambda: e.dual_basis),
        "complex": (lambda: d.complex, lambda: e.complex),
        "fiat_equivalent": (lambda: d.fiat_equivalent, lambda: FIAT.DiscontinuousElement(e.fiat_equivalent)),
        "entity_permutations": (lambda: d.entity_permutations,
                                lambda: e.entity_permutations if e.entity_dofs() == e.entity_closure_dofs() else raises("NotImplementedError")),
        "entity_dofs": (lambda: d.entity_dofs()[dim][i],
                        lambda: list(range(e.space_dimension())) if dim == e.cell.get_dimension() and i == 0 else []),
        "entity_dofs keys": (lambda: dim in d.entity_dofs(), lambda: True),
    }


class Product(TensorProductElement):
    """a product element with unknown data"""

    def __init__(self, e, factors):
        self.e = e
        self.factors = factors

    cell = property(lambda self: self.e.cell)
    complex = property(lambda self: self.e.complex)
    degree = property(lambda self: self.e.degree)
    formdegree = property(lambda self: self.e.formdegree)
    index_shape = property(lambda self: self.e.index_shape)
    value_shape = property(lambda self: self.e.value_shape)
    mapping = property(lambda self: self.e.mapping)
    dual_basis = property(lambda self: self.e.dual_basis)
    entity_permutations = property(lambda self: self.e.entity_permutations)

    def entity_dofs(self):
        return self.e.entity_dofs()

    def entity_closure_dofs(self):
        return self.e.entity_closure_dofs()

    def entity_support_dofs(self):
        return self.e.entity_support_dofs()

    def space_dimension(self):
        return self.e.space_dimension()


def forwarded(d, e):
    return {
        "cell": (lambda: d.cell, lambda: e.cell),
        "complex": (lambda: d.complex, lambda: e.complex),
        "degree": (lambda: d.degree, lambda: e.degree),
        "index_shape": (lambda: d.index_shape, lambda: e.index_shape),
        "space_dimension": (lambda: d.space_dimension(), lambda: e.space_dimension()),
        "entity_dofs": (lambda: d.entity_dofs(), lambda: e.entity_dofs()),
        "entity_closure_dofs": (lambda: d.entity_closure_dofs(), lambda: e.entity_closure_dofs()),
        "entity_support_dofs": (lambda: d.entity_support_dofs(), lambda: e.entity_support_dofs()),
        "entity_permutations": (lambda: d.entity_permutations, lambda: e.entity_permutations),
    }


def case_hdiv(e: "Element", fs: "tuple[Element]*2"):
    assert fs[0].formdegree == 1 and fs[1].formdegree == 0
    assert fs[1].cell.get_shape() == LINE
    assert e.cell.get_spatial_dimension() == 2
    return forwarded(HDivElement(Product(e, fs)), e)


def case_hcurl(e: "Element", fs: "tuple[Element]*2"):
    assert fs[0].formdegree == 1 and fs[1].formdegree == 0
    assert fs[1].cell.get_shape() == LINE
    assert e.mapping == "affine"
    return forwarded(HCurlElement(Product(e, fs)), e)
