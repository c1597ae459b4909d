"""Mixed elements over unknown sub-elements: each part's table sits at its own
offset of the long value vector, zeros elsewhere."""
import FIAT
import gem

from finat.enriched import EnrichedElement
from finat.mixed import MixedElement, MixedSubElement


def prod(s):
    r = 1
    for x in s:
        r = r * x
    return r


def placed(e, t, size, offset, cells):
    """the table whose value vector has the entries of t at offset, offset+1, ...
    in the order given by cells, and zeros elsewhere"""
    b = e.get_indices()
    k = gem.Index(extent=size)
    v = [gem.Zero() for j in range(size)]
    for j, z in enumerate(cells):
        v[offset + j] = gem.partial_indexed(t, b)[z]
    return gem.ComponentTensor(gem.Indexed(gem.ListTensor(v), (k,)), b + (k,))


def case_part_vector(e: "Element", order: "int", ps: "PointSet", entity, cm, pt: "gem"):
    assert e.value_shape == (2,)
    d = MixedSubElement(e, 5, 2)
    D = sym("D")
    assert D in e.basis_evaluation(order, ps, entity, coordinate_mapping=cm)
    assert D in e.point_evaluation(order, pt, entity)
    return {
        "value_shape": (lambda: d.value_shape, lambda: (5,)),
        "basis_evaluation": (lambda: d.basis_evaluation(order, ps, entity, coordinate_mapping=cm)[D],
                             lambda: placed(e, e.basis_evaluation(order, ps, entity, coordinate_mapping=cm)[D], 5, 2, [(0,), (1,)])),
        "point_evaluation": (lambda: d.point_evaluation(order, pt, entity)[D],
                             lambda: placed(e, e.point_evaluation(order, pt, entity)[D], 5, 2, [(0,), (1,)])),
    }


def case_part_matrix(e: "Element", order: "int", ps: "PointSet", entity, cm):
    assert e.value_shape == (2, 3)
    d = MixedSubElement(e, 7, 1)
    D = sym("D")
    assert D in e.basis_evaluation(order, ps, entity, coordinate_mapping=cm)
    return {
        "basis_evaluation": (lambda: d.basis_evaluation(order, ps, entity, coordinate_mapping=cm)[D],
                             lambda: placed(e, e.basis_evaluation(order, ps, entity, coordinate_mapping=cm)[D], 7, 1,
                                            [(0, 0), (0, 1), (0, 2), (1, 0), (1, 1), (1, 2)])),
    }


def case_part_scalar(e: "Element", order: "int", ps: "PointSet", entity, cm):
    assert e.value_shape == ()
    d = MixedSubElement(e, 3, 2)
    D = sym("D")
    assert D in e.basis_evaluation(order, ps, entity, coordinate_mapping=cm)
    return {
        "basis_evaluation": (lambda: d.basis_evaluation(order, ps, entity, coordinate_mapping=cm)[D],
                             lambda: placed(e, e.basis_evaluation(order, ps, entity, coordinate_mapping=cm)[D], 3, 2, [()])),
        "derivatives": (lambda: D in d.basis_evaluation(order, ps, entity, coordinate_mapping=cm), lambda: True),
    }


def case_part_attributes(e: "Element", size: "int", offset: "int"):
    assert 0 <= offset and offset <= size and offset + prod(e.value_shape) <= size
    d = MixedSubElement(e, size, offset)
    return {
        "cell": (lambda: d.cell, lambda: e.cell),
        "complex": (lambda: d.complex, lambda: e.complex),
        "degree": (lambda: d.degree, lambda: e.degree),
        "formdegree": (lambda: d.formdegree, lambda: e.formdegree),
        "entity_dofs": (lambda: d.entity_dofs(), lambda: e.entity_dofs()),
        "entity_closure_dofs": (lambda: d.entity_closure_dofs(), lambda: e.entity_closure_dofs()),
        "entity_support_dofs": (lambda: d.entity_support_dofs(), lambda: e.entity_support_dofs()),
        "space_dimension": (lambda: d.space_dimension(), lambda: e.space_dimension()),
        "index_shape": (lambda: d.index_shape, lambda: e.index_shape),
        "mapping": (lambda: d.mapping, lambda: e.mapping),
        "value_shape": (lambda: d.value_shape, lambda: (size,)),
    }


def case_offsets(es: "tuple[Element]*3"):
    assert es[0].value_shape == (2,)
    assert es[1].value_shape == ()
    assert es[2].value_shape == (3, 2)
    d = MixedElement(es)
    g = MixedElement(e for e in es)
    return {
        "wrapped": (lambda: [e.element for e in d.elements], lambda: list(es)),
        "offsets": (lambda: [e.offset for e in d.elements], lambda: [0, 2, 3]),
        "sizes": (lambda: [e.value_shape for e in d.elements], lambda: [(9,), (9,), (9,)]),
        "iterable": (lambda: [e.element for e in g.elements], lambda: list(es)),
        "iterable offsets": (lambda: [e.offset for e in g.elements], lambda: [0, 2, 3]),
        "fiat_equivalent": (lambda: d.fiat_equivalent,
                            lambda: FIAT.MixedElement([e.fiat_equivalent for e in es], ref_el=d.cell)),
    }


def case_offsets_any(es: "tuple[Element]*3"):
    """for unknown value shapes the offsets are the sums of the value sizes of the parts before"""
    d = MixedElement(es)
    n = [prod(e.value_shape) for e in es]
    return {
        "offsets": (lambda: [e.offset for e in d.elements], lambda: [0, n[0], n[0] + n[1]]),
        "sizes": (lambda: [e.value_shape for e in d.elements], lambda: [(n[0] + n[1] + n[2],), (n[0] + n[1] + n[2],), (n[0] + n[1] + n[2],)]),
    }
