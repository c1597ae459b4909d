"""An enriched element over unknown sub-elements, against the concatenation
of its sub-elements in one order."""
from itertools import chain

import FIAT
import gem

from finat.enriched import EnrichedElement
from finat.mixed import MixedSubElement


def case_order(es: "tuple[Element]*3"):
    assert not isinstance(es[0], EnrichedElement)
    assert not isinstance(es[1], EnrichedElement)
    assert not isinstance(es[2], EnrichedElement)
    d = EnrichedElement([es[0], EnrichedElement([es[1], es[2]])])
    f = EnrichedElement([EnrichedElement([es[0], es[1]]), es[2]])
    return {
        "flattened right": (lambda: d.elements, lambda: es),
        "flattened left": (lambda: f.elements, lambda: es),
        "single": (lambda: EnrichedElement([es[1]]), lambda: es[1]),
        "single nested": (lambda: EnrichedElement((EnrichedElement(es[1:2]),)), lambda: es[1]),
        "iterator": (lambda: EnrichedElement(e for e in es).elements, lambda: es),
        "repeated": (lambda: EnrichedElement([es[0], es[1], es[0]]).elements, lambda: (es[0], es[1], es[0])),
    }


def case_data(es: "tuple[Element]*3"):
    assert not isinstance(es[0], EnrichedElement)
    assert not isinstance(es[1], EnrichedElement)
    assert not isinstance(es[2], EnrichedElement)
    assert es[0].cell == es[1].cell
    assert es[0].cell == es[2].cell
    assert es[0].value_shape == es[1].value_shape
    assert es[0].value_shape == es[2].value_shape
    assert not isinstance(es[0], MixedSubElement)
    d = EnrichedElement(es)
    n = lambda: es[0].space_dimension() + es[1].space_dimension() + es[2].space_dimension()
    return {
        "cell": (lambda: d.cell, lambda: es[0].cell),
        "value_shape": (lambda: d.value_shape, lambda: es[0].value_shape),
        "space_dimension": (lambda: d.space_dimension(), n),
        "index_shape": (lambda: d.index_shape, lambda: (n(),)),
        "formdegree": (lambda: d.formdegree, lambda: None if any(e.formdegree is None for e in es) else max(e.formdegree for e in es)),
        "complex": (lambda: d.complex, lambda: FIAT.reference_element.max_complex(set([e.complex for e in es]))),
        "fiat_equivalent": (lambda: d.fiat_equivalent, lambda: FIAT.EnrichedElement(*[e.fiat_equivalent for e in es])),
        "mapping": (lambda: d.mapping, lambda: es[0].mapping if es[0].mapping == es[1].mapping and es[0].mapping == es[2].mapping else None),
    }


def case_degree(es: "tuple[Element]*2", p: "int", q: "int", r: "int", s: "int"):
    assert not isinstance(es[0], EnrichedElement)
    assert not isinstance(es[1], EnrichedElement)
    assert es[0].degree == (p, q)
    assert es[1].degree == (r, s)
    d = EnrichedElement(es)
    return {"degree": (lambda: d.degree, lambda: (max(p, r), max(q, s)))}


def case_degree_flat(es: "tuple[Element]*2", p: "int", r: "int"):
    assert not isinstance(es[0], EnrichedElement)
    assert not isinstance(es[1], EnrichedElement)
    assert es[0].degree == p
    assert es[1].degree == r
    d = EnrichedElement(es)
    return {"degree": (lambda: d.degree, lambda: max(p, r))}


def case_degree_nested(es: "tuple[Element]*2", p: "int", q: "int", r: "int", s: "int", t: "int", u: "int"):
    assert not isinstance(es[0], EnrichedElement)
    assert not isinstance(es[1], EnrichedElement)
    assert es[0].degree == ((p, q), r)
    assert es[1].degree == ((s, t), u)
    d = EnrichedElement(es)
    return {"degree": (lambda: d.degree, lambda: ((max(p, s), max(q, t)), max(r, u)))}


def merged(d, es, tabs):
    z = tuple(gem.Index(extent=n) for n in d.value_shape)
    k = gem.Index(extent=sum(e.space_dimension() for e in es))
    parts = []
    for e, t in zip(es, tabs):
        b = e.get_indices()
        parts.append(gem.ComponentTensor(gem.Indexed(t, b + z), b))
    return gem.ComponentTensor(gem.Indexed(gem.Concatenate(*parts), (k,)), (k,) + z)


def case_tables(es: "tuple[Element]*3", order: "int", ps: "PointSet", entity, cm, pt: "gem"):
    assert not isinstance(es[0], EnrichedElement)
    assert not isinstance(es[1], EnrichedElement)
    assert not isinstance(es[2], EnrichedElement)
    assert es[0].value_shape == es[1].value_shape
    assert es[0].value_shape == es[2].value_shape
    d = EnrichedElement(es)
    tb = [e.basis_evaluation(order, ps, entity, coordinate_mapping=cm) for e in es]
    tp = [e.point_evaluation(order, pt, entity) for e in es]
    assert frozenset(tb[0]) == frozenset(tb[1])
    assert frozenset(tb[0]) == frozenset(tb[2])
    assert frozenset(tp[0]) == frozenset(tp[1])
    assert frozenset(tp[0]) == frozenset(tp[2])
    D = sym("D")
    assert D in es[0].basis_evaluation(order, ps, entity, coordinate_mapping=cm)
    assert D in es[0].point_evaluation(order, pt, entity)
    return {
        "basis_evaluation": (lambda: d.basis_evaluation(order, ps, entity, coordinate_mapping=cm)[D],
                             lambda: merged(d, es, [e.basis_evaluation(order, ps, entity, coordinate_mapping=cm)[D] for e in es])),
        "point_evaluation": (lambda: d.point_evaluation(order, pt, entity)[D],
                             lambda: merged(d, es, [e.point_evaluation(order, pt, entity)[D] for e in es])),
    }


def case_tables_sized(es: "tuple[Element]*3", order: "int", ps: "PointSet", entity, cm):
    """blocks stay in sub-element order whatever the sub-elements' sizes are"""
    for e, n in zip(es, (3, 1, 2)):
        assert not isinstance(e, EnrichedElement) and not isinstance(e, MixedSubElement)
        assert e.space_dimension() == n and e.index_shape == (n,)
    assert es[0].value_shape == es[1].value_shape
    assert es[0].value_shape == es[2].value_shape
    d = EnrichedElement(es)
    tb = [e.basis_evaluation(order, ps, entity, coordinate_mapping=cm) for e in es]
    assert frozenset(tb[0]) == frozenset(tb[1])
    assert frozenset(tb[0]) == frozenset(tb[2])
    D = sym("D")
    assert D in tb[0]
    return {
        "basis_evaluation": (lambda: d.basis_evaluation(order, ps, entity, coordinate_mapping=cm)[D],
                             lambda: merged(d, es, [e.basis_evaluation(order, ps, entity, coordinate_mapping=cm)[D] for e in es])),
    }


class Cell:
    def __init__(self, topology):
        self.topology = topology

    def get_topology(self):
        return self.topology


class Part:
    """a sub-element with the entities of an interval and unknown DoF numbers"""
    value_shape = ()

    def __init__(self, cell, v, s, p, dim):
        self.cell = cell
        self.dofs = {0: {0: [v[0]], 1: [v[1], v[2]]}, 1: {0: [v[3]]}}
        self.support = {0: {0: [s[0], s[1]], 1: [s[2]]}, 1: {0: [s[3]]}}
        self.entity_permutations = {0: {0: {0: p[0]}, 1: {0: p[1]}}, 1: {0: {0: p[2], 1: p[3]}}}
        self.dim = dim

    def entity_dofs(self):
        return self.dofs

    def entity_support_dofs(self):
        return self.support

    def entity_closure_dofs(self):
        f, e = self.dofs[0], self.dofs[1]
        return {0: f, 1: {0: sorted(f[0] + f[1] + e[0])}}

    def space_dimension(self):
        return self.dim


def shifted(parts, offs):
    return {d: {i: [o + v for o, p in zip(offs, parts) for v in p[d][i]] for i in parts[0][d]} for d in parts[0]}


def case_maps(v: "tuple[int]*12", s: "tuple[int]*12", p: "tuple[tuple[int]]*12", n: "tuple[int]*3"):
    """DoF numbers and orientation permutations, entity by entity"""
    cell = Cell({0: {0: (0,), 1: (1,)}, 1: {0: (0, 1)}})
    parts = [Part(cell, v[4 * k:4 * k + 4], s[4 * k:4 * k + 4], p[4 * k:4 * k + 4], n[k]) for k in range(3)]
    d = EnrichedElement(parts)
    offs = [0, n[0], n[0] + n[1]]
    perm = lambda k: ([x for x in p[k]] + [len(p[k]) + x for x in p[4 + k]] + [len(p[k]) + len(p[4 + k]) + x for x in p[8 + k]])
    return {
        "entity_dofs": (lambda: d.entity_dofs(), lambda: shifted([q.dofs for q in parts], offs)),
        "entity_support_dofs": (lambda: d.entity_support_dofs(), lambda: shifted([q.support for q in parts], offs)),
        "entity_permutations": (lambda: d.entity_permutations, lambda: {0: {0: {0: perm(0)}, 1: {0: perm(1)}}, 1: {0: {0: perm(2), 1: perm(3)}}}),
    }

