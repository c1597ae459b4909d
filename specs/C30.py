"""Sub-elements, shapes, cells, degrees, schemes and components of composite
symbolic elements."""
from finat.ufl import (BrokenElement, EnrichedElement, FiniteElement, HCurlElement, HDivElement, MixedElement, NodalEnrichedElement, RestrictedElement,
                       TensorElement, TensorProductElement, VectorElement, WithMapping)
from finat.ufl.hdivcurl import HCurl, HDiv
from symbolic import Known, Part, Varied, by_symmetry, flat, library, product_of, rows, strides_of, times, unflat

INTERVAL, TRIANGLE, TETRAHEDRON = Known("interval"), Known("triangle"), Known("tetrahedron")
DOMAINS = ("interior", "facet", "face", "edge", "vertex", "reduced")


def shaped(k, shape, p=1, qs=None, cell=TRIANGLE):
    return Part("part%d" % k, cell, p, qs, shape)


def about(e):
    return (e.cell, e.degree(), e.quadrature_scheme(), e.reference_value_shape, e.reference_value_size)


def listed(e):
    return tuple(e.sub_elements), e.num_sub_elements


def case_mixed(p: "int", q: "int", qs: "str", a: "int", b: "int"):
    library()
    assert a >= 0
    assert b >= 0
    r = {}
    scalar, vector, matrix = shaped(0, (), p, qs), shaped(1, (a,), q, qs), shaped(2, (a, b), p, qs)
    assert repr(scalar) != repr(vector)
    other, late = shaped(3, (2,), 3, qs), shaped(4, (), None, qs)
    for k, (es, degree, size) in enumerate([((scalar,), p, 1), ((scalar, vector), max(p, q), 1 + a), ((vector, scalar), max(p, q), 1 + a), ((matrix, vector, scalar), max(p, q), a*b + a + 1),
                                            ((other, scalar), max(3, p), 3), ((late, scalar), p, 2), ((late,), None, 1), ((scalar, scalar), p, 2)]):
        r["parts %d" % k] = (lambda es=es: listed(MixedElement(*es)), lambda es=es: (es, len(es)))
        r["listed parts %d" % k] = (lambda es=es: listed(MixedElement(list(es))), lambda es=es: (es, len(es)))
        r["what %d is" % k] = (lambda es=es: about(MixedElement(*es)), lambda es=es, degree=degree, size=size: (TRIANGLE, degree, qs, (size,), size))
        r["variant %d" % k] = (lambda es=es: MixedElement(*es).variant(), lambda es=es: common([e.variant() for e in es]))

    def inner(nested):
        return [(type(e), tuple(e.sub_elements), e.reference_value_shape) for e in nested.sub_elements]
    r["nested"] = (lambda: inner(MixedElement((scalar, vector), [matrix, scalar])),
                   lambda: [(MixedElement, (scalar, vector), (1 + a,)), (MixedElement, (matrix, scalar), (a*b + 1,))])
    r["nested, shape"] = (lambda: about(MixedElement((scalar, vector), [matrix, scalar])), lambda: (TRIANGLE, max(p, q), qs, (a*b + a + 2,), a*b + a + 2))
    r["no keywords"] = (lambda: MixedElement(scalar, reference_value_shape=(1,)), lambda: raises("ValueError"))
    r["product is mixed"] = (lambda: listed(scalar * vector), lambda: ((scalar, vector), 2))
    r["product is mixed, type"] = (lambda: type(scalar * vector), lambda: MixedElement)
    r["no product"] = (lambda: scalar * 2, lambda: raises("ValueError"))
    r["same parts"] = (lambda: MixedElement(scalar, vector).reconstruct_from_elements(vector, scalar).sub_elements, lambda: [vector, scalar])
    r["fewer parts"] = (lambda: MixedElement(scalar, vector).reconstruct_from_elements(scalar).sub_elements, lambda: [scalar])
    r["more parts"] = (lambda: MixedElement(scalar, vector).reconstruct_from_elements(scalar, vector, vector).sub_elements, lambda: [scalar, vector, vector])
    return r


def common(values):
    """the value all of them have, if they have one"""
    for x in values:
        if x != values[0]:
            return None
    return values[0]


def case_refusals(p: "int", qs: "str", q2: "str", f: "str", dim: "int"):
    library()
    assert qs != q2
    r = {}
    here, there, plain, none = shaped(0, (), p, qs), shaped(1, (), p, qs, INTERVAL), shaped(2, (), p, None), shaped(3, (), p, qs, None)
    differently = shaped(4, (), p, q2)
    wide, tall = shaped(5, (2,), p, qs), shaped(6, (3,), p, qs)
    for n, cls in (("mixed", MixedElement), ("enriched", EnrichedElement), ("nodal enriched", NodalEnrichedElement)):
        for k, es in enumerate([(here, there), (there, here), (here, here, there), (here, differently), (differently, here), (here, here, differently)]):
            r["%s, refused %d" % (n, k)] = (lambda cls=cls, es=es: cls(*es), lambda: raises("ValueError"))
        if n != "mixed":
            for k, es in enumerate([(wide, tall), (tall, wide), (here, wide), (wide, here), (wide, wide, tall), (here, none), (plain, here, differently)]):
                r["%s, shapes refused %d" % (n, k)] = (lambda cls=cls, es=es: cls(*es), lambda: raises("ValueError"))
            for k, es in enumerate([(here, plain), (plain, here), (plain, plain, here)]):
                r["%s, undefined scheme %d" % (n, k)] = (lambda cls=cls, es=es: cls(*es).quadrature_scheme(), lambda: qs)
            r[n + ", no scheme"] = (lambda cls=cls: cls(plain, plain).quadrature_scheme(), lambda: None)
    r["mixed, undefined scheme"] = (lambda: MixedElement(here, plain), lambda: raises("ValueError"))
    r["mixed, no cell in one"] = (lambda: MixedElement(none, here).cell, lambda: TRIANGLE)
    r["mixed, no cell"] = (lambda: MixedElement(none, none).cell, lambda: None)
    r["vector without a cell"] = (lambda: VectorElement(none), lambda: raises("ValueError"))
    r["tensor without a cell"] = (lambda: TensorElement(none), lambda: raises("ValueError"))
    r["no products"] = (lambda: TensorProductElement(), lambda: raises("ValueError"))
    r["only the cell by keyword"] = (lambda: TensorProductElement(here, here, degree=2), lambda: raises("ValueError"))
    r["vector-valued product"] = (lambda: TensorProductElement(wide, tall, cell=TRIANGLE), lambda: raises("ValueError"))
    r["matrix-valued product"] = (lambda: TensorProductElement(shaped(7, (2, 2), p, qs), cell=TRIANGLE), lambda: raises("ValueError"))
    r["restricted number"] = (lambda: RestrictedElement(3, "facet"), lambda: raises("ValueError"))
    for name in DOMAINS:
        assert f != name
    r["restricted to nothing known"] = (lambda: RestrictedElement(here, f), lambda: raises("ValueError"))
    r["indexed by nothing known"] = (lambda: here[f], lambda: raises("KeyError"))
    r["not a sum"] = (lambda: here + 2, lambda: raises("ValueError"))
    r["not a sequence"] = (lambda: [x for x in here], lambda: raises("TypeError"))
    return r


def case_enriched(p: "int", q: "int", qs: "str", a: "int"):
    library()
    r = {}
    for shape in ((), (a,), (a, 2)):
        one, two, three = [shaped(k, shape, d, qs) for k, d in ((0, p), (1, q), (2, None))]
        for n, cls in (("enriched", EnrichedElement), ("nodal enriched", NodalEnrichedElement)):
            for k, (es, degree) in enumerate([((one,), p), ((one, two), max(p, q)), ((two, one), max(p, q)), ((three, one), p), ((three,), None)]):
                r["%s %d, rank %d" % (n, k, len(shape))] = (lambda cls=cls, es=es: about(cls(*es)), lambda shape=shape, degree=degree: (TRIANGLE, degree, qs, shape, times(shape)))
                r["parts of %s %d, rank %d" % (n, k, len(shape))] = (lambda cls=cls, es=es: cls(*es)._elements, lambda es=es: es)
                r["family of %s %d, rank %d" % (n, k, len(shape))] = (lambda cls=cls, es=es: cls(*es).family(), lambda cls=cls: cls.__name__)
                r["variant of %s %d, rank %d" % (n, k, len(shape))] = (lambda cls=cls, es=es: cls(*es).variant(), lambda es=es: common([e.variant() for e in es]))
    pair, trio = shaped(0, (), (p, q), qs), shaped(1, (), (q, 2), qs)
    r["degrees in each direction"] = (lambda: EnrichedElement(pair, trio).degree(), lambda: (max(p, q), max(q, 2)))
    one, two = shaped(0, (), p, qs), shaped(1, (), q, qs)
    r["sum is enriched"] = (lambda: (type(one + two), (one + two)._elements), lambda: (EnrichedElement, (one, two)))
    return r


def case_variants(p: "int", qs: "str", v: "str", w: "str"):
    """a composite has the variant that all its parts have"""
    library()
    assert v != w
    r = {}
    for k, variants in enumerate([(v,), (None,), (v, v), (None, None), (v, None), (None, v), (v, w), (v, v, None), (w, v, v), (v, v, v)]):
        es = [Varied("part%d" % n, TRIANGLE, p, qs, x) for n, x in enumerate(variants)]
        for n, cls in (("mixed", MixedElement), ("enriched", EnrichedElement), ("nodal enriched", NodalEnrichedElement), ("product", TensorProductElement)):
            r["%s, %d" % (n, k)] = (lambda cls=cls, es=es: cls(*es).variant(), lambda variants=variants: common(variants))
    for k, x in enumerate((v, None)):
        e = Varied("part", TRIANGLE, p, qs, x)
        for n, make in (("vector", VectorElement), ("tensor", TensorElement), ("H(div)", HDivElement), ("H(curl)", HCurlElement),
                        ("restricted", lambda e: RestrictedElement(e, "facet")), ("with mapping", lambda e: WithMapping(e, "identity"))):
            r["%s, %d" % (n, k)] = (lambda make=make, e=e: make(e).variant(), lambda x=x: x)
    return r


def case_wrapped(p: "int", qs: "str", a: "int", m: "str"):
    library()
    assert m != "symmetries"
    r = {}
    for shape in ((), (a,), (a, 2)):
        for cell in (INTERVAL, TRIANGLE, TETRAHEDRON):
            e = shaped(0, shape, p, qs, cell)
            d = cell.topological_dimension()
            key = "%s, rank %d" % (cell.cellname(), len(shape))
            same = (cell, p, qs, shape, times(shape))
            r["broken " + key] = (lambda e=e: about(BrokenElement(e)), lambda same=same: same)
            r["broken what " + key] = (lambda e=e: (BrokenElement(e)._element, BrokenElement(e).family()), lambda e=e: (e, "BrokenElement"))
            for n, cls in (("div", HDivElement), ("curl", HCurlElement)):
                r["H(%s) %s" % (n, key)] = (lambda cls=cls, e=e: about(cls(e)), lambda cell=cell, d=d: (cell, p, qs, (d,), d))
                r["H(%s) what %s" % (n, key)] = (lambda cls=cls, e=e: (cls(e)._element, cls(e).variant()), lambda e=e: (e, e.variant()))

            def remapped(d=d, shape=shape):
                if m in ("covariant Piola", "contravariant Piola"):
                    return (d,)
                if m in ("double covariant Piola", "double contravariant Piola", "covariant contravariant Piola"):
                    return (d, d)
                return shape
            r["with mapping " + key] = (lambda e=e: about(WithMapping(e, m)), lambda cell=cell, remapped=remapped: (cell, p, qs, remapped(), times(remapped())))
            r["with mapping what " + key] = (lambda e=e: (WithMapping(e, m).wrapee, WithMapping(e, m).variant()), lambda e=e: (e, e.variant()))
            for domain in DOMAINS:
                r["restricted to %s %s" % (domain, key)] = (lambda e=e, domain=domain: about(RestrictedElement(e, domain)), lambda same=same: same)
                r["restricted to %s what %s" % (domain, key)] = (lambda e=e, domain=domain: restricted(RestrictedElement(e, domain)),
                                                                 lambda e=e, domain=domain: (e, domain, (e,), 1, e.variant(), "RestrictedElement"))
                r["indexed by %s %s" % (domain, key)] = (lambda e=e, domain=domain: (type(e[domain]), e[domain].sub_element(), e[domain].restriction_domain()),
                                                         lambda e=e, domain=domain: (RestrictedElement, e, domain))
    e, f = shaped(0, (), p, qs), shaped(1, (a,), p, qs)
    mixed = MixedElement(e, f)
    r["parts of restricted mixed"] = (lambda: listed(RestrictedElement(mixed, "facet")), lambda: ((e, f), 2))
    t = TensorElement(e, shape=(2, 2), symmetry=True)
    r["symmetry of restricted tensor"] = (lambda: RestrictedElement(t, "facet").symmetry(), lambda: {(1, 0): (0, 1)})
    for n, make in (("broken", lambda: BrokenElement(mixed)), ("H(div)", lambda: HDivElement(mixed)), ("part", lambda: e)):
        r["parts of " + n] = (lambda make=make: listed(make()), lambda: ((), 0))
    return r


def restricted(e):
    return e.sub_element(), e.restriction_domain(), e.restricted_sub_elements(), e.num_restricted_sub_elements(), e.variant(), e.family()


class Physical(Part):
    """an element with a value shape of its own on every domain"""

    def value_shape(self, domain):
        return (domain.geometric_dimension(), 7)


class Domain:
    """a domain of some geometric dimension"""

    def __init__(self, d):
        self.d = d

    def geometric_dimension(self):
        return self.d


def case_on_domains(p: "int", qs: "str", d: "int", other: "str"):
    library()
    e, at = Physical("part", TRIANGLE, p, qs), Domain(d)
    r = {}
    for m in ("covariant Piola", "contravariant Piola"):
        r[m] = (lambda m=m: WithMapping(e, m).value_shape(at), lambda: (d,))
    for m in ("double covariant Piola", "double contravariant Piola", "covariant contravariant Piola"):
        r[m] = (lambda m=m: WithMapping(e, m).value_shape(at), lambda: (d, d))
        assert other != m
    assert other != "symmetries"
    assert other != "covariant Piola"
    assert other != "contravariant Piola"
    r["another"] = (lambda: WithMapping(e, other).value_shape(at), lambda: (d, 7))
    return r


def case_call_syntax(p: "int", qs: "str"):
    library()
    e = Part("part", TRIANGLE, p, qs)
    return {"H(div)": (lambda: HDiv(e), lambda: HDivElement(e)), "H(curl)": (lambda: HCurl(e), lambda: HCurlElement(e)),
            "names": (lambda: (HDiv.name, HCurl.name), lambda: ("HDiv", "HCurl"))}


def case_products(p: "int", q: "int", qs: "str", a: "int"):
    library()
    r = {}
    scalars = [shaped(k, (), d, qs, cell) for k, (d, cell) in enumerate([(p, TRIANGLE), (q, INTERVAL), (p, INTERVAL)])]
    vector = shaped(3, (a,), q, qs, INTERVAL)
    hexahedron = Known("hexahedron")
    for k, (es, shape) in enumerate([(scalars[:1], ()), (scalars[:2], ()), (scalars, ()), ([scalars[1], scalars[0]], ()), ([scalars[0], vector], (a,)), ([vector, scalars[0]], (a,))]):
        for n, kw in (("given cell", {"cell": hexahedron}), ("own cell", {})):
            r["%d, %s" % (k, n)] = (lambda es=es, kw=kw: about(TensorProductElement(*es, **kw)),
                                    lambda es=es, kw=kw, shape=shape: (hexahedron if kw else product_of(*[e.cell for e in es]), tuple([e.degree() for e in es]), None, shape, times(shape)))
            r["%d, %s, factors" % (k, n)] = (lambda es=es, kw=kw: listed(TensorProductElement(*es, **kw)), lambda es=es: (tuple(es), len(es)))
            r["%d, %s, variant" % (k, n)] = (lambda es=es, kw=kw: TensorProductElement(*es, **kw).variant(), lambda es=es: common([e.variant() for e in es]))
    return r


def case_vectors(p: "int", qs: "str", a: "int", dim: "int"):
    library()
    assert dim >= 1
    assert a >= 1
    r = {}
    for shape in ((), (a,), (a, 2)):
        for cell in (INTERVAL, TRIANGLE, TETRAHEDRON):
            e = shaped(0, shape, p, qs, cell)
            d = cell.topological_dimension()
            key = "%s, rank %d" % (cell.cellname(), len(shape))
            for n, make, size in (("given", lambda e=e: VectorElement(e, dim=dim), dim), ("default", lambda e=e: VectorElement(e), d), ("one", lambda e=e: VectorElement(e, dim=1), 1)):
                r["%s, %s" % (n, key)] = (lambda make=make: about(make()), lambda cell=cell, shape=shape, size=size: (cell, p, qs, (size,) + shape, size*times(shape)))
                r["%s, parts, %s" % (n, key)] = (lambda make=make: listed(make()), lambda e=e, size=size: (tuple([e for _ in range(size)]), size))
                r["%s, family, %s" % (n, key)] = (lambda make=make: (make().family(), make().variant()), lambda e=e: (e.family(), e.variant()))
            # the cell is that of the parts
            for n, make in (("vector", lambda e=e: VectorElement(e, cell=Known("hexahedron"))), ("tensor", lambda e=e: TensorElement(e, cell=Known("hexahedron")))):
                r["%s, cell, %s" % (n, key)] = (lambda make=make: (make().cell, make().reference_value_shape), lambda cell=cell, d=d, n=n, shape=shape: (cell, (d, d) + shape if n == "tensor" else (d,) + shape))
    return r


def case_vector_by_name(degree: "int", qs: "str", variant: "str", dim: "int"):
    library()
    assert degree >= 1
    assert dim >= 1
    e = FiniteElement("Lagrange", TRIANGLE, degree, quad_scheme=qs, variant=variant)
    v = VectorElement("Lagrange", TRIANGLE, degree, dim=dim, quad_scheme=qs, variant=variant)
    t = TensorElement("Lagrange", TRIANGLE, degree, shape=(2, 3), quad_scheme=qs, variant=variant)

    def kind(x):
        return x.family(), x.cell, x.degree(), x.quadrature_scheme(), x.variant(), x.reference_value_shape
    r = {}
    for n, x in (("vector", v), ("tensor", t)):
        r[n + " of"] = (lambda x=x: kind(x.sub_elements[0]), lambda: kind(e))
    r["vector"] = (lambda: about(v), lambda: (TRIANGLE, degree, qs, (dim,), dim))
    r["tensor"] = (lambda: about(t), lambda: (TRIANGLE, degree, qs, (2, 3), 6))
    form = VectorElement("Nedelec 1st kind H(curl)", TRIANGLE, degree, quad_scheme=qs)
    r["vector of vectors"] = (lambda: about(form), lambda: (TRIANGLE, degree, qs, (2, 2), 4))
    return r


def case_vector_by_form():
    library()
    r = {}
    for k, family in enumerate(("Lagrange", "Nedelec 1st kind H(curl)", "Discontinuous Lagrange")):
        r["form degree %d" % k] = (lambda k=k: VectorElement("P- Lambda", TRIANGLE, 2, dim=3, form_degree=k).sub_elements[2].family(), lambda family=family: family)
    return r


TENSORS = (((2, 3), None), ((2, 3), {}), ((2, 2), True), ((3, 3), True), ((1, 1), True), ((4,), None), ((2, 2, 2), None), ((2, 2), {(0, 1): (1, 0)}),
           ((2, 3), {(1, 2): (0, 0), (0, 1): (1, 0)}), ((3, 3), {(0, 2): (2, 0)}), ((4,), {(0,): (3,), (2,): (1,)}), ((2, 2, 2), {(0, 1, 0): (0, 0, 1), (1, 1, 0): (1, 0, 1)}),
           ((3, 3), {(1, 0): (0, 1), (0, 2): (2, 0), (2, 1): (1, 2)}))


def symmetries(shape, symmetry):
    """the components given as copies of others"""
    if symmetry is None:
        return {}
    if symmetry is True:
        return {(i, j): (j, i) for i in range(shape[0]) for j in range(i)}
    return symmetry


def blocks(shape, symmetry):
    """which part each component is: the ones that are not copies are numbered in order"""
    given = symmetries(shape, symmetry)
    own = [i for i in rows(shape) if i not in given]
    return {i: own.index(given[i] if i in given else i) for i in rows(shape)}


def case_tensors(p: "int", qs: "str", a: "int"):
    library()
    assert a >= 1
    r = {}
    for sub in ((), (a,)):
        e = shaped(0, sub, p, qs)
        for k, (shape, symmetry) in enumerate(TENSORS):
            n = times(shape) - len(symmetries(shape, symmetry))
            outer = (n,) if symmetries(shape, symmetry) else shape
            key = "%d, rank %d" % (k, len(sub))

            def make(e=e, shape=shape, symmetry=symmetry):
                return TensorElement(e, shape=shape, symmetry=symmetry)
            r["shape " + key] = (lambda make=make: about(make()), lambda outer=outer, sub=sub: (TRIANGLE, p, qs, outer + sub, times(outer + sub)))
            r["parts " + key] = (lambda make=make: listed(make()), lambda e=e, n=n: (tuple([e for _ in range(n)]), n))
            r["family " + key] = (lambda make=make: (make().family(), make().variant()), lambda e=e: (e.family(), e.variant()))
            r["symmetry " + key] = (lambda make=make: make().symmetry(), lambda shape=shape, symmetry=symmetry: symmetries(shape, symmetry))
            r["components " + key] = (lambda make=make: make()._sub_element_mapping, lambda shape=shape, symmetry=symmetry: blocks(shape, symmetry))
            r["flat components " + key] = (lambda make=make: list(make().flattened_sub_element_mapping()), lambda shape=shape, symmetry=symmetry: [blocks(shape, symmetry)[i] for i in rows(shape)])
            r["pullback " + key] = (lambda make=make: pulled(make()), lambda e=e, shape=shape, symmetry=symmetry: blocks(shape, symmetry) if symmetries(shape, symmetry) else None)
    for cell in (INTERVAL, TRIANGLE, TETRAHEDRON):
        e = shaped(0, (), p, qs, cell)
        d = cell.topological_dimension()
        r["default on " + cell.cellname()] = (lambda e=e: TensorElement(e).reference_value_shape, lambda d=d: (d, d))
    e = shaped(0, (), p, qs)
    for k, (shape, symmetry) in enumerate([((2, 3), True), ((2,), True), ((2, 2, 2), True), ((2, 2), {(0, 1): (2, 0)}), ((2, 2), {(0, 2): (1, 0)}), ((2, 2), {(0, -1): (1, 0)}),
                                           ((2, 2), {(0, 1): (-1, 0)}), ((2, 2), {(0, 1): (1,)}), ((2, 2), {(0,): (1, 0)}), ((2, 2), [((0, 1), (1, 0))]), ((2, 2), "yes"), ((2, 2), 1)]):
        r["refused %d" % k] = (lambda shape=shape, symmetry=symmetry: TensorElement(e, shape=shape, symmetry=symmetry), lambda: raises("ValueError"))
    return r


def pulled(t):
    return t.pullback.symmetry if t.symmetry() else None


def case_components(p: "int", qs: "str"):
    library()
    scalar, vector, matrix = shaped(0, (), p, qs), shaped(1, (2,), p, qs), shaped(2, (2, 3), p, qs)
    r = {}
    groups = [(scalar,), (scalar, vector), (vector, scalar), (matrix, scalar, vector), (vector, matrix)]
    for k, es in enumerate(groups):
        mixed = MixedElement(*es)
        sizes = [times(e.reference_value_shape) for e in es]
        owner = [(n, e, i) for n, e in enumerate(es) for i in rows(e.reference_value_shape)]
        for j in range(sum(sizes)):
            n, e, i = owner[j]
            r["%d: part of %d" % (k, j)] = (lambda mixed=mixed, j=j: mixed.extract_subelement_reference_component(j), lambda n=n, i=i: (n, i))
            r["%d: part of (%d,)" % (k, j)] = (lambda mixed=mixed, j=j: mixed.extract_subelement_reference_component((j,)), lambda n=n, i=i: (n, i))
            r["%d: element of %d" % (k, j)] = (lambda mixed=mixed, j=j: mixed.extract_reference_component(j), lambda e=e, i=i: (i, e))
        for j in (sum(sizes), sum(sizes) + 3, -1):
            r["%d: no component %d" % (k, j)] = (lambda mixed=mixed, j=j: mixed.extract_reference_component(j), lambda: raises("ValueError"))
        r["%d: too many indices" % k] = (lambda mixed=mixed: mixed.extract_reference_component((0, 0)), lambda: raises("ValueError"))
    inner = MixedElement(vector, scalar)
    outer = MixedElement(matrix, inner, scalar)
    owner = [(i, matrix) for i in rows((2, 3))] + [(i, vector) for i in rows((2,))] + [((), scalar), ((), scalar)]
    for j in range(len(owner)):
        r["nested %d" % j] = (lambda j=j: outer.extract_reference_component(j), lambda j=j: owner[j])
    v = VectorElement(scalar, dim=3)
    s = TensorElement(scalar, shape=(2, 2), symmetry=True)
    for j in range(3):
        r["vector %d" % j] = (lambda j=j: (v.extract_subelement_reference_component(j), v.extract_reference_component(j)), lambda j=j: ((j, ()), ((), scalar)))
        r["symmetric %d" % j] = (lambda j=j: (s.extract_subelement_reference_component(j), s.extract_reference_component(j)), lambda j=j: ((j, ()), ((), scalar)))
    for e in (vector, BrokenElement(vector)):
        for j in range(2):
            r["of itself %d, %s" % (j, type(e).__name__)] = (lambda e=e, j=j: (e.extract_subelement_reference_component(j), e.extract_reference_component(j)), lambda e=e, j=j: ((None, (j,)), ((j,), e)))
        for k, j in enumerate((2, (0, 0), ())):
            r["not its own %d, %s" % (k, type(e).__name__)] = (lambda e=e, j=j: e.extract_reference_component(j), lambda: raises("ValueError"))
    return r
