"""Reconstructing symbolic elements with some data replaced, and the data that
copies are made of."""
from finat.ufl import (BrokenElement, EnrichedElement, FiniteElement, HCurlElement, HDivElement, MixedElement, NodalEnrichedElement, RestrictedElement,
                       TensorElement, TensorProductElement, VectorElement, WithMapping)
from symbolic import Known, Part, Product, library, seen

INTERVAL, TRIANGLE, TETRAHEDRON, QUADRILATERAL, HEXAHEDRON = [Known(c) for c in ("interval", "triangle", "tetrahedron", "quadrilateral", "hexahedron")]
DOMAINS = ("interior", "facet", "face", "edge", "vertex", "reduced")


def replacements(q, s, v, f):
    return [{}, {"degree": q}, {"cell": INTERVAL}, {"quad_scheme": s}, {"variant": v}, {"family": f}, {"degree": q, "variant": v}, {"cell": INTERVAL, "degree": q, "quad_scheme": s, "variant": v}]


def case_wrappers(p: "int", qs: "str", a: "int", q: "int", s: "str", v: "str", f: "str", m: "str", w: "str", dim: "int"):
    library()
    assert dim >= 1
    assert m != "symmetries"
    assert w != "symmetries"
    r = {}
    wrappers = [("broken", lambda e: BrokenElement(e)), ("H(div)", lambda e: HDivElement(e)), ("H(curl)", lambda e: HCurlElement(e)), ("with mapping", lambda e: WithMapping(e, m)),
                ("vector", lambda e: VectorElement(e, dim=dim)), ("tensor", lambda e: TensorElement(e, shape=(2, 3))),
                ("symmetric", lambda e: TensorElement(e, shape=(2, 2), symmetry=True)), ("partly symmetric", lambda e: TensorElement(e, shape=(2, 3), symmetry={(0, 1): (1, 2)})),
                ("nested", lambda e: VectorElement(RestrictedElement(HDivElement(e), "edge"), dim=dim))]
    wrappers += [("restricted to " + domain, lambda e, domain=domain: RestrictedElement(e, domain)) for domain in DOMAINS]
    for rank, shape in enumerate([(), (a,)]):
        e = Part("part", TRIANGLE, p, qs, shape)
        for k, kw in enumerate(replacements(q, s, v, f)):
            for name, make in wrappers:
                r["%s, rank %d, %d" % (name, rank, k)] = (lambda make=make, e=e, kw=kw: make(e).reconstruct(**kw), lambda make=make, e=e, kw=kw: make(e.reconstruct(**kw)))
            r["another mapping, rank %d, %d" % (rank, k)] = (lambda e=e, kw=kw: WithMapping(e, m).reconstruct(mapping=w, **kw), lambda e=e, kw=kw: WithMapping(e.reconstruct(**kw), w))
    return r


def case_sums(p: "int", qs: "str", q: "int", s: "str", v: "str", f: "str"):
    library()
    r = {}
    es = [Part("part%d" % k, TRIANGLE, p, qs) for k in range(3)]
    for k, kw in enumerate(replacements(q, s, v, f)):
        for n in (1, 2, 3):
            for name, make in (("enriched", EnrichedElement), ("nodal enriched", NodalEnrichedElement), ("mixed", MixedElement), ("mixed in mixed", lambda *of: MixedElement(of[0], MixedElement(*of)))):
                r["%s of %d, %d" % (name, n, k)] = (lambda make=make, n=n, kw=kw: make(*es[:n]).reconstruct(**kw), lambda make=make, n=n, kw=kw: make(*[e.reconstruct(**kw) for e in es[:n]]))
            # a product takes the cell for itself
            others = {key: kw[key] for key in kw if key != "cell"}
            for name, cell in (("given", HEXAHEDRON), ("product", Product(TRIANGLE, INTERVAL))):
                r["%s cell, product of %d, %d" % (name, n, k)] = (lambda n=n, kw=kw, cell=cell: TensorProductElement(*es[:n], cell=cell).reconstruct(**kw),
                                                                  lambda n=n, kw=kw, cell=cell, others=others: TensorProductElement(*[e.reconstruct(**others) for e in es[:n]],
                                                                                                                                     cell=kw["cell"] if "cell" in kw else cell))
    return r


def simple(family, cell, degree, qs, variant):
    return FiniteElement(family, cell, degree, quad_scheme=qs, variant=variant)


def simplest(family):
    return 3 if family == "Bubble" else 2


def case_simple(p: "int", qs: "str", v: "str", q: "int", s: "str", w: "str"):
    library()
    assert p >= 3
    assert q >= 3
    r = {}
    for family in ("Lagrange", "Discontinuous Lagrange L2", "Raviart-Thomas", "Nedelec 1st kind H(curl)", "Regge", "Bubble"):
        for given, qs0, v0 in (("", qs, v), (", nothing given", None, None)):
            e = simple(family, TRIANGLE, p, qs0, v0)
            for key, kw, want in (("the same", {}, (family, TRIANGLE, p, qs0, v0)), ("degree", {"degree": q}, (family, TRIANGLE, q, qs0, v0)),
                                  ("cell", {"cell": TETRAHEDRON}, (family, TETRAHEDRON, p, qs0, v0)),
                                  ("family", {"family": "Discontinuous Lagrange"}, ("Discontinuous Lagrange", TRIANGLE, p, qs0, v0)),
                                  ("scheme", {"quad_scheme": s}, (family, TRIANGLE, p, s, v0)), ("variant", {"variant": w}, (family, TRIANGLE, p, qs0, w)),
                                  ("variant and degree", {"variant": w, "degree": q}, (family, TRIANGLE, q, qs0, w)),
                                  ("all", {"family": "Discontinuous Lagrange", "cell": TETRAHEDRON, "degree": q, "quad_scheme": s, "variant": w}, ("Discontinuous Lagrange", TETRAHEDRON, q, s, w))):
                r["%s%s, %s" % (family, given, key)] = (lambda e=e, kw=kw: seen(e.reconstruct(**kw)), lambda want=want: seen(simple(*want)))
    return r


def case_no_degree(qs: "str", v: "str", s: "str"):
    library()
    r = {}
    for family, cell, degree in (("Crouzeix-Raviart", TRIANGLE, 1), ("Real", TRIANGLE, 0), ("Bernardi-Raugel Bubble", TRIANGLE, None), ("Morley", TRIANGLE, 2), ("Q", QUADRILATERAL, (1, 2)), ("DQ", HEXAHEDRON, 2),
                                 ("Discontinuous Lagrange", TRIANGLE, 0)):
        e = simple(family, cell, degree, qs, v)
        r[family] = (lambda e=e: seen(e.reconstruct()), lambda e=e: seen(e))
        r[family + ", scheme"] = (lambda e=e: seen(e.reconstruct(quad_scheme=s)), lambda family=family, cell=cell, degree=degree: seen(simple(family, cell, degree, s, v)))
    return r


def case_copies(p: "int", qs: "str", v: "str"):
    library()
    assert p >= 3
    r = {}
    made = [(family, cell) for cell in (INTERVAL, TRIANGLE, TETRAHEDRON) for family in ("Lagrange", "Discontinuous Lagrange", "Discontinuous Lagrange L2", "Bubble")]
    made += [(family, TRIANGLE) for family in ("Raviart-Thomas", "Brezzi-Douglas-Marini", "Nedelec 1st kind H(curl)", "Nedelec 2nd kind H(curl)", "Regge", "Hellan-Herrmann-Johnson")]
    made += [(family, QUADRILATERAL) for family in ("Q", "DQ", "DQ L2", "RTCF", "RTCE", "S", "DPC")]
    for family, cell in made:
        for key, qs0, v0 in (("", qs, v), (", nothing given", None, None)):
            e = simple(family, cell, p, qs0, v0)
            r["arguments of %s on %s%s" % (family, cell.cellname(), key)] = (lambda e=e: seen(FiniteElement(*e.__getnewargs__())), lambda e=e: seen(e))
            r["new %s on %s%s" % (family, cell.cellname(), key)] = (lambda e=e: type(FiniteElement.__new__(FiniteElement, *e.__getnewargs__())), lambda: FiniteElement)
    return r


def case_unfinished():
    library()
    r = {}
    for name in ("wrapee", "__setstate__", "__deepcopy__", "_family", "anything"):
        r["bare " + name] = (lambda name=name: getattr(WithMapping.__new__(WithMapping), name), lambda: raises("AttributeError"))
    e = Part("part", TRIANGLE, 1, None)
    r["forwarded"] = (lambda: WithMapping(e, "identity").changes, lambda: ())
    r["not there"] = (lambda: WithMapping(e, "identity").colour, lambda: raises("AttributeError"))
    return r


def case_lowest(p: "int", qs: "str", v: "str"):
    library()
    assert p >= 1
    r = {}
    for family, cell in (("Discontinuous Lagrange", TRIANGLE), ("Discontinuous Lagrange L2", INTERVAL), ("DQ", QUADRILATERAL), ("DQ L2", HEXAHEDRON)):
        for key, qs0, v0 in (("", qs, v), (", nothing given", None, None)):
            e = simple(family, cell, p, qs0, v0)
            r["%s%s" % (family, key)] = (lambda e=e: seen(e.reconstruct(degree=0)), lambda family=family, cell=cell, qs0=qs0, v0=v0: seen(simple(family, cell, 0, qs0, v0)))
            for name, make in (("vector", lambda e: VectorElement(e, dim=2)), ("broken", BrokenElement), ("enriched", lambda e: EnrichedElement(e, e)), ("mixed", lambda e: MixedElement(e, e))):
                r["%s%s, %s" % (family, key, name)] = (lambda e=e, make=make: make(e).reconstruct(degree=0) == make(e.reconstruct(degree=0)), lambda: True)
                r["%s%s, %s, representation" % (family, key, name)] = (lambda e=e, make=make: repr(make(e).reconstruct(degree=0)),
                                                                       lambda make=make, family=family, cell=cell, qs0=qs0, v0=v0: repr(make(simple(family, cell, 0, qs0, v0))))
    return r
