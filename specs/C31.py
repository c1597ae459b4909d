"""Embedded degrees of every symbolic element, from the embedded degrees of
its parts."""
from finat.ufl import (BrokenElement, EnrichedElement, FiniteElement, HCurlElement, HDivElement, MixedElement, NodalEnrichedElement, RestrictedElement,
                       TensorElement, TensorProductElement, VectorElement, WithMapping)
from symbolic import Known, Part, library

TRIANGLE = Known("triangle")


def degrees(name, make, low, high):
    return {
        name + ", lowest": (lambda: make().embedded_subdegree, low),
        name + ", highest": (lambda: make().embedded_superdegree, high),
    }


def parts(n, p, qs, cells=None):
    return [Part("part%d" % k, TRIANGLE, p, qs) for k in range(n)]


def case_sums(p: "int", qs: "str"):
    library()
    r = {}
    for n in (1, 2, 3):
        es = parts(n, p, qs)
        for name, cls in (("enriched", EnrichedElement), ("nodal enriched", NodalEnrichedElement), ("mixed", MixedElement)):
            r.update(degrees("%s of %d" % (name, n), lambda cls=cls, es=es: cls(*es), lambda es=es: min([e.embedded_subdegree for e in es]),
                             lambda es=es: max([e.embedded_superdegree for e in es])))
        r.update(degrees("product of %d" % n, lambda es=es: TensorProductElement(*es, cell=TRIANGLE), lambda es=es: min([e.embedded_subdegree for e in es]),
                         lambda es=es: sum([e.embedded_superdegree for e in es])))
    return r


def case_wrappers(p: "int", qs: "str", mapping: "str", dim: "int", m: "int", n: "int"):
    library()
    assert dim >= 1
    assert mapping != "symmetries"
    e, = parts(1, p, qs)

    def low():
        return e.embedded_subdegree

    def high():
        return e.embedded_superdegree
    r = {}
    for name, make in (("broken", lambda: BrokenElement(e)), ("restricted", lambda: RestrictedElement(e, "facet")), ("interior", lambda: RestrictedElement(e, "interior")),
                       ("H(div)", lambda: HDivElement(e)), ("H(curl)", lambda: HCurlElement(e)), ("with mapping", lambda: WithMapping(e, mapping)),
                       ("vector", lambda: VectorElement(e, dim=dim)), ("tensor", lambda: TensorElement(e, shape=(2, 3))),
                       ("symmetric tensor", lambda: TensorElement(e, shape=(2, 2), symmetry=True)), ("wrapped twice", lambda: HDivElement(BrokenElement(e)))):
        r.update(degrees(name, make, low, high))
    return r


def case_simple(p: "int", a: "int", b: "int"):
    library()
    assert p >= 2
    assert a >= 1
    assert b >= 1
    r = {}
    for family in ("Lagrange", "Discontinuous Lagrange", "Raviart-Thomas", "Brezzi-Douglas-Marini", "Nedelec 1st kind H(curl)", "Regge", "Bubble", "Kong-Mulder-Veldhuizen"):
        r.update(degrees(family, lambda family=family: FiniteElement(family, TRIANGLE, p), lambda: p, lambda: p))
    for family in ("Crouzeix-Raviart", "Johnson-Mercier", "Real"):
        k = 0 if family == "Real" else 1
        r.update(degrees(family, lambda family=family, k=k: FiniteElement(family, TRIANGLE, k), lambda k=k: k, lambda k=k: k))
    r.update(degrees("a degree in each direction", lambda: FiniteElement("Q", "quadrilateral", (a, b)), lambda: min(a, b), lambda: max(a, b)))
    for family in ("Guzman-Neilan 1st kind H1", "Guzman-Neilan 2nd kind H1", "Guzman-Neilan H1(div)", "Bernardi-Raugel"):
        for cell, dimension in (("triangle", 2), ("tetrahedron", 3)):
            r.update(degrees("%s on %s" % (family, cell), lambda family=family, cell=cell: FiniteElement(family, cell, p),
                             lambda dimension=dimension: min(p, dimension), lambda dimension=dimension: max(p, dimension)))
    for family in ("Guzman-Neilan Bubble", "Bernardi-Raugel Bubble"):
        for cell, dimension in (("triangle", 2), ("tetrahedron", 3)):
            r.update(degrees("%s on %s" % (family, cell), lambda family=family, cell=cell: FiniteElement(family, cell), lambda dimension=dimension: dimension,
                             lambda dimension=dimension: dimension))
    return r
