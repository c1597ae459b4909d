"""Pullback, mapping, Sobolev space, cellwise constancy and linearity of
symbolic elements from those of their parts."""
from ufl import pullback
from ufl.sobolevspace import L2, DirectionalSobolevSpace
from ufl.sobolevspace import HCurl as HCurlSpace
from ufl.sobolevspace import HDiv as HDivSpace
from finat.ufl import (BrokenElement, EnrichedElement, FiniteElement, HCurlElement, HDivElement, MixedElement, NodalEnrichedElement, RestrictedElement,
                       TensorElement, TensorProductElement, VectorElement, WithMapping)
from symbolic import Known, Part, Placed, library, spaces, whole

TRIANGLE, INTERVAL = Known("triangle"), Known("interval")
DOMAINS = ("interior", "facet", "face", "edge", "vertex", "reduced")


def pullbacks():
    return {"identity": pullback.identity_pullback, "L2 Piola": pullback.l2_piola, "covariant Piola": pullback.covariant_piola,
            "contravariant Piola": pullback.contravariant_piola, "double covariant Piola": pullback.double_covariant_piola,
            "double contravariant Piola": pullback.double_contravariant_piola, "covariant contravariant Piola": pullback.covariant_contravariant_piola,
            "custom": pullback.custom_pullback, "physical": pullback.physical_pullback}


def parts(n, p, qs):
    return [Part("part%d" % k, TRIANGLE, p, qs) for k in range(n)]


class Mapped(Part):
    """a symbolic element with a known mapping"""

    def __init__(self, how, p, qs):
        Part.__init__(self, "mapped", TRIANGLE, p, qs)
        self.how = how

    def mapping(self):
        return self.how


def case_pullbacks(p: "int", qs: "str", unknown: "str"):
    library()
    r = {}
    table = pullbacks()
    for how in table:
        r[how] = (lambda how=how: Mapped(how, p, qs).pullback, lambda how=how: table[how])
        r["with mapping " + how] = (lambda how=how: WithMapping(Part("part", TRIANGLE, p, qs), how).pullback, lambda how=how: table[how])
        r["broken, " + how] = (lambda how=how: BrokenElement(Mapped(how, p, qs)).pullback, lambda how=how: table[how])
        r["restricted, " + how] = (lambda how=how: RestrictedElement(Mapped(how, p, qs), "facet").pullback, lambda how=how: table[how])
        r["enriched, " + how] = (lambda how=how: EnrichedElement(Mapped(how, p, qs), Part("part", TRIANGLE, p, qs)).pullback, lambda how=how: table[how])
    for how in ("undefined", "symmetries", "Identity", "", "piola"):
        r["refused: " + how] = (lambda how=how: Mapped(how, p, qs).pullback, lambda: raises("ValueError"))
    for how in table:
        assert unknown != how
    r["refused: unknown"] = (lambda: Mapped(unknown, p, qs).pullback, lambda: raises("ValueError"))
    r["H(div)"] = (lambda: HDivElement(Part("part", TRIANGLE, p, qs)).pullback, lambda: table["contravariant Piola"])
    r["H(curl)"] = (lambda: HCurlElement(Part("part", TRIANGLE, p, qs)).pullback, lambda: table["covariant Piola"])
    r["products are mapped by one pullback"] = (lambda: TensorProductElement(Mapped("identity", p, qs), Mapped("L2 Piola", p, qs), cell=TRIANGLE).pullback,
                                                lambda: raises("ValueError"))
    return r


def same(values, what):
    """whether all are equal to what"""
    for x in values:
        if x != what:
            return False
    return True


def case_mapping(p: "int", qs: "str", how: "str", dim: "int"):
    library()
    assert dim >= 1
    assert how != "symmetries"
    r = {}
    for n in (1, 2, 3):
        es = parts(n, p, qs)
        of = tuple([e.mapping() for e in es])
        for name, cls in (("enriched", EnrichedElement), ("nodal enriched", NodalEnrichedElement)):
            r["%s of %d" % (name, n)] = (lambda cls=cls, es=es: cls(*es).mapping(), lambda of=of: of[0])
        r["mixed of %d" % n] = (lambda es=es: MixedElement(*es).mapping(), lambda of=of: "identity" if same(of, "identity") else "undefined")
        r["product of %d" % n] = (lambda es=es: TensorProductElement(*es, cell=TRIANGLE).mapping(),
                                  lambda of=of: "identity" if same(of, "identity") else "L2 Piola" if same(of, "L2 Piola") else "undefined")
    e, = parts(1, p, qs)
    r["broken"] = (lambda: BrokenElement(e).mapping(), lambda: e.mapping())
    for domain in DOMAINS:
        r["restricted to " + domain] = (lambda domain=domain: RestrictedElement(e, domain).mapping(), lambda: e.mapping())
    r["H(div)"] = (lambda: HDivElement(e).mapping(), lambda: "contravariant Piola")
    r["H(curl)"] = (lambda: HCurlElement(e).mapping(), lambda: "covariant Piola")
    r["with mapping"] = (lambda: WithMapping(e, how).mapping(), lambda: how)
    r["no mapping by symmetries"] = (lambda: WithMapping(e, "symmetries"), lambda: raises("ValueError"))
    r["vector"] = (lambda: VectorElement(e, dim=dim).mapping(), lambda: e.mapping())
    r["tensor"] = (lambda: TensorElement(e, shape=(2, 3)).mapping(), lambda: e.mapping())
    r["symmetric tensor"] = (lambda: TensorElement(e, shape=(2, 2), symmetry=True).mapping(), lambda: "symmetries")
    r["tensor with a symmetry"] = (lambda: TensorElement(e, shape=(2, 3), symmetry={(0, 1): (1, 2)}).mapping(), lambda: "symmetries")
    r["tensor without any"] = (lambda: TensorElement(e, shape=(2, 3), symmetry={}).mapping(), lambda: e.mapping())
    return r


def case_spaces(p: "int", qs: "str", how: "str", dim: "int"):
    library()
    assert dim >= 1
    assert how != "symmetries"
    e, = parts(1, p, qs)
    r = {}
    for name, make in (("broken", lambda: BrokenElement(e)), ("broken vector", lambda: BrokenElement(VectorElement(e, dim=dim))),
                       ("restricted to the interior", lambda: RestrictedElement(e, "interior")), ("broken H(div)", lambda: BrokenElement(HDivElement(e)))):
        r[name] = (lambda make=make: make().sobolev_space, lambda: L2)
    for domain in DOMAINS[1:]:
        r["restricted to " + domain] = (lambda domain=domain: RestrictedElement(e, domain).sobolev_space, lambda: e.sobolev_space)
    r["H(div)"] = (lambda: HDivElement(e).sobolev_space, lambda: HDivSpace)
    r["H(curl)"] = (lambda: HCurlElement(e).sobolev_space, lambda: HCurlSpace)
    r["with mapping"] = (lambda: WithMapping(e, how).sobolev_space, lambda: e.sobolev_space if how == e.mapping() else L2)
    r["vector"] = (lambda: VectorElement(e, dim=dim).sobolev_space, lambda: e.sobolev_space)
    r["tensor"] = (lambda: TensorElement(e, shape=(2, 3)).sobolev_space, lambda: e.sobolev_space)
    r["symmetric tensor"] = (lambda: TensorElement(e, shape=(2, 2), symmetry=True).sobolev_space, lambda: e.sobolev_space)
    return r


def smallest_shared(of):
    """the smallest of the spaces that contain every given one"""
    shared = [s for s in spaces_of(of[0]) if same([s in spaces_of(x) for x in of], True)]
    least, = [s for s in shared if same([t in spaces_of(s) for t in shared], True)]
    return least


def spaces_of(s):
    return (s,) + s.parents


def case_shared_space(p: "int", qs: "str"):
    library()
    known = spaces()
    r = {}
    for a in known:
        for b in known:
            for cls in (EnrichedElement, NodalEnrichedElement):
                r["%s of %s and %s" % (cls.__name__, a.name, b.name)] = (lambda cls=cls, a=a, b=b: cls(Placed("one", TRIANGLE, p, qs, a), Placed("two", TRIANGLE, p, qs, b)).sobolev_space,
                                                                     lambda a=a, b=b: smallest_shared((a, b)))
            if a in spaces_of(b) or b in spaces_of(a):
                r["mixed of %s and %s" % (a.name, b.name)] = (lambda a=a, b=b: MixedElement(Placed("one", TRIANGLE, p, qs, a), Placed("two", TRIANGLE, p, qs, b)).sobolev_space,
                                                          lambda a=a, b=b: a if a in spaces_of(b) else b)
    l2, hdiv, hcurl, h1, h2 = known
    for k, of in enumerate([(h1, hdiv, hcurl), (h1, h2, hdiv), (h2, h2, h1), (hdiv, h1, hdiv), (hcurl, h1, l2), (h1, h1, h1)]):
        es = [Placed("part%d" % j, TRIANGLE, p, qs, s) for j, s in enumerate(of)]
        r["three spaces %d" % k] = (lambda es=es: EnrichedElement(*es).sobolev_space, lambda of=of: smallest_shared(of))
    return r


def case_directional(p: "int", qs: "str"):
    library()
    r = {}
    cells = (INTERVAL, TRIANGLE, INTERVAL)
    for n in (1, 2, 3):
        es = [Part("part%d" % k, cells[k], p, qs) for k in range(n)]

        def spec(es=es):
            first = es[0].sobolev_space
            if same([e.sobolev_space for e in es], first):
                return first
            return DirectionalSobolevSpace([e.sobolev_space._order for e in es for _ in range(e.cell.topological_dimension())])
        r["product of %d" % n] = (lambda es=es: TensorProductElement(*es, cell=Known("hexahedron")).sobolev_space, spec)
    return r


def case_constancy(p: "int", qs: "str", degree: "int", dim: "int", how: "str"):
    library()
    assert dim >= 1
    assert degree >= 1
    assert how != "symmetries"
    r = {}
    for n in (1, 2, 3):
        es = parts(n, p, qs)
        r["enriched of %d" % n] = (lambda es=es: EnrichedElement(*es).is_cellwise_constant(), lambda es=es: same([e.is_cellwise_constant() for e in es], True))
        r["nodal enriched of %d" % n] = (lambda es=es: NodalEnrichedElement(*es).is_cellwise_constant(), lambda: False)
        r["a component of enriched of %d" % n] = (lambda es=es: EnrichedElement(*es).is_cellwise_constant(1), lambda es=es: same([e.is_cellwise_constant(1) for e in es], True))
        r["a component of nodal enriched of %d" % n] = (lambda es=es: NodalEnrichedElement(*es).is_cellwise_constant(1), lambda: False)
        r["mixed of %d" % n] = (lambda es=es: MixedElement(*es).is_cellwise_constant(), lambda es=es: same([e.is_cellwise_constant() for e in es], True))
        r["mixed of %d, linear" % n] = (lambda es=es: MixedElement(*es)._is_linear(), lambda es=es: same([e._is_linear() for e in es], True))
        r["enriched of %d, linear" % n] = (lambda es=es: EnrichedElement(*es)._is_linear(), lambda: False)
        r["product of %d, linear" % n] = (lambda es=es: TensorProductElement(*es, cell=TRIANGLE)._is_linear(), lambda: False)
    e, = parts(1, p, qs)
    r["restricted"] = (lambda: RestrictedElement(e, "facet").is_cellwise_constant(), lambda: e.is_cellwise_constant())
    r["a component of restricted"] = (lambda: RestrictedElement(e, "facet").is_cellwise_constant(1), lambda: e.is_cellwise_constant(1))
    r["restricted, linear"] = (lambda: RestrictedElement(e, "facet")._is_linear(), lambda: e._is_linear())
    r["broken"] = (lambda: BrokenElement(e).is_cellwise_constant(), lambda: p == 0)
    r["with mapping"] = (lambda: WithMapping(e, how).is_cellwise_constant(), lambda: p == 0)
    for name, make in (("vector", lambda: VectorElement(e, dim=dim)), ("tensor", lambda: TensorElement(e, shape=(2, 2))),
                       ("symmetric tensor", lambda: TensorElement(e, shape=(2, 2), symmetry=True))):
        r[name] = (lambda make=make: make().is_cellwise_constant(), lambda: e.is_cellwise_constant())
        r[name + ", linear"] = (lambda make=make: make()._is_linear(), lambda: e._is_linear())
    for family, constant, linear in (("Lagrange", False, degree == 1), ("Raviart-Thomas", False, False), ("Regge", False, False)):
        r[family] = (lambda family=family: FiniteElement(family, TRIANGLE, degree).is_cellwise_constant(), lambda constant=constant: constant)
        r[family + ", linear"] = (lambda family=family: FiniteElement(family, TRIANGLE, degree)._is_linear(), lambda linear=linear: linear)
    r["Discontinuous Lagrange"] = (lambda: FiniteElement("DG", TRIANGLE, degree).is_cellwise_constant(), lambda: False)
    r["piecewise constants"] = (lambda: FiniteElement("DG", TRIANGLE, 0).is_cellwise_constant(), lambda: True)
    r["piecewise constants, not linear"] = (lambda: FiniteElement("DG", TRIANGLE, 1)._is_linear(), lambda: False)
    r["Real"] = (lambda: FiniteElement("Real", TRIANGLE, 0).is_cellwise_constant(), lambda: True)
    r["Crouzeix-Raviart"] = (lambda: FiniteElement("CR", TRIANGLE, 1)._is_linear(), lambda: False)
    return r


def case_composite_pullback(p: "int", qs: "str", dim: "int"):
    library()
    assert dim >= 1
    e, f = parts(2, p, qs)
    m = MixedElement(e, f)
    i = Mapped("covariant Piola", p, qs)
    return {
        "mixed": (lambda: m.pullback, lambda: whole(m)),
        "vector": (lambda: VectorElement(i, dim=dim).pullback, lambda: pullback.covariant_piola),
        "tensor": (lambda: TensorElement(i, shape=(2, 2)).pullback, lambda: pullback.covariant_piola),
        "vector of mixed": (lambda: VectorElement(m, dim=dim).pullback, lambda: whole(m)),
    }
