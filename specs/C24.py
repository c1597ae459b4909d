"""Identity of symbolic elements: what tells them apart and what does not."""
from finat.ufl import (BrokenElement, EnrichedElement, FiniteElement, HCurlElement, HDivElement, MixedElement, NodalEnrichedElement, RestrictedElement,
                       TensorElement, TensorProductElement, VectorElement, WithMapping)
from symbolic import Known, Part, library

INTERVAL, TRIANGLE, TETRAHEDRON, QUADRILATERAL = Known("interval"), Known("triangle"), Known("tetrahedron"), Known("quadrilateral")


class Twin(Part):
    """an element with a representation of its own choice"""

    def __init__(self, name, text):
        Part.__init__(self, name, TRIANGLE, 1, None)
        self.text = text

    def __repr__(self):
        return self.text

    def variant(self):
        return sym("variant", "str")


class Triplet(Twin):
    """the same of another type"""


def compared(name, make, one, two, same):
    """made of one and of two: equal exactly if those are the same; ordered by representation; with equal representations the hash is equal"""
    return {
        name + ", equal": (lambda: make(one) == make(two), lambda: same),
        name + ", not equal": (lambda: make(one) != make(two), lambda: not same),
        name + ", representation": (lambda: repr(make(one)) == repr(make(two)), lambda: same),
        name + ", to itself": (lambda: (make(one) == make(one), make(one) != make(one), hash(make(one)) == hash(make(one)), make(one) < make(one)), lambda: (True, False, True, False)),
        name + ", in forms": (lambda: (make(one)._ufl_signature_data_() == make(two)._ufl_signature_data_(), make(one)._ufl_hash_data_() == make(two)._ufl_hash_data_()), lambda: (same, same)),
        name + ", order": (lambda: make(one) < make(two), lambda: repr(make(one)) < repr(make(two))),
    }


def wrappers(m, dim):
    return [("broken", lambda e: BrokenElement(e)), ("H(div)", lambda e: HDivElement(e)), ("H(curl)", lambda e: HCurlElement(e)), ("restricted", lambda e: RestrictedElement(e, "facet")),
            ("with mapping", lambda e: WithMapping(e, m)), ("vector", lambda e: VectorElement(e, dim=dim)), ("tensor", lambda e: TensorElement(e, shape=(2, 3))),
            ("symmetric", lambda e: TensorElement(e, shape=(2, 2), symmetry=True))]


def sums():
    return [("enriched", EnrichedElement), ("nodal enriched", NodalEnrichedElement), ("mixed", MixedElement), ("product", lambda *es: TensorProductElement(*es, cell=TRIANGLE))]


def case_parts(a: "str", b: "str", x: "str", y: "str", m: "str", dim: "int"):
    library()
    assert dim >= 1
    assert m != "symmetries"
    one, two, same = Twin("one", a), Twin("two", b), Twin("same", a)
    left, right = Twin("left", x), Twin("right", y)
    r = {}
    for name, make in wrappers(m, dim):
        r.update(compared(name, make, one, two, a == b))
        r.update({name + ", by representation": (lambda make=make: (make(one) == make(same), hash(make(one)) == hash(make(same)), make(one) < make(same)), lambda: (True, True, False))})
    for name, make in sums():
        r.update(compared("first of " + name, lambda e, make=make: make(e, right), one, two, a == b))
        r.update(compared("last of " + name, lambda e, make=make: make(left, e), one, two, a == b))
        r.update(compared("middle of " + name, lambda e, make=make: make(left, e, right), one, two, a == b))
        r.update(compared("only " + name, make, one, two, a == b))
        r.update({name + ", by representation": (lambda make=make: (make(one, left) == make(same, left), hash(make(one, left)) == hash(make(same, left))), lambda: (True, True))})
    r["by type"] = (lambda: (Twin("one", a) == Triplet("one", a), Twin("one", a) != Triplet("one", a), Twin("one", a) == a), lambda: (False, True, False))
    return r


def case_own_data(a: "str", m: "str", w: "str", dim: "int", n: "int"):
    library()
    assert dim >= 1
    assert n >= 1
    assert m != "symmetries"
    assert w != "symmetries"
    e = Twin("one", a)
    r = {}
    r.update(compared("mapping", lambda x: WithMapping(e, x), m, w, m == w))
    r.update(compared("dimension", lambda x: VectorElement(e, dim=x), dim, n, dim == n))
    domains = ("interior", "facet", "face", "edge", "vertex", "reduced")
    for k, one in enumerate(domains):
        for two in domains[k + 1:]:
            r["restricted to %s, %s" % (one, two)] = (lambda one=one, two=two: RestrictedElement(e, one) == RestrictedElement(e, two), lambda: False)
    cells = (INTERVAL, TRIANGLE, TETRAHEDRON, None)
    for k, one in enumerate(cells):
        for j, two in enumerate(cells[k + 1:]):
            r["product on %d, %d" % (k, j)] = (lambda one=one, two=two: TensorProductElement(e, e, cell=one) == TensorProductElement(e, e, cell=two), lambda: False)
    tensors = [((2, 2), None), ((2, 2), True), ((2, 3), None), ((3, 2), None), ((2, 2), {(0, 1): (1, 0)}), ((2, 2), {(1, 0): (0, 0)}), ((4,), None), ((2, 2, 1), None), ((2, 3), {(0, 1): (1, 0)}),
               ((2, 3), {(1, 0): (0, 1)}), ((3, 2), {(1, 0): (0, 1)})]
    for k, one in enumerate(tensors):
        for j, two in enumerate(tensors[k + 1:]):
            r["tensor %d, %d" % (k, j)] = (lambda one=one, two=two: TensorElement(e, shape=one[0], symmetry=one[1]) == TensorElement(e, shape=two[0], symmetry=two[1]), lambda: False)
    kinds = [f(e) for _, f in wrappers(m, dim)] + [f(e) for _, f in sums()] + [e]
    for k, one in enumerate(kinds):
        for j, two in enumerate(kinds):
            if k != j:
                r["kind %d, %d" % (k, j)] = (lambda one=one, two=two: (one == two, one != two, repr(one) == repr(two)), lambda: (False, True, False))
    f, g = Twin("first", "first"), Twin("second", "second")
    for name, make in sums():
        r["order in " + name] = (lambda make=make: make(f, g) == make(g, f), lambda: False)
        r["nesting in " + name] = (lambda make=make: make(f, make(f, f)) == make(make(f, f), f), lambda: False)
    r["number of parts"] = (lambda: (MixedElement(e, e) == MixedElement(e, e, e), EnrichedElement(e) == EnrichedElement(e, e), VectorElement(e, dim=2) == VectorElement(e, dim=3)),
                            lambda: (False, False, False))
    return r


def case_simple(p: "int", q: "int", qs: "str", q2: "str", v: "str", v2: "str"):
    library()
    assert p >= 1
    assert q >= 1
    r = {}

    def make(family="Lagrange", cell=TRIANGLE, degree=p, quad_scheme=qs, variant=v):
        return FiniteElement(family, cell, degree, quad_scheme=quad_scheme, variant=variant)
    r.update(compared("degree", lambda x: make(degree=x), p, q, p == q))
    r.update(compared("scheme", lambda x: make(quad_scheme=x), qs, q2, qs == q2))
    r.update(compared("variant", lambda x: make(variant=x), v, v2, v == v2))
    r.update(compared("scheme or none", lambda x: make(quad_scheme=x), qs, None, False))
    r.update(compared("variant or none", lambda x: make(variant=x), None, v, False))
    cells = (INTERVAL, TRIANGLE, TETRAHEDRON)
    for k, one in enumerate(cells):
        for j, two in enumerate(cells):
            if k != j:
                r["cell %d, %d" % (k, j)] = (lambda one=one, two=two: make(cell=one) == make(cell=two), lambda: False)
    families = ("Lagrange", "Discontinuous Lagrange", "Discontinuous Lagrange L2", "Raviart-Thomas", "Brezzi-Douglas-Marini", "Nedelec 1st kind H(curl)", "Regge")
    for k, one in enumerate(families):
        for j, two in enumerate(families):
            if k != j:
                r["family %d, %d" % (k, j)] = (lambda one=one, two=two: make(one) == make(two), lambda: False)
    r.update(compared("degree on a cell of its own", lambda x: FiniteElement("Q", QUADRILATERAL, x), p, q, p == q))
    r["degrees in each direction"] = (lambda: FiniteElement("Q", QUADRILATERAL, (1, 2)) == FiniteElement("Q", QUADRILATERAL, (2, 1)), lambda: False)
    for name, kw in (("vector", {"dim": 3}), ("tensor", {"shape": (2, 3)})):
        cls = VectorElement if name == "vector" else TensorElement
        r.update(compared(name + ", scheme", lambda x, cls=cls, kw=kw: cls("Lagrange", TRIANGLE, p, quad_scheme=x, variant=v, **kw), qs, q2, qs == q2))
        r.update(compared(name + ", variant or none", lambda x, cls=cls, kw=kw: cls("Lagrange", TRIANGLE, p, quad_scheme=qs, variant=x, **kw), v, None, False))
        r.update(compared(name + ", degree", lambda x, cls=cls, kw=kw: cls("Lagrange", TRIANGLE, x, quad_scheme=qs, variant=v, **kw), p, q, p == q))
    return r


def case_spelling(p: "int"):
    """variants, schemes and shapes that are easily taken for each other"""
    library()
    assert p >= 1
    names = (("integral(1)", "integral(2)"), ("1", "11"), ("Integral", "integral"), ("a b", "ab"), ("iso", "iso(2)"), ("None", "default"))
    make = {
        "variant": lambda x: FiniteElement("Lagrange", TRIANGLE, p, variant=x),
        "scheme": lambda x: FiniteElement("Lagrange", TRIANGLE, p, quad_scheme=x),
        "variant of vector": lambda x: VectorElement("Lagrange", TRIANGLE, p, dim=2, variant=x),
        "variant of tensor": lambda x: TensorElement("Lagrange", TRIANGLE, p, shape=(2, 2), variant=x),
        "scheme of tensor": lambda x: TensorElement("Lagrange", TRIANGLE, p, shape=(2, 2), quad_scheme=x),
    }
    r = {}
    for what, f in make.items():
        r[what] = (lambda f=f: [(x, y) for x, y in names if f(x) == f(y)], lambda: [])
        r[what + " or none"] = (lambda f=f: f("None") == f(None), lambda: False)
    t = lambda s: TensorElement("Lagrange", TRIANGLE, p, shape=s)
    shapes = (((2, 3), (3, 2)), ((4,), (2, 2)), ((1, 4), (4, 1)), ((1,), (12,)), ((12,), (1, 2)))
    r["shapes"] = (lambda: [(s, u) for s, u in shapes if t(s) == t(u)], lambda: [])
    w = lambda n: VectorElement("Lagrange", TRIANGLE, p, dim=n)
    r["dimensions"] = (lambda: [(m, n) for m, n in ((1, 2), (2, 12), (12, 21)) if w(m) == w(n)], lambda: [])
    r["vector and tensor"] = (lambda: w(2) == t((2,)), lambda: False)
    return r
