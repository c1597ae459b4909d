"""Restriction of every element kind over unknown parts: parts are restricted
with the same arguments, the kind, shape, ordering flag and wrapping are
preserved, emptiness is propagated and reported, and product elements are
restricted along all admissible decompositions of the codimension."""
import FIAT
from FIAT.reference_element import LINE

import finat
from finat.restricted import RestrictedElement, null_element, restrict
from finat.mixed import MixedElement, MixedSubElement
from finat.enriched import EnrichedElement
from finat.tensor_product import TensorProductElement
from finat.tensorfiniteelement import TensorFiniteElement
from finat.hdivcurl import HCurlElement, HDivElement
from finat.cube import FlattenedDimensions
from finat.discontinuous import DiscontinuousElement
from finat.fiat_elements import FiatElement
from finat.physically_mapped import PhysicallyMappedElement

opaque(restrict)


def case_entry(e: "Element", domain: "str", idx: "tuple[int]"):
    r = restrict(e, domain, True)
    return {
        "closure": (lambda: RestrictedElement(e, domain), lambda: raises("ValueError") if r is null_element else r),
        "by keyword": (lambda: RestrictedElement(e, restriction_domain=domain), lambda: raises("ValueError") if r is null_element else r),
        "indices": (lambda: RestrictedElement(e, domain, indices=idx), lambda: raises("NotImplementedError")),
    }


def case_flattened(e: "Element", domain: "str", closure: "bool"):
    r = restrict(e, domain, closure)
    return {"flattened": (lambda: unfold(restrict, FlattenedDimensions(e), domain, closure),
                          lambda: null_element if r is null_element else FlattenedDimensions(r))}


def case_tensor(e: "Element", shape: "tuple[int]", transpose: "bool", domain: "str", closure: "bool"):
    r = restrict(e, domain, closure)
    out = lambda: unfold(restrict, TensorFiniteElement(e, shape, transpose), domain, closure)
    return {
        "empty": (lambda: out() is null_element, lambda: r is null_element),
        "kind": (lambda: None if r is null_element else type(out()) is TensorFiniteElement, lambda: None if r is null_element else True),
        "base": (lambda: None if r is null_element else out().base_element, lambda: None if r is null_element else r),
        "whole": (out, lambda: null_element if r is null_element else TensorFiniteElement(r, shape, transpose)),
    }


def case_discontinuous(e: "Element", domain: "str", closure: "bool"):
    d = DiscontinuousElement(e)
    return {"discontinuous": (lambda: unfold(restrict, d, domain, closure), lambda: d if domain == "interior" else null_element)}


class DL(finat.DiscontinuousLagrange):
    def __init__(self):
        pass


class Leg(finat.Legendre):
    def __init__(self):
        pass


def case_discontinuous_families(domain: "str", closure: "bool"):
    d, l = DL(), Leg()
    return {
        "discontinuous Lagrange": (lambda: unfold(restrict, d, domain, closure), lambda: d if domain == "interior" else null_element),
        "Legendre": (lambda: unfold(restrict, l, domain, closure), lambda: l if domain == "interior" else null_element),
    }


class Trace(finat.HDivTrace):
    def __init__(self, element):
        self._element = element


class Mapped(PhysicallyMappedElement, FiatElement):
    def __init__(self, element):
        self._element = element


def refused_or(f):
    try:
        return FiatElement(f())
    except ValueError:
        return null_element


def case_fiat(f: "FiatElement", domain: "str", closure: "bool"):
    return {
        "fiat": (lambda: unfold(restrict, FiatElement(f), domain, closure),
                 lambda: refused_or(lambda: FIAT.RestrictedElement(f, restriction_domain=domain, take_closure=closure))),
        "trace": (lambda: unfold(restrict, Trace(f), domain, closure),
                  lambda: refused_or(lambda: FIAT.RestrictedElement(f, restriction_domain=domain))),
        "physically mapped": (lambda: unfold(restrict, Mapped(f), domain, closure), lambda: raises("NotImplementedError")),
        "physically mapped class": (lambda: unfold(restrict, finat.Hermite(sym("K", "Cell"), 3), domain, closure), lambda: raises("NotImplementedError")),
    }


class Unknown:
    pass


def case_unknown(domain: "str", closure: "bool", e: "Element", n: "int", o: "int"):
    assert o >= 0
    assert o <= n
    return {"unknown": (lambda: unfold(restrict, Unknown(), domain, closure), lambda: raises("NotImplementedError"))}


def case_enriched(es: "tuple[Element]*3", domain: "str", closure: "bool"):
    assert not isinstance(es[0], EnrichedElement) and not isinstance(es[1], EnrichedElement) and not isinstance(es[2], EnrichedElement)
    assert not isinstance(es[0], MixedSubElement) and not isinstance(es[1], MixedSubElement) and not isinstance(es[2], MixedSubElement)
    rs = [restrict(e, domain, closure) for e in es]
    assert not isinstance(rs[0], EnrichedElement) and not isinstance(rs[1], EnrichedElement) and not isinstance(rs[2], EnrichedElement)
    left = lambda: [r for r in rs if r is not null_element]
    return {"enriched": (lambda: unfold(restrict, EnrichedElement(es), domain, closure),
                         lambda: EnrichedElement(left()) if left() else null_element)}


def case_mixed(es: "tuple[Element]*2", domain: "str", closure: "bool"):
    """the parts are restricted before they are placed in their slots"""
    m = MixedElement(es)
    rs = [restrict(e, domain, closure) for e in es]
    left = lambda: [r for r in rs if r is not null_element]
    return {"mixed": (lambda: unfold(restrict, m, domain, closure), lambda: MixedElement(left()) if left() else null_element)}


def case_mixed_parts(es: "tuple[Element]*2", gs: "tuple[Element]*2", domain: "str", closure: "bool"):
    """the same for restrictions of known emptiness"""
    a, b = es
    g, h = gs
    assert not isinstance(a, EnrichedElement) and not isinstance(b, EnrichedElement)
    assert not isinstance(g, EnrichedElement) and not isinstance(h, EnrichedElement)
    assert g is not null_element and h is not null_element
    return {
        "both": (lambda: mixed_with(es, (g, h), domain, closure), lambda: MixedElement([g, h])),
        "first": (lambda: mixed_with(es, (g, null_element), domain, closure), lambda: MixedElement([g])),
        "second": (lambda: mixed_with(es, (null_element, h), domain, closure), lambda: MixedElement([h])),
        "none": (lambda: mixed_with(es, (null_element, null_element), domain, closure), lambda: null_element),
    }


def mixed_with(es, rs, domain, closure):
    for e, r in zip(es, rs):
        suppose(restrict, r, e, domain, closure)
    return unfold(restrict, MixedElement(es), domain, closure)


def case_mixture(e: "Element", f: "Element", g: "Element", domain: "str", closure: "bool"):
    assert not isinstance(f, MixedSubElement)
    assert not isinstance(f, EnrichedElement)
    assert e.value_shape == (3,)
    s = MixedSubElement(e, 7, 2)
    return {
        "mixture": (lambda: mixture(s, [s, f], (e, f, s), g, domain, closure), lambda: raises("NotImplementedError")),
        "mixture, slot last": (lambda: mixture(s, [f, s], (e, f, s), g, domain, closure), lambda: raises("NotImplementedError")),
        "slot": (lambda: unfold(restrict, s, domain, closure), lambda: raises("AssertionError")),
    }


def mixture(s, parts, all_parts, g, domain, closure):
    for p in all_parts:
        suppose(restrict, g, p, domain, closure)
    return unfold(restrict, EnrichedElement(parts), domain, closure)


class Product(TensorProductElement):
    """a product form with the given degrees of freedom, left unopened"""

    def __init__(self, a, b):
        self.factors = (a, b)


class Factor:
    """a factor of a given form degree on an interval"""
    value_shape = ()
    mapping = "affine"

    def __init__(self, k, cell):
        self.formdegree = k
        self.cell = cell


def case_wrapped(cells: "tuple[Cell]*2", domain: "str", closure: "bool"):
    assert cells[0].get_spatial_dimension() == 1 and cells[1].get_spatial_dimension() == 1
    assert cells[0].get_shape() == LINE and cells[1].get_shape() == LINE
    a, b = Factor(0, cells[0]), Factor(1, cells[1])
    w, v = Product(a, b), Product(b, a)
    u, t = Product(a, b), Product(b, a)
    w._value_shape = v._value_shape = u._value_shape = t._value_shape = ()
    d, c = HDivElement(w), HCurlElement(w)
    wrap = {"hdiv": HDivElement, "hcurl": HCurlElement}
    out = {}
    for name, e in [("hdiv", d), ("hcurl", c)]:
        for kind, r, spec in [
                ("empty", null_element, null_element),
                ("one part", u, wrap[name](u)),
                ("two parts", EnrichedElement([u, t]), EnrichedElement([wrap[name](u), wrap[name](t)]))]:
            out[name + ", " + kind] = (lambda e=e, r=r: restricted_as(w, r, e, domain, closure), lambda spec=spec: spec)
    return out


def restricted_as(w, r, e, domain, closure):
    suppose(restrict, r, w, domain, closure)
    return unfold(restrict, e, domain, closure)


def test_product(fs, dims, total, domain, closure, decompositions):
    w = TensorProductElement(fs)
    names = {0: "interior"}
    parts = []
    for ks in decompositions:
        parts.append([restrict(f, k, False) for f, k in zip(fs, ks)])
    left = lambda: [TensorProductElement(p) for p in parts if all(f is not null_element for f in p)]
    return (lambda: unfold(restrict, w, domain, closure), lambda: EnrichedElement(left()) if left() else null_element)


def case_square(fs: "tuple[Element]*2"):
    assert fs[0].value_shape == () and fs[1].value_shape == ()
    assert fs[0].cell.get_dimension() == 1 and fs[1].cell.get_dimension() == 1
    for f in fs:
        for k in ("interior", "facet"):
            assert restrict(f, k, False).value_shape == ()
    assert fs[0].cell.get_spatial_dimension() == 1 and fs[1].cell.get_spatial_dimension() == 1
    w = TensorProductElement(fs)
    i, v = "interior", "facet"
    go = lambda d, c, ks: test_product(fs, (1, 1), 2, d, c, ks)
    return {
        "interior": go("interior", False, [(i, i)]),
        "interior, closure": go("interior", True, [(i, i)]),
        "facet": go("facet", False, [(v, i), (i, v)]),
        "facet, closure": go("facet", True, [(v, i), (i, v), (v, v)]),
        "edge": go("edge", False, [(v, i), (i, v)]),
        "vertex": go("vertex", False, [(v, v)]),
        "vertex, closure": go("vertex", True, [(v, v)]),
        "unknown": (lambda: unfold(restrict, w, "reduced", True), lambda: raises("ValueError")),
    }


def case_prism(fs: "tuple[Element]*2"):
    """a two-dimensional base times an interval"""
    assert fs[0].value_shape == () and fs[1].value_shape == ()
    assert fs[0].cell.get_dimension() == 2 and fs[1].cell.get_dimension() == 1
    assert fs[0].cell.get_spatial_dimension() == 2 and fs[1].cell.get_spatial_dimension() == 1
    for k in ("interior", "facet", "vertex"):
        assert restrict(fs[0], k, False).value_shape == ()
        assert restrict(fs[1], k, False).value_shape == ()
    i, f, v = "interior", "facet", "vertex"
    go = lambda d, c, ks: test_product(fs, (2, 1), 3, d, c, ks)
    return {
        "interior": go("interior", True, [(i, i)]),
        "facet": go("facet", False, [(f, i), (i, f)]),
        "face": go("face", False, [(f, i), (i, f)]),
        "edge": go("edge", False, [(v, i), (f, f)]),
        "edge, closure": go("edge", True, [(v, i), (f, f), (v, f)]),
        "vertex": go("vertex", True, [(v, f)]),
        "facet, closure": go("facet", True, [(f, i), (i, f), (v, i), (f, f), (v, f)]),
    }


def case_cube(fs: "tuple[Element]*3"):
    assert fs[0].value_shape == () and fs[1].value_shape == () and fs[2].value_shape == ()
    for f in fs:
        assert f.cell.get_dimension() == 1
        assert f.cell.get_spatial_dimension() == 1
        for k in ("interior", "facet"):
            assert restrict(f, k, False).value_shape == ()
    i, v = "interior", "facet"
    go = lambda d, c, ks: test_product(fs, (1, 1, 1), 3, d, c, ks)
    return {
        "interior": go("interior", True, [(i, i, i)]),
        "facet": go("facet", False, [(v, i, i), (i, v, i), (i, i, v)]),
        "edge": go("edge", False, [(v, v, i), (v, i, v), (i, v, v)]),
        "vertex": go("vertex", True, [(v, v, v)]),
    }


def case_brick(fs: "tuple[Element]*2"):
    """a three-dimensional base times an interval: every codimension has its own name"""
    assert fs[0].value_shape == () and fs[1].value_shape == ()
    assert fs[0].cell.get_dimension() == 3 and fs[1].cell.get_dimension() == 1
    assert fs[0].cell.get_spatial_dimension() == 3 and fs[1].cell.get_spatial_dimension() == 1
    for k in ("interior", "facet", "edge", "vertex"):
        assert restrict(fs[0], k, False).value_shape == ()
        assert restrict(fs[1], k, False).value_shape == ()
    i, f, e, v = "interior", "facet", "edge", "vertex"
    go = lambda d, c, ks: test_product(fs, (3, 1), 4, d, c, ks)
    return {
        "facet": go("facet", False, [(f, i), (i, f)]),
        "face": go("face", False, [(e, i), (f, f)]),
        "edge": go("edge", False, [(v, i), (e, f)]),
        "vertex": go("vertex", True, [(v, f)]),
    }


def case_base(fs: "tuple[Element]*2"):
    """a four-dimensional base: the two-dimensional sub-entities are faces"""
    assert fs[0].value_shape == () and fs[1].value_shape == ()
    assert fs[0].cell.get_dimension() == 4 and fs[1].cell.get_dimension() == 1
    assert fs[0].cell.get_spatial_dimension() == 4 and fs[1].cell.get_spatial_dimension() == 1
    for k in ("interior", "facet", "face", "edge", "vertex"):
        assert restrict(fs[0], k, False).value_shape == ()
        assert restrict(fs[1], k, False).value_shape == ()
    go = lambda d, c, ks: test_product(fs, (4, 1), 5, d, c, ks)
    return {
        "face": go("face", False, [("edge", "interior"), ("face", "facet")]),
        "facet": go("facet", False, [("facet", "interior"), ("interior", "facet")]),
    }


def parts_of(w, fs, names, empty=()):
    """the restrictions of each factor by name, some of them empty"""
    table = []
    for n, f in enumerate(fs):
        parts = {}
        for k in names[n]:
            if (n, k) in empty:
                p = null_element
            else:
                p = sym("part " + str(n) + " " + k, "Element")
                assert p.value_shape == ()
                assert p is not null_element
            suppose(restrict, p, f, k, False)
            parts[k] = p
        table.append(parts)
    return table


def sum_of(table, empty, decompositions):
    left = []
    for ks in decompositions:
        if not any((n, k) in empty for n, k in enumerate(ks)):
            left.append(TensorProductElement([parts[k] for parts, k in zip(table, ks)]))
    return EnrichedElement(left) if left else null_element


def named(fs, dims, tables, empty=()):
    """restriction of a product whose factors' restrictions are known things"""
    for f, d in zip(fs, dims):
        assert f.value_shape == () and f.cell.get_dimension() == d and f.cell.get_spatial_dimension() == d
    w = TensorProductElement(fs)
    names = [{0: [], 1: ["interior", "facet"], 2: ["interior", "facet", "vertex"], 3: ["interior", "facet", "edge", "vertex"],
              4: ["interior", "facet", "face", "edge", "vertex"]}[d] for d in dims]
    table = parts_of(w, fs, names, empty)
    def obligation(domain, closure, decompositions):
        return (lambda: unfold(restrict, w, domain, closure), lambda: sum_of(table, empty, decompositions))
    return {key: obligation(domain, closure, decompositions) for key, domain, closure, decompositions in tables}


I, F, E, V = "interior", "facet", "edge", "vertex"
PRISM = [("interior", "interior", True, [(I, I)]),
         ("facet", "facet", False, [(F, I), (I, F)]),
         ("face", "face", False, [(F, I), (I, F)]),
         ("edge", "edge", False, [(V, I), (F, F)]),
         ("edge, closure", "edge", True, [(V, I), (F, F), (V, F)]),
         ("facet, closure", "facet", True, [(F, I), (I, F), (V, I), (F, F), (V, F)]),
         ("face, closure", "face", True, [(F, I), (I, F), (V, I), (F, F), (V, F)]),
         ("vertex", "vertex", True, [(V, F)])]
BRICK = [("interior", "interior", True, [(I, I)]),
         ("facet", "facet", False, [(F, I), (I, F)]),
         ("face", "face", False, [(E, I), (F, F)]),
         ("edge", "edge", False, [(V, I), (E, F)]),
         ("edge, closure", "edge", True, [(V, I), (E, F), (V, F)]),
         ("face, closure", "face", True, [(E, I), (F, F), (V, I), (E, F), (V, F)]),
         ("vertex", "vertex", True, [(V, F)])]


def case_prism_parts(a: "Element", b: "Element"):
    return named((a, b), (2, 1), PRISM)


def case_prism_vertexless(a: "Element", b: "Element"):
    return named((a, b), (2, 1), PRISM, ((0, V), (1, F)))


def case_prism_edgeless(a: "Element", b: "Element"):
    return named((a, b), (2, 1), PRISM, ((0, F), (1, I)))


def case_brick_parts(a: "Element", b: "Element"):
    return named((a, b), (3, 1), BRICK)


def case_brick_edgeless(a: "Element", b: "Element"):
    return named((a, b), (3, 1), BRICK, ((0, E), (0, I)))


def case_cube_parts(a: "Element", b: "Element", d: "Element"):
    return named((a, b, d), (1, 1, 1), [
        ("interior", "interior", True, [(I, I, I)]),
        ("facet", "facet", False, [(F, I, I), (I, F, I), (I, I, F)]),
        ("edge", "edge", False, [(F, F, I), (F, I, F), (I, F, F)]),
        ("edge, closure", "edge", True, [(F, F, I), (F, I, F), (I, F, F), (F, F, F)]),
        ("vertex", "vertex", True, [(F, F, F)])])
