"""Two objects that share parts are asked everything, one after the other: each answer is the one it would have been had nothing else been
asked, of this object, of its parts or of any other."""
import gem
import numpy
from FIAT.quadrature_schemes import create_quadrature as fiat_scheme
from FIAT.reference_element import LINE, QUADRILATERAL, TENSORPRODUCT

import finat
import finat.ufl as symbolic_elements
from finat.fiat_elements import FiatElement
from finat.finiteelementbase import FiniteElementBase
from finat.physically_mapped import PhysicallyMappedElement
from geometry import Geometry, Tetrahedron, Triangle, matrix, vector
from layouts import bind_all
from symbolic import Known, Part, library, seen
from finat.point_set import PointSet, PointSingleton, TensorPointSet, UnknownPointSet
from finat.quadrature import QuadratureRule, TensorProductQuadratureRule, make_quadrature

DATA = ("cell", "complex", "degree", "formdegree", "index_shape", "value_shape", "mapping", "entity_permutations")
CALLS = ("space_dimension", "entity_dofs", "entity_closure_dofs")


def attempt(f):
    try:
        return f()
    except Exception:
        return "refused"


def element_queries(order, ps, qs, pt, ent, other):
    r = {}
    for name in DATA:
        r[name] = lambda e, name=name: getattr(e, name)
    for name in CALLS:
        r[name] = lambda e, name=name: getattr(e, name)()
    r["basis_evaluation"] = lambda e: e.basis_evaluation(order, ps, ent)
    r["basis_evaluation, other points"] = lambda e: e.basis_evaluation(order, qs, ent)
    r["basis_evaluation, other entity"] = lambda e: e.basis_evaluation(order, ps, other)
    r["basis_evaluation, other order"] = lambda e: e.basis_evaluation(order + 1, ps, ent)
    r["point_evaluation"] = lambda e: e.point_evaluation(order, pt, ent)
    r["dual_basis"] = lambda e: e.dual_basis
    return r


def data(queries):
    return {n: queries[n] for n in ("cell", "degree", "formdegree", "index_shape", "value_shape", "mapping", "dual_basis")}


def sums(queries):
    return {n: queries[n] for n in ("index_shape", "value_shape", "mapping", "entity_dofs", "basis_evaluation", "basis_evaluation, other points")}


def history(queries, makers):
    """makers: functions that make the objects (anew at each call)"""
    objects = [m() for m in makers]
    for e in objects:
        for p in queries.values():
            attempt(lambda: p(e))

    def put(q, n):
        return (lambda: queries[q](objects[n]), lambda: fresh(lambda: queries[q](makers[n]())))
    return {"%s of %d" % (q, n): put(q, n) for q in queries for n in range(len(makers))}


def case_tensor(e: "Element", order: "int", ps: "PointSet", qs: "PointSet", pt: "gem", ent, other):
    return history(element_queries(order, ps, qs, pt, ent, other),
                   [lambda: finat.TensorFiniteElement(e, (2,)), lambda: finat.TensorFiniteElement(e, (3,), transpose=True), lambda: e])


def case_wrappers(e: "Element", f: "Element", order: "int", ps: "PointSet", qs: "PointSet", pt: "gem", ent, other):
    """two of each kind over the same part, and one over another"""
    queries = element_queries(order, ps, qs, pt, ent, other)
    r = {}
    for name, make in [("discontinuous", finat.DiscontinuousElement), ("tensor", lambda x: finat.TensorFiniteElement(x, (2,))), ("vector of vectors", lambda x: finat.TensorFiniteElement(finat.TensorFiniteElement(x, (2,)), (3,)))]:
        for k, v in history(queries, [lambda make=make: make(e), lambda make=make: make(f), lambda make=make: make(e), lambda: e]).items():
            r[name + ", " + k] = v
    return r


def case_flattened(e: "Element", f: "Element", order: "int", ps: "PointSet", qs: "PointSet", pt: "gem"):
    assert e.cell.get_shape() == TENSORPRODUCT and f.cell.get_shape() == TENSORPRODUCT
    assert e.cell.get_spatial_dimension() == 2 and f.cell.get_spatial_dimension() == 2
    queries = element_queries(order, ps, qs, pt, (2, 0), None)
    return history(queries, [lambda: finat.cube.FlattenedDimensions(e), lambda: finat.cube.FlattenedDimensions(f), lambda: e])


def case_enriched(e: "Element", f: "Element", g: "Element", order: "int", ps: "PointSet", qs: "PointSet", pt: "gem", ent, other):
    for x in (f, g):
        assert x.cell == e.cell
        assert x.value_shape == e.value_shape
        assert x.mapping == e.mapping
    return history(sums(element_queries(order, ps, qs, pt, ent, other)),
                   [lambda: finat.EnrichedElement([e, f]), lambda: finat.EnrichedElement([f, g]), lambda: e])


def case_mixed(e: "Element", f: "Element", g: "Element", order: "int", ps: "PointSet", qs: "PointSet", pt: "gem", ent, other):
    for x in (f, g):
        assert x.cell == e.cell
        assert x.value_shape == ()
        assert x.index_shape == (sym("n", "int"),)
    assert e.value_shape == (2,)
    assert e.index_shape == (3,)
    return history(sums(element_queries(order, ps, qs, pt, ent, other)),
                   [lambda: finat.MixedElement([e, f]), lambda: finat.MixedElement([f, g]), lambda: e])


def case_product(e: "Element", f: "Element", g: "Element", order: "int", ps: "PointSet", qs: "PointSet", pt: "gem", dims: "tuple[int]*2", k: "int", l: "int"):
    for x in (e, f, g):
        assert x.value_shape == ()
    queries = {n: q for n, q in element_queries(0, ps, qs, pt, (dims, k), (dims, l)).items() if n in ("degree", "index_shape", "value_shape", "mapping", "entity_dofs", "dual_basis")}
    return history(queries, [lambda: finat.TensorProductElement([e, f]), lambda: finat.TensorProductElement([f, e]), lambda: finat.TensorProductElement([e, g]), lambda: e])


def case_hdiv(a: "Element", b: "Element", order: "int", ps: "PointSet", qs: "PointSet", pt: "gem", ent, other):
    opaque(finat.TensorProductElement.basis_evaluation, "dict[tuple[int],gem]")
    opaque(finat.TensorProductElement.point_evaluation, "dict[tuple[int],gem]")
    opaque(finat.TensorProductElement.dual_basis)
    for x in (a, b):
        assert x.value_shape == ()
        assert x.cell.get_spatial_dimension() == 1
        assert x.cell.get_shape() == LINE
        assert x.mapping == "affine"
    assert a.formdegree == 0 and b.formdegree == 1
    return history(data(element_queries(order, ps, qs, pt, ent, other)),
                   [lambda: finat.HDivElement(finat.TensorProductElement([a, b])), lambda: finat.HCurlElement(finat.TensorProductElement([b, a])), lambda: a])


def case_restricted(e: "Element", f: "Element", domain: "str", another: "str", closure: "bool"):
    made = {"restricted": lambda x: finat.RestrictedElement(x, domain, closure), "elsewhere": lambda x: finat.RestrictedElement(x, another, closure)}
    kinds = [lambda: e, lambda: f, lambda: finat.DiscontinuousElement(e), lambda: finat.TensorFiniteElement(e, (2,)), lambda: finat.TensorFiniteElement(f, (2,))]
    return history({name: lambda x, make=make: answers_of(make(x)) for name, make in made.items()}, kinds)


def answers_of(e):
    return (e.cell, e.degree, e.index_shape, e.value_shape, e.entity_dofs())


def case_fiat(cell: "Cell", degree: "int", q: "int", order: "int", ps: "PointSet", qs: "PointSet", ent, other):
    """two degrees of the same family, and another family of the same degree"""
    queries = {n: x for n, x in element_queries(order, ps, qs, None, ent, other).items() if n not in ("point_evaluation", "dual_basis", "basis_evaluation, other order")}
    return history(queries, [lambda: finat.Lagrange(cell, degree), lambda: finat.Lagrange(cell, q), lambda: finat.DiscontinuousLagrange(cell, degree), lambda: finat.Lagrange(sym("other", "Cell"), degree)])


def case_runtime(cell: "Cell", degree: "int", variant: "str", w: "str", order: "int", ps: "PointSet", qs: "PointSet", ent, other):
    assert cell.get_shape() == LINE
    make = finat.RuntimeTabulated
    return history(element_queries(order, ps, qs, None, ent, other),
                   [lambda: make(cell, degree, variant), lambda: make(cell, degree, w, 1), lambda: make(cell, degree + 1, variant, 0, "+"), lambda: make(cell, degree, variant, continuous=False)])


def case_quadrature_element(cell: "Cell", one: "QuadratureRule", two: "QuadratureRule", ps: "PointSet"):
    for rule in (one, two):
        assert cell.get_spatial_dimension() == rule.point_set.dimension
    queries = {n: q for n, q in element_queries(0, ps, ps, None, None, None).items() if "evaluation" not in n}
    return history(queries, [lambda: finat.QuadratureElement(cell, one), lambda: finat.QuadratureElement(cell, two)])


def rule_answers(rule):
    x = rule.point_set
    return (type(rule) is QuadratureRule, rule.ref_el, x.points, rule.weight_expression is None, rule._intrinsic_orientation_permutation_map_tuple)


def case_rules(cell: "Cell", another: "Cell", degree: "int", q: "int", scheme, t):
    for x in (cell, another):
        for shape in (TENSORPRODUCT, QUADRILATERAL, LINE):
            assert x.get_shape() != shape
        for d in (degree, q):
            assert d >= 0
            for s in (scheme, t):
                rule = fiat_scheme(x, d, s)
                assert len(numpy.asarray(rule.get_points()).shape) == 2
                assert len(numpy.asarray(rule.get_points())) == len(numpy.asarray(rule.get_weights()))
    return history({"rule": rule_answers}, [lambda: make_quadrature(cell, degree, scheme), lambda: make_quadrature(another, degree, scheme),
                                            lambda: make_quadrature(cell, q, scheme), lambda: make_quadrature(cell, degree, t), lambda: make_quadrature(cell, degree, scheme)])


TRIANGLE = Known("triangle")


def symbolic_queries(q, s, v):
    other = Known("interval")
    return {
        "data": lambda e: seen(e),
        "representation": lambda e: (repr(e), e == e, hash(e) == hash(e)),
        "degrees": lambda e: (e.embedded_subdegree, e.embedded_superdegree, e.is_cellwise_constant()),
        "pullback": lambda e: (e.mapping(), e.variant(), e.quadrature_scheme(), e.reference_value_shape, e.num_sub_elements),
        "of another degree": lambda e: repr(e.reconstruct(degree=q)),
        "of a scheme": lambda e: repr(e.reconstruct(quad_scheme=s)),
        "on another cell": lambda e: repr(e.reconstruct(cell=other)),
        "sub-elements": lambda e: [repr(x) for x in e.sub_elements],
    }


def case_symbolic(p: "int", q: "int", s: "str", v: "str", m: "str", dim: "int"):
    library()
    assert dim >= 1
    assert m != "symmetries"
    E = symbolic_elements
    one = Part("one", TRIANGLE, p, None)
    two = Part("two", TRIANGLE, q, None)
    queries = symbolic_queries(q, s, v)
    r = {}
    kinds = [("broken", E.BrokenElement), ("H(div)", E.HDivElement), ("H(curl)", E.HCurlElement), ("with mapping", lambda e: E.WithMapping(e, m)), ("vector", lambda e: E.VectorElement(e, dim=dim)),
             ("tensor", lambda e: E.TensorElement(e, shape=(2, 3))), ("symmetric", lambda e: E.TensorElement(e, shape=(2, 2), symmetry=True)), ("restricted", lambda e: E.RestrictedElement(e, "facet"))]
    for name, make in kinds:
        for k, x in history(queries, [lambda make=make: make(one), lambda make=make: make(two)]).items():
            r[name + ", " + k] = x
    return r


def case_symbolic_sums(p: "int", q: "int", s: "str", v: "str"):
    library()
    E = symbolic_elements
    one = Part("one", TRIANGLE, p, None)
    two = Part("two", TRIANGLE, q, None)
    queries = symbolic_queries(q, s, v)
    r = {}
    for name, make in [("enriched", E.EnrichedElement), ("nodal enriched", E.NodalEnrichedElement), ("mixed", E.MixedElement)]:
        for k, x in history(queries, [lambda make=make: make(one, two), lambda make=make: make(two, one)]).items():
            r[name + ", " + k] = x
    return r


def case_symmetry():
    """a symmetry given by the user is left as it was given"""
    library()
    one = Part("one", Known("triangle"), 1, None)
    given = {(0, 1): (1, 0)}
    e = symbolic_elements.TensorElement(one, shape=(2, 2), symmetry=given)
    seen(e)
    attempt(lambda: e.symmetry())
    attempt(lambda: e.reconstruct(degree=2))
    return {"given": (lambda: given, lambda: {(0, 1): (1, 0)})}


def case_families(p: "int", q: "int"):
    """elements of registered families, made one after the other"""
    library()
    E = symbolic_elements
    assert p >= 1 and q >= 1
    names = ("Lagrange", "CG", "RT", "N1curl", "DG", "Regge")

    def made(name, cell, k):
        e = E.FiniteElement(name, Known(cell), k)
        return (repr(e), e.family(), e.degree(), e.cell, e.mapping(), e.reference_value_shape, str(e.sobolev_space))
    for name in names:
        for cell in ("triangle", "tetrahedron"):
            attempt(lambda: made(name, cell, q))
            attempt(lambda: made(name, cell, p))
    r = {}
    for name in names:
        for cell in ("triangle", "tetrahedron"):
            r[name + " on a " + cell] = (lambda name=name, cell=cell: made(name, cell, p), lambda name=name, cell=cell: fresh(lambda: made(name, cell, p)))
    return r


class Another(Geometry):
    """a second physical cell"""

    def cell_size(self):
        return vector("k", self.sd + 1)

    def jacobian_at(self, point):
        return matrix("K", self.sd, self.sd)

    def physical_normals(self):
        return matrix("qn", self.sd + 1, self.sd)

    def physical_tangents(self):
        return matrix("qt", self.sd + 1, self.sd)

    def physical_edge_lengths(self):
        return vector("qel", 3 if self.sd == 2 else 6)


def case_cells():
    """the transformation of each of two cells, asked for in turn, and of two elements of a family"""
    bind_all()
    makers = {"Hermite": lambda: finat.Hermite(Triangle(), 3), "Hermite on tetrahedra": lambda: finat.Hermite(Tetrahedron(), 3), "Morley": lambda: finat.Morley(Triangle(), 2), "Bell": lambda: finat.Bell(Triangle(), 5),
              "Argyris": lambda: finat.Argyris(Triangle(), 5), "Argyris 6": lambda: finat.Argyris(Triangle(), 6), "HCT": lambda: finat.HsiehCloughTocher(Triangle(), 3),
              "reduced HCT": lambda: finat.ReducedHsiehCloughTocher(Triangle(), 3), "Mardal-Tai-Winther": lambda: finat.MardalTaiWinther(Triangle(), 3),
              "Arnold-Winther": lambda: finat.ArnoldWinther(Triangle(), 3), "nonconforming Arnold-Winther": lambda: finat.ArnoldWintherNC(Triangle(), 2),
              "Powell-Sabin 12": lambda: finat.QuadraticPowellSabin12(Triangle(), 2), "Powell-Sabin 6": lambda: finat.QuadraticPowellSabin6(Triangle(), 2)}

    def entries(e, cm):
        M = e.basis_transformation(cm)
        return [[M[j, i] for i in range(M.shape[1])] for j in range(M.shape[0])]
    r = {}
    for name, make in makers.items():
        e = make()
        cells = (Geometry(e.cell.get_spatial_dimension()), Another(e.cell.get_spatial_dimension()))
        for cm in cells:
            e.basis_transformation(cm)
        for k, cm in enumerate(cells):
            r["%s, cell %d" % (name, k)] = (lambda e=e, cm=cm: (entries(e, cm), e.entity_dofs(), e.index_shape), lambda make=make, cm=cm: fresh(lambda: (entries(make(), cm), make().entity_dofs(), make().index_shape)))
    return r


def reference_tables(order, ps, entity):
    """tables of the reference element, unknown"""


def transformation(coordinate_mapping):
    """the transformation at a geometry, unknown"""


class Mapped(PhysicallyMappedElement):
    value_shape = ()

    def get_value_indices(self):
        return ()

    def basis_transformation(self, coordinate_mapping):
        return transformation(coordinate_mapping)


class Reference:
    def basis_evaluation(self, order, ps, entity=None, coordinate_mapping=None):
        return reference_tables(order, ps, entity)


class MappedElement(Mapped, Reference):
    pass


def case_mapped(order: "int", ps: "PointSet", qs: "PointSet", ent, other, one, two):
    opaque(transformation, "gem")
    opaque(reference_tables, "dict[tuple[int],gem]")
    for cm in (one, two):
        assert cm is not None
        assert len(transformation(cm).shape) == 2
    for x in (ps, qs):
        for y in (ent, other):
            for t in reference_tables(order, x, y).values():
                assert len(t.shape) == 1
    queries = {"%s points, %s entity, %s cell" % (a, b, d): lambda e, x=x, y=y, cm=cm: e.basis_evaluation(order, x, y, cm)
               for a, x in (("these", ps), ("other", qs)) for b, y in (("this", ent), ("another", other)) for d, cm in (("one", one), ("two", two))}
    return history(queries, [lambda: MappedElement()])


class Stored(FiniteElementBase):
    """an element that hands out the tables it keeps"""

    def __init__(self, cell, first, dofs):
        self.on = cell
        self.kept = {0: {0: [first], 1: [], 2: []}, 1: {0: list(range(dofs)), 1: [], 2: []}, 2: {0: [dofs]}}
        self.permutations = {0: {0: {0: [0]}, 1: {0: []}, 2: {0: []}}, 1: {k: {0: [0], 1: [0]} for k in range(3)}, 2: {0: {0: [0]}}}

    cell = property(lambda self: self.on)
    degree = 1
    formdegree = 0
    index_shape = (4,)
    value_shape = ()
    mapping = "affine"

    def space_dimension(self):
        return 4

    def entity_dofs(self):
        return self.kept

    @property
    def entity_permutations(self):
        return self.permutations

    def basis_evaluation(self, order, ps, entity=None, coordinate_mapping=None):
        raise NotImplementedError

    def point_evaluation(self, order, point, entity=None):
        raise NotImplementedError


def case_stored_tables():
    """tables that belong to a part are not added to"""
    bind_all()
    T = Triangle()
    queries = {"entity_dofs": lambda e: e.entity_dofs(), "entity_permutations": lambda e: e.entity_permutations, "entity_closure_dofs": lambda e: e.entity_closure_dofs()}
    r = {}
    for name, make in [("enriched", lambda a, b: finat.EnrichedElement([a, b])), ("mixed", lambda a, b: finat.MixedElement([a, b])), ("tensor", lambda a, b: finat.TensorFiniteElement(a, (2,))),
                       ("transposed", lambda a, b: finat.TensorFiniteElement(a, (2,), transpose=True)), ("discontinuous", lambda a, b: finat.DiscontinuousElement(a))]:
        one, two = Stored(T, 0, 1), Stored(T, 2, 3)
        pristine = lambda: (Stored(T, 0, 1), Stored(T, 2, 3))
        e, f = make(one, two), make(two, one)
        for x in (e, f, e):
            for q in queries.values():
                attempt(lambda: q(x))
        for n, q in queries.items():
            r[name + ", " + n] = (lambda q=q, e=e: q(e), lambda q=q, make=make: fresh(lambda: q(make(*pristine()))))
            r[name + ", " + n + " of a part"] = (lambda q=q, two=two: q(two), lambda q=q: fresh(lambda: q(pristine()[1])))
    return r


def tables(order, points, entity):
    """one table of the reference element"""


class Tabulated:
    """a FIAT element with one derivative"""

    def __init__(self, f, alpha):
        self.f = f
        self.alpha = alpha

    def get_reference_element(self):
        return self.f.get_reference_element()

    def get_reference_complex(self):
        return self.f.get_reference_complex()

    def degree(self):
        return 2

    def space_dimension(self):
        return 3

    def value_shape(self):
        return ()

    def tabulate(self, order, points, entity=None):
        return {self.alpha: tables(order, points, entity)}


def case_fiat_tables(f: "FiatElement", order: "int", ps: "PointSet", qs: "PointSet", ent, other):
    opaque(tables, "array")
    for x in (ps, qs):
        assert len(x.points) == numpy.prod([i.extent for i in x.indices])
        for y in (ent, other):
            for n in (order, order + 1):
                t = tables(n, x.points, y)
                assert not isinstance(t, Exception)
                assert t.shape == (3, len(x.points))
    queries = {n: q for n, q in element_queries(order, ps, qs, None, ent, other).items() if n.startswith("basis")}
    return history(queries, [lambda: FiatElement(Tabulated(f, (1, 0))), lambda: FiatElement(Tabulated(f, (2, 0)))])
