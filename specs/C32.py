"""DoF tables of direct serendipity elements for a symbolic degree, and their
tabulation with an unknown list of basis functions."""
import gem
import numpy
from FIAT.reference_element import UFCQuadrilateral
import symengine
import sympy
from finat.direct_serendipity import DirectSerendipity, diff, ds1_sym, ds_sym, dsr_sym, newton_poly, symbolics
from finat.sympy2gem import sympy2gem

VERTICES = numpy.array([[sym("x%d" % v, "num"), sym("y%d" % v, "num")] for v in range(4)])
COORDINATES = numpy.array([sym("x", "num"), sym("y", "num")])
FUNCTIONS = [sym("phi%d" % k, "num") for k in range(3)]


class Quadrilateral(UFCQuadrilateral):
    def __init__(self):
        pass


def case_entity_dofs(degree: "int"):
    assert degree >= 1
    e = DirectSerendipity(Quadrilateral(), degree)
    n = degree - 1

    def dimension():
        if degree == 1:
            return 4
        return 2 + ((degree + 1)*(degree + 2))//2
    return {
        "vertices": (lambda: e.entity_dofs()[0], lambda: {0: [0], 1: [1], 2: [2], 3: [3]}),
        "edges": (lambda: e.entity_dofs()[1], lambda: {0: list(range(4, 4 + n)), 1: list(range(4 + n, 4 + 2*n)), 2: list(range(4 + 2*n, 4 + 3*n)),
                                                       3: list(range(4 + 3*n, 4 + 4*n))}),
        "interior": (lambda: e.entity_dofs()[2], lambda: {0: list(range(4 + 4*n, dimension()))}),
        "dimensions": (lambda: list(e.entity_dofs()), lambda: [0, 1, 2]),
        "space_dimension": (lambda: e.space_dimension(), lambda: dimension()),
        "index_shape": (lambda: e.index_shape, lambda: (dimension(),)),
        "value_shape": (lambda: e.value_shape, lambda: ()),
        "degree": (lambda: e.degree, lambda: degree),
        "formdegree": (lambda: e.formdegree, lambda: 0),
        "mapping": (lambda: e.mapping, lambda: "physical"),
    }


class Known(DirectSerendipity):
    """basis functions by name"""
    @property
    def _basis(self):
        return VERTICES, COORDINATES, FUNCTIONS


class Physical:
    """a physical cell and its map"""

    def __init__(self, corners, points, ps, entity):
        self.corners = corners
        self.points = points
        self.known = ps, entity

    def physical_vertices(self):
        return self.corners

    def physical_points(self, ps, entity=None):
        if (ps, entity) != self.known:
            raise KeyError("other points")
        return self.points


def tabulation(degree, order, ps, entity, mapping):
    e = Known(Quadrilateral(), degree)
    alphas = [(i - j, j) for i in range(order + 1) for j in range(i + 1)]
    points = gem.partial_indexed(mapping.physical_points(ps, entity=entity), ps.indices)
    corners = mapping.physical_vertices()
    mapper = gem.node.Memoizer(sympy2gem)
    mapper.bindings = {}
    for v in range(4):
        for k in range(2):
            mapper.bindings[VERTICES[v, k]] = corners[v, k]
    mapper.bindings[COORDINATES[0]] = points[0]
    mapper.bindings[COORDINATES[1]] = points[1]
    return {
        "multi-indices, %d" % order: (lambda: list(e.basis_evaluation(order, ps, entity, mapping)), lambda: alphas),
        "table, %d" % order: (lambda: e.basis_evaluation(order, ps, entity, mapping)[alphas[-1]],
                              lambda: gem.ListTensor([mapper(diff(phi, COORDINATES, alphas[-1])) for phi in FUNCTIONS])),
    }


def case_tabulation(degree: "int", ps: "PointSet", entity, corners: "gem", x: "gem", y: "gem"):
    opaque(sympy2gem, "gs")
    opaque(diff, "num")
    assert corners.shape == (4, 2)
    k = gem.Index(extent=2)
    points = gem.ComponentTensor(gem.Indexed(gem.ListTensor([gem.Indexed(x, ps.indices), gem.Indexed(y, ps.indices)]), (k,)), ps.indices + (k,))
    mapping = Physical(corners, points, ps, entity)
    r = {}
    for order in range(3):
        r.update(tabulation(degree, order, ps, entity, mapping))
    return r


def case_repeated_tabulation(degree: "int", ps: "PointSet", other: "PointSet", entity, corners: "gem", x: "gem", y: "gem"):
    """derivatives are kept between tabulations but never mixed up"""
    opaque(sympy2gem, "gs")
    opaque(diff, "num")
    assert corners.shape == (4, 2)
    k = gem.Index(extent=2)
    points = gem.ComponentTensor(gem.Indexed(gem.ListTensor([gem.Indexed(x, ps.indices), gem.Indexed(y, ps.indices)]), (k,)), ps.indices + (k,))
    mapping = Physical(corners, points, ps, entity)
    e = Known(Quadrilateral(), degree)
    fresh = Known(Quadrilateral(), degree)

    def again(first, order, alpha):
        e.basis_evaluation(first, ps, entity, mapping)
        return e.basis_evaluation(order, ps, entity, mapping)[alpha]
    return {
        "lower order later": (lambda: again(2, 1, (0, 1)), lambda: fresh.basis_evaluation(1, ps, entity, mapping)[0, 1]),
        "higher order later": (lambda: again(1, 2, (1, 1)), lambda: fresh.basis_evaluation(2, ps, entity, mapping)[1, 1]),
        "no points known": (lambda: e.point_evaluation(0, x), lambda: raises("NotImplementedError")),
    }


def case_construction(degree: "int", topology, vertices):
    opaque(ds1_sym)
    opaque(dsr_sym)
    cell = Quadrilateral()
    cell.topology = topology
    e = DirectSerendipity(cell, degree)

    def expected(vs):
        return ds1_sym(topology, vs=vs, sp=symbolics) if degree == 1 else dsr_sym(topology, degree, vs=vs, sp=symbolics)
    return {
        "symbolic vertices": (lambda: e._basis, lambda: expected(None)),
        "given vertices": (lambda: ds_sym(topology, degree, vs=vertices), lambda: expected(vertices)),
    }


def case_derivatives(expr, x, y, a: "int", b: "int"):
    assert a >= 0
    assert b >= 0

    def expected():
        if isinstance(expr, sympy.Expr):
            return expr.diff((x, a), (y, b))
        return symengine.diff(expr, *([x]*a + [y]*b))
    return {"diff": (lambda: diff(expr, numpy.array([x, y]), (a, b)), expected)}


class Expression:
    """any symbolic expression: only how many there are is followed"""

    def subs(self, values):
        return Expression()

    def simplify(self):
        return Expression()

    def __add__(self, other):
        return Expression()

    def __radd__(self, other):
        return Expression()

    def __sub__(self, other):
        return Expression()

    def __rsub__(self, other):
        return Expression()

    def __mul__(self, other):
        return Expression()

    def __rmul__(self, other):
        return Expression()

    def __truediv__(self, other):
        return Expression()

    def __rtruediv__(self, other):
        return Expression()

    def __pow__(self, other):
        return Expression()

    def __neg__(self):
        return Expression()


class Symbolics:
    def symbols(self, names):
        if names == "x,y":
            return Expression(), Expression()
        assert names in ("x:4", "y:4")
        return Expression(), Expression(), Expression(), Expression()

    def Symbol(self, name):
        return Expression()

    def Integer(self, k):
        return Expression()

    def Rational(self, p, q):
        return Expression()


TOPOLOGY = {0: {0: (0,), 1: (1,), 2: (2,), 3: (3,)}, 1: {0: (0, 1), 1: (2, 3), 2: (0, 2), 3: (1, 3)}, 2: {0: (0, 1, 2, 3)}}


def case_counts():
    """as many functions and symbols as the tables say"""
    r = {}
    for degree in range(1, 7):
        r["functions, degree %d" % degree] = (lambda degree=degree: len(ds_sym(TOPOLOGY, degree, sp=Symbolics())[2]),
                                              lambda degree=degree: DirectSerendipity(Quadrilateral(), degree).space_dimension())
        r["coordinates, degree %d" % degree] = (lambda degree=degree: [x.shape for x in ds_sym(TOPOLOGY, degree, sp=Symbolics())[:2]],
                                                lambda degree=degree: [(4, 2), (2,)])
    return r


def case_interpolation(s: "num"):
    """the interpolating polynomial through any points with any values"""
    r = {}
    for n in range(1, 5):
        nodes = [sym("t%d" % k, "num") for k in range(n)]
        values = [sym("f%d" % k, "num") for k in range(n)]
        for k in range(n):
            r["node %d of %d" % (k, n)] = (lambda nodes=nodes, values=values, k=k: newton_poly(nodes, values, nodes[k]), lambda values=values, k=k: values[k])
    return r
