"""Tables of FIAT elements with an unknown number of basis functions, value
shape, points and point indices: entry [basis function, component, point] of
FIAT's table is what the expression yields for that basis index, those value
indices and that point."""
import gem
import numpy
import sympy

from finat.fiat_elements import FiatElement
from finat.sympy2gem import sympy2gem


class Tabulated:
    """a FIAT element with one known table"""

    def __init__(self, f, alpha, table):
        self.f = f
        self.alpha = alpha
        self.table = table

    def get_reference_element(self):
        return self.f.get_reference_element()

    def get_reference_complex(self):
        return self.f.get_reference_complex()

    def degree(self):
        return self.f.degree()

    def space_dimension(self):
        return self.f.space_dimension()

    def value_shape(self):
        return self.f.value_shape()

    def tabulate(self, order, points, entity=None):
        return {self.alpha: self.table}


def expected(f, alpha, table, ps):
    n = f.space_dimension()
    shape = f.value_shape()
    beta = (gem.Index(extent=n),)
    zeta = tuple(gem.Index(extent=k) for k in shape)
    if sum(alpha) > f.degree():
        return gem.Zero((n,) + shape)
    if sum(alpha) == f.degree() and not f.get_reference_complex().is_macrocell():
        entries = gem.Indexed(gem.Literal(numpy.reshape(table, (n,) + shape + (len(ps.points),))), beta + zeta + (0,))
    else:
        points = tuple(i.extent for i in ps.indices)
        entries = gem.Indexed(gem.Literal(numpy.reshape(table, (n,) + shape + points)), beta + zeta + ps.indices)
    return gem.ComponentTensor(entries, beta + zeta)


def case_one_table(f: "FiatElement", alpha: "tuple[int]", table: "array", order: "int", ps: "PointSet", entity):
    assert len(ps.points) == numpy.prod([i.extent for i in ps.indices])
    e = FiatElement(Tabulated(f, alpha, table))
    return {"table": (lambda: e.basis_evaluation(order, ps, entity), lambda: {alpha: expected(f, alpha, table, ps)})}


def expected_at(f, alpha, table, refcoords):
    """FIAT's table at symbolic coordinates, which are the given ones"""
    symbols = sympy.symbols('X Y Z')[:refcoords.shape[0]]
    mapper = gem.node.Memoizer(sympy2gem)
    mapper.bindings = {s: gem.Indexed(refcoords, (i,)) for i, s in enumerate(symbols)}
    entries = numpy.vectorize(mapper)(table)
    beta = (gem.Index(extent=f.space_dimension()),)
    zeta = tuple(gem.Index(extent=k) for k in f.value_shape())
    return gem.ComponentTensor(gem.Indexed(gem.Literal(numpy.reshape(entries, (f.space_dimension(),) + f.value_shape())), beta + zeta), beta + zeta)


def case_symbolic_points(f: "FiatElement", alpha: "tuple[int]", table: "array", order: "int", refcoords: "gem", dim: "int", k: "int"):
    opaque(sympy2gem, "gs")
    assert refcoords.shape == (f.get_reference_element().construct_subelement(dim).get_spatial_dimension(),)
    e = FiatElement(Tabulated(f, alpha, table))
    return {"table": (lambda: e.point_evaluation(order, refcoords, (dim, k)), lambda: {alpha: expected_at(f, alpha, table, refcoords)})}


class Recording:
    """a FIAT element whose tables say how they were asked for"""

    def __init__(self, f, tables):
        self.f = f
        self.tables = tables

    def get_reference_element(self):
        return self.f.get_reference_element()

    def get_reference_complex(self):
        return self.f.get_reference_complex()

    def degree(self):
        return self.f.degree()

    def space_dimension(self):
        return self.f.space_dimension()

    def value_shape(self):
        return self.f.value_shape()

    def tabulate(self, order, points, entity=None):
        return self.tables(order, points, entity)


def case_failures(f: "FiatElement", alpha: "tuple[int]", order: "int", ps: "PointSet", entity, refcoords: "gem", dim: "int", k: "int"):
    """a table FIAT could not make is carried over as a failure of the table's shape"""
    assert refcoords.shape == (f.get_reference_element().construct_subelement(dim).get_spatial_dimension(),)
    problem = ValueError("singular")
    e = FiatElement(Tabulated(f, alpha, problem))
    shape = (f.space_dimension(),) + f.value_shape()
    return {"known points": (lambda: e.basis_evaluation(order, ps, entity), lambda: {alpha: gem.Failure(shape, problem)}),
            "symbolic points": (lambda: e.point_evaluation(order, refcoords, (dim, k)), lambda: {alpha: gem.Failure(shape, problem)})}


def case_request(f: "FiatElement", alpha: "tuple[int]", order: "int", ps: "PointSet", entity, refcoords: "gem", dim: "int", k: "int"):
    """FIAT is asked for the order, points and entity requested"""
    cell = f.get_reference_element()
    e = FiatElement(Recording(f, lambda *request: {alpha: ValueError(request)}))
    shape = (f.space_dimension(),) + f.value_shape()
    n = cell.construct_subelement(dim).get_spatial_dimension()
    n0 = cell.construct_subelement(cell.get_dimension()).get_spatial_dimension()
    assert len(refcoords.shape) == 1

    def symbolic(d, i, size):
        if refcoords.shape != (size,):
            return undefined()
        return {alpha: gem.Failure(shape, ValueError((order, [sympy.symbols('X Y Z')[:size]], (d, i))))}

    return {"known points": (lambda: e.basis_evaluation(order, ps, entity), lambda: {alpha: gem.Failure(shape, ValueError((order, ps.points, entity)))}),
            "geometry": (lambda: e.basis_evaluation(order, ps, entity, coordinate_mapping=k), lambda: {alpha: gem.Failure(shape, ValueError((order, ps.points, entity)))}),
            "the whole cell": (lambda: e.basis_evaluation(order, ps), lambda: {alpha: gem.Failure(shape, ValueError((order, ps.points, None)))}),
            "symbolic points": (lambda: e.point_evaluation(order, refcoords, (dim, k)), lambda: symbolic(dim, k, n)),
            "symbolic points on the whole cell": (lambda: e.point_evaluation(order, refcoords), lambda: symbolic(cell.get_dimension(), 0, n0))}


def case_every_table(f: "FiatElement", alpha: "tuple[int]", beta: "tuple[int]", table: "array", problem: "str", order: "int", ps: "PointSet", entity):
    """several tables are converted independently"""
    assert len(ps.points) == numpy.prod([i.extent for i in ps.indices])
    assert alpha != beta
    failed = ValueError(problem)
    e = FiatElement(Recording(f, lambda order, points, entity: {alpha: failed, beta: table}))
    shape = (f.space_dimension(),) + f.value_shape()
    return {"tables": (lambda: e.basis_evaluation(order, ps, entity), lambda: {alpha: gem.Failure(shape, failed), beta: expected(f, beta, table, ps)})}
