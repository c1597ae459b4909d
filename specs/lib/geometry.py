"""Stand-ins for the collaborators of physically mapped elements: reference
simplices, the geometry of a physical cell with unknown entries, and FIAT
elements known by their DoF layout."""
import gem
import numpy


class Triangle:
    def get_dimension(self):
        return 2

    def get_spatial_dimension(self):
        return 2

    def get_topology(self):
        return {0: {0: (0,), 1: (1,), 2: (2,)}, 1: {0: (1, 2), 1: (0, 2), 2: (0, 1)}, 2: {0: (0, 1, 2)}}

    @property
    def sub_entities(self):
        return {0: {0: [(0, 0)], 1: [(0, 1)], 2: [(0, 2)]},
                1: {0: [(0, 1), (0, 2), (1, 0)], 1: [(0, 0), (0, 2), (1, 1)], 2: [(0, 0), (0, 1), (1, 2)]},
                2: {0: [(0, 0), (0, 1), (0, 2), (1, 0), (1, 1), (1, 2), (2, 0)]}}

    def get_vertices(self):
        return ((0.0, 0.0), (1.0, 0.0), (0.0, 1.0))

    def make_points(self, dim, entity, order):
        assert (dim, entity, order) == (2, 0, 3)
        return [(1/3, 1/3)]

    def compute_edge_tangent(self, e):
        return numpy.array([[sym("t00", "num"), sym("t01", "num")], [sym("t10", "num"), sym("t11", "num")], [sym("t20", "num"), sym("t21", "num")]][e])

    def construct_subelement(self, dim):
        assert dim == 1
        return "edge"


class Tetrahedron:
    def get_dimension(self):
        return 3

    def get_spatial_dimension(self):
        return 3

    def get_topology(self):
        return {0: {0: (0,), 1: (1,), 2: (2,), 3: (3,)}, 1: {0: (2, 3), 1: (1, 3), 2: (1, 2), 3: (0, 3), 4: (0, 2), 5: (0, 1)},
                2: {0: (1, 2, 3), 1: (0, 2, 3), 2: (0, 1, 3), 3: (0, 1, 2)}, 3: {0: (0, 1, 2, 3)}}

    @property
    def sub_entities(self):
        return {0: {0: [(0, 0)], 1: [(0, 1)], 2: [(0, 2)], 3: [(0, 3)]},
                1: {0: [(0, 2), (0, 3), (1, 0)], 1: [(0, 1), (0, 3), (1, 1)], 2: [(0, 1), (0, 2), (1, 2)],
                    3: [(0, 0), (0, 3), (1, 3)], 4: [(0, 0), (0, 2), (1, 4)], 5: [(0, 0), (0, 1), (1, 5)]},
                2: {0: [(0, 1), (0, 2), (0, 3), (1, 0), (1, 1), (1, 2), (2, 0)], 1: [(0, 0), (0, 2), (0, 3), (1, 0), (1, 3), (1, 4), (2, 1)],
                    2: [(0, 0), (0, 1), (0, 3), (1, 1), (1, 3), (1, 5), (2, 2)], 3: [(0, 0), (0, 1), (0, 2), (1, 2), (1, 4), (1, 5), (2, 3)]},
                3: {0: [(0, 0), (0, 1), (0, 2), (0, 3), (1, 0), (1, 1), (1, 2), (1, 3), (1, 4), (1, 5), (2, 0), (2, 1), (2, 2), (2, 3), (3, 0)]}}

    def get_vertices(self):
        return ((0.0, 0.0, 0.0), (1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, 0.0, 1.0))

    def make_points(self, dim, entity, order):
        assert (dim, entity, order) == (3, 0, 4)
        return [(1/4, 1/4, 1/4)]

    def compute_tangents(self, dim, f):
        assert dim == 2
        vs = [self.get_vertices()[v] for v in self.get_topology()[2][f]]
        return numpy.array([[v[j] - vs[0][j] for j in range(3)] for v in vs[1:]])

    def construct_subelement(self, dim):
        assert dim == 2
        return "face"


def matrix(name, m, n):
    return gem.ListTensor([[sym("%s%d%d" % (name, i, j), "gs") for j in range(n)] for i in range(m)])


def vector(name, n):
    return gem.ListTensor([sym("%s%d" % (name, i), "gs") for i in range(n)])


class Geometry:
    """the geometry of a physical simplex, every entry of it unknown"""

    def __init__(self, sd):
        self.sd = sd

    def cell_size(self):
        return vector("h", self.sd + 1)

    def jacobian_at(self, point):
        return matrix("J", self.sd, self.sd)

    def detJ_at(self, point):
        J = self.jacobian_at(point)
        if self.sd == 2:
            return J[0, 0]*J[1, 1] - J[0, 1]*J[1, 0]
        return (J[0, 0]*(J[1, 1]*J[2, 2] - J[1, 2]*J[2, 1]) - J[0, 1]*(J[1, 0]*J[2, 2] - J[1, 2]*J[2, 0])
                + J[0, 2]*(J[1, 0]*J[2, 1] - J[1, 1]*J[2, 0]))

    def reference_normals(self):
        return matrix("rn", self.sd + 1, self.sd)

    def physical_normals(self):
        return matrix("pn", self.sd + 1, self.sd)

    def physical_tangents(self):
        return matrix("pt", self.sd + 1, self.sd)

    def physical_edge_lengths(self):
        return vector("pel", 3 if self.sd == 2 else 6)


class Functional:
    def __init__(self, derivative):
        self.deriv_dict = {(0.0, 0.0): [(1.0, (1, 0), ())]} if derivative else {}


class Dual:
    def __init__(self, nodes):
        self.nodes = nodes


class Layout:
    """a FIAT element with a known DoF layout"""

    def __init__(self, cell, dofs, dim, degree=None, mapping="affine", derivatives=()):
        self.ref = cell
        self.dofs = dofs
        self.dim = dim
        self.deg = degree
        self.map = mapping
        self.derivatives = derivatives

    def get_reference_element(self):
        return self.ref

    def get_reference_complex(self):
        return self.ref

    def entity_dofs(self):
        return self.dofs

    def space_dimension(self):
        return self.dim

    def degree(self):
        return self.deg

    def mapping(self):
        return (self.map,) * self.dim

    def get_dual_set(self):
        return Dual([Functional(i in self.derivatives) for i in range(self.dim)])
