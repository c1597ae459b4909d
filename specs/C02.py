"""Entity tables of tensor-product and flattened elements, for factors with
the topology of intervals, triangles and points and unknown DoF numbers."""
from itertools import product

from FIAT.orientation_utils import make_entity_permutations_tensorproduct
from FIAT.reference_element import UFCHexahedron, UFCQuadrilateral, compute_unflattening_map, flatten_entities, flatten_permutations
from FIAT.tensor_product import FlattenedDimensions as FIAT_Flattened

from finat.tensor_product import TensorProductElement, productise, compose_permutations
from finat.cube import FlattenedDimensions


class Cell:
    def __init__(self, topology):
        self.topology = topology

    def get_topology(self):
        return self.topology


class Factor:
    """an element with known entities and unknown DoF numbers"""
    value_shape = ()

    def __init__(self, dofs, support, perms, dim):
        self.dofs = dofs
        self.support = support
        self.entity_permutations = perms
        self.cell = Cell({d: {i: (0,) for i in es} for d, es in dofs.items()})
        self.dim = dim

    def entity_dofs(self):
        return self.dofs

    def entity_support_dofs(self):
        return self.support

    def entity_closure_dofs(self):
        return {d: {i: [("closure", d, i)] for i in es} for d, es in self.dofs.items()}

    def space_dimension(self):
        return self.dim


def interval(v, s, p, dim):
    return Factor({0: {0: [v[0]], 1: [v[1]]}, 1: {0: [v[2], v[3]]}},
                  {0: {0: [s[0]], 1: [s[1], s[2]]}, 1: {0: [s[3]]}},
                  {0: {0: {0: p[0]}, 1: {0: p[1]}}, 1: {0: {0: p[2], 1: p[3]}}}, dim)


def triangle(v, s, p, dim):
    return Factor({0: {0: [v[0]], 1: [v[1]], 2: []}, 1: {0: [v[2]], 1: [v[3], v[0]], 2: [v[1]]}, 2: {0: []}},
                  {0: {0: [s[0]], 1: [s[1]], 2: []}, 1: {0: [s[2], s[1]], 1: [s[2]], 2: [s[0]]}, 2: {0: [s[3]]}},
                  {0: {0: {0: p[0]}, 1: {0: p[1]}, 2: {0: p[2]}}, 1: {0: {0: p[0], 1: p[3]}, 1: {0: p[1], 1: p[3]}, 2: {0: p[2], 1: p[1]}},
                   2: {0: {0: p[3]}}}, dim)


def table(maps, dims):
    """row-major product of the factors' tables"""
    out = {}
    for d in product(*[sorted(m) for m in maps]):
        out[d] = {}
        n = 0
        for e in product(*[sorted(m[k]) for m, k in zip(maps, d)]):
            rows = []
            for t in product(*[m[k][i] for m, k, i in zip(maps, d, e)]):
                pos = 0
                for x, size in zip(t, dims):
                    pos = pos * size + x
                rows.append(pos)
            out[d][n] = rows
            n = n + 1
    return out


def perms(fs):
    cells = [f.cell for f in fs]
    out = {}
    for d in product(*[sorted(f.entity_permutations) for f in fs]):
        out[d] = {}
        n = 0
        for e in product(*[sorted(f.entity_permutations[k]) for f, k in zip(fs, d)]):
            out[d][n] = make_entity_permutations_tensorproduct(cells, d, [f.entity_permutations[k][i] for f, k, i in zip(fs, d, e)])
            n = n + 1
    return out


def case_two(v: "tuple[int]*4", w: "tuple[int]*4", s: "tuple[int]*4", t: "tuple[int]*4", p: "tuple[tuple[int]]*4", q: "tuple[tuple[int]]*4", dims: "tuple[int]*2"):
    fs = [triangle(v, s, p, dims[0]), interval(w, t, q, dims[1])]
    d = TensorProductElement(fs)
    return {
        "entity_dofs": (lambda: d.entity_dofs(), lambda: table([f.dofs for f in fs], dims)),
        "entity_support_dofs": (lambda: d.entity_support_dofs(), lambda: table([f.support for f in fs], dims)),
        "entity_permutations": (lambda: d.entity_permutations, lambda: perms(fs)),
        "space_dimension": (lambda: d.space_dimension(), lambda: dims[0] * dims[1]),
    }


def case_three(v: "tuple[int]*4", w: "tuple[int]*4", u: "tuple[int]*4", s: "tuple[int]*4", p: "tuple[tuple[int]]*4", dims: "tuple[int]*3"):
    fs = [interval(v, s, p, dims[0]), interval(w, s, p, dims[1]), interval(u, s, p, dims[2])]
    d = TensorProductElement(fs)
    return {
        "entity_dofs": (lambda: d.entity_dofs(), lambda: table([f.dofs for f in fs], dims)),
        "entity_support_dofs": (lambda: d.entity_support_dofs(), lambda: table([f.support for f in fs], dims)),
        "entity_permutations": (lambda: d.entity_permutations, lambda: perms(fs)),
    }


def case_flattened(e: "Element", order: "int", ps: "PointSet", pt: "gem", ent: "tuple[int]*2", cm):
    d = FlattenedDimensions(e)
    un = compute_unflattening_map(e.cell.get_topology())

    def cell():
        n = e.cell.get_spatial_dimension()
        return UFCQuadrilateral() if n == 2 else UFCHexahedron() if n == 3 else raises("NotImplementedError")
    return {
        "product": (lambda: d.product, lambda: e),
        "cell": (lambda: d.cell, cell),
        "complex": (lambda: d.complex, lambda: e.complex),
        "formdegree": (lambda: d.formdegree, lambda: e.formdegree),
        "entity_dofs": (lambda: d.entity_dofs(), lambda: flatten_entities(e.entity_dofs())),
        "entity_support_dofs": (lambda: d.entity_support_dofs(), lambda: flatten_entities(e.entity_support_dofs())),
        "entity_permutations": (lambda: d.entity_permutations, lambda: flatten_permutations(e.entity_permutations)),
        "space_dimension": (lambda: d.space_dimension(), lambda: e.space_dimension()),
        "fiat_equivalent": (lambda: d.fiat_equivalent, lambda: FIAT_Flattened(e.fiat_equivalent)),
        "basis_evaluation": (lambda: d.basis_evaluation(order, ps, ent), lambda: e.basis_evaluation(order, ps, un[ent])),
        "point_evaluation": (lambda: d.point_evaluation(order, pt, ent), lambda: e.point_evaluation(order, pt, un[ent])),
        "dual_basis": (lambda: d.dual_basis, lambda: e.dual_basis),
        "index_shape": (lambda: d.index_shape, lambda: e.index_shape),
        "value_shape": (lambda: d.value_shape, lambda: e.value_shape),
        "mapping": (lambda: d.mapping, lambda: e.mapping),
    }


def case_flattened_cell(e: "Element", order: "int", ps: "PointSet", pt: "gem"):
    assert e.cell.get_spatial_dimension() == 2
    d = FlattenedDimensions(e)
    un = compute_unflattening_map(e.cell.get_topology())
    return {
        "basis_evaluation": (lambda: d.basis_evaluation(order, ps), lambda: e.basis_evaluation(order, ps, un[UFCQuadrilateral().get_spatial_dimension(), 0])),
        "point_evaluation": (lambda: d.point_evaluation(order, pt), lambda: e.point_evaluation(order, pt, un[UFCQuadrilateral().get_spatial_dimension(), 0])),
    }


class Product:
    """an element on a product of intervals, known by what it is asked for"""

    def __init__(self, n, perms):
        self.n = n
        self.topology = {dim: {i: () for i in range(2**dim.count(0))} for dim in product((0, 1), repeat=n)}
        self.cell = Box(self.topology, n)
        self.entity_permutations = {dim: {i: {0: (perms, dim, i)} for i in es} for dim, es in self.topology.items()}

    def entity_dofs(self):
        return {dim: {i: [("dof", dim, i)] for i in es} for dim, es in self.topology.items()}

    def entity_support_dofs(self):
        return {dim: {i: [("support", dim, i)] for i in es} for dim, es in self.topology.items()}

    def entity_closure_dofs(self):
        return {dim: {i: [("closure", dim, i)] for i in es} for dim, es in self.topology.items()}

    def basis_evaluation(self, order, ps, entity=None, coordinate_mapping=None):
        return ("tables", order, ps, entity)

    def point_evaluation(self, order, pt, entity=None, coordinate_mapping=None):
        return ("values", order, pt, entity)


class Box(Cell):
    def __init__(self, topology, n):
        super().__init__(topology)
        self.n = n

    def get_spatial_dimension(self):
        return self.n

    def get_dimension(self):
        return (1,)*self.n


def flat_order(topology):
    """the entities of a product of cells, by total dimension and, within one,
    in the order of the tuples of dimensions"""
    out = {}
    for dim in sorted(topology):
        for i in topology[dim]:
            out.setdefault(sum(dim), []).append((dim, i))
    return out


def flat_tables(table):
    return {d: {k: table[dim][i] for k, (dim, i) in enumerate(es)} for d, es in flat_order(table).items()}


def case_flattened_boxes(perms, order, ps, pt):
    bind(compute_unflattening_map, lambda topology: {(d, k): e for d, es in flat_order(topology).items() for k, e in enumerate(es)})
    bind(flatten_entities, flat_tables)
    bind(flatten_permutations, flat_tables)
    r = {}
    for n, name in ((2, "square"), (3, "cube")):
        e = Product(n, perms)
        d = FlattenedDimensions(e)
        flat = flat_order(e.topology)
        r[name + " entity_dofs"] = (lambda d=d, e=e: d.entity_dofs(), lambda d=d, e=e: flat_tables(e.entity_dofs()))
        r[name + " entity_support_dofs"] = (lambda d=d, e=e: d.entity_support_dofs(), lambda d=d, e=e: flat_tables(e.entity_support_dofs()))
        r[name + " entity_permutations"] = (lambda d=d, e=e: d.entity_permutations, lambda d=d, e=e: flat_tables(e.entity_permutations))
        for what in ("basis_evaluation", "point_evaluation"):
            x = ps if what == "basis_evaluation" else pt
            r[name + " " + what] = (lambda d=d, what=what, flat=flat, x=x: [getattr(d, what)(order, x, (k, i)) for k in flat for i in range(len(flat[k]))],
                                    lambda e=e, what=what, flat=flat, x=x: [getattr(e, what)(order, x, y) for k in flat for y in flat[k]])
    return r


def case_flattened_degree(e: "Element", n: "int", a: "Element", b: "Element"):
    expects("NotImplementedError")
    d = FlattenedDimensions(TensorProductElement([a, b]))
    return {
        "degree": (lambda: d.degree, lambda: a.degree if a.degree == b.degree else raises("ValueError")),
    }
