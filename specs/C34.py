"""Support DoFs of an element without a special rule: on each entity of each
dimension, the DoFs whose basis function has a squared integral over that entity
above a tolerance, integrated exactly."""
import gem
from gem.interpreter import evaluate

import finat
from finat.finiteelementbase import FiniteElementBase, entity_support_dofs
from finat.quadrature import make_quadrature

opaque(make_quadrature, "QuadratureRule")


def dofs(cell):
    """which DoFs there are on each entity, unknown"""


def table(order, ps, entity):
    """tabulation, unknown"""


class Simple(FiniteElementBase):
    def __init__(self, cell, degree, n, shape):
        self._cell, self._degree, self.n, self.shape = cell, degree, n, shape

    @property
    def cell(self):
        return self._cell

    @property
    def degree(self):
        return self._degree

    @property
    def index_shape(self):
        return self.n

    @property
    def value_shape(self):
        return self.shape

    def entity_dofs(self):
        return dofs(self._cell)

    def basis_evaluation(self, order, ps, entity=None, coordinate_mapping=None):
        return {(): table(order, ps, entity)}


def support(e, dim, f):
    rule = make_quadrature(e.cell.construct_subelement(dim), doubled(e.degree))
    i, z = e.get_indices(), e.get_value_indices()
    t = gem.Indexed(table(0, rule.point_set, (dim, f)), i + z)
    norms = gem.IndexSum(gem.Product(gem.IndexSum(gem.Product(t, t), z), rule.weight_expression), rule.point_set.indices)
    evaluation, = evaluate([gem.ComponentTensor(norms, i)])
    return [k for k, x in enumerate(evaluation.arr.flatten()) if x > 1.e-8]


def doubled(degree):
    if isinstance(degree, tuple):
        return [2*d for d in degree]
    return 2*degree


def obligations(e):
    def expected():
        r = {}
        for dim in e.cell.sub_entities.keys():
            r[dim] = {f: support(e, dim, f) for f in dofs(e.cell)[dim].keys()}
        return r
    return expected


def case_scalar(cell: "Cell", degree: "int", n: "int"):
    opaque(table, "gem")
    opaque(dofs, "dict[int,dict[int,list[int]]]")
    e = Simple(cell, degree, (n,), ())
    return {"all entities": (lambda: e.entity_support_dofs(), obligations(e)),
            "one dimension": (lambda: [entity_support_dofs(e, 1)], lambda: [e.entity_support_dofs()[1]])}


def case_vector(cell: "Cell", degree: "int", n: "int", d: "int"):
    opaque(table, "gem")
    opaque(dofs, "dict[int,dict[int,list[int]]]")
    e = Simple(cell, degree, (n,), (d,))
    return {"all entities": (lambda: e.entity_support_dofs(), obligations(e))}


def case_product(cell: "Cell", p: "int", q: "int", n: "int", m: "int"):
    opaque(table, "gem")
    opaque(dofs, "dict[int,dict[int,list[int]]]")
    e = Simple(cell, (p, q), (n, m), ())
    return {"all entities": (lambda: e.entity_support_dofs(), obligations(e))}
