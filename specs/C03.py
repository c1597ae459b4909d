from functools import reduce

import gem

from finat.tensorfiniteelement import TensorFiniteElement


def delta(i, j):
    r = 1
    for a, b in zip(i, j):
        r = r * gem.Delta(a, b)
    return r


def kron(table, e, shape, transpose):
    i = e.get_indices()
    z = e.get_value_indices()
    t = tuple(gem.Index(extent=d) for d in shape)
    s = tuple(gem.Index(extent=d) for d in shape)
    body = delta(t, s) * table[i + z]
    if transpose:
        return gem.ComponentTensor(body, t + i + s + z)
    return gem.ComponentTensor(body, i + t + s + z)


def case_tables(e: "Element", shape: "tuple[int]", transpose: "bool", order: "int", ps: "PointSet", entity, cm):
    assert len(shape) > 0
    d = TensorFiniteElement(e, shape, transpose)
    return {
        "index_shape": (lambda: d.index_shape, lambda: shape + e.index_shape if transpose else e.index_shape + shape),
        "value_shape": (lambda: d.value_shape, lambda: shape + e.value_shape),
        "basis_evaluation": (lambda: d.basis_evaluation(order, ps, entity, coordinate_mapping=cm),
                             lambda: {k: kron(v, e, shape, transpose) for k, v in
                                      e.basis_evaluation(order, ps, entity=entity, coordinate_mapping=cm).items()}),
        "point_evaluation": (lambda: d.point_evaluation(order, ps, entity),
                             lambda: {k: kron(v, e, shape, transpose) for k, v in
                                      e.point_evaluation(order, ps, entity).items()}),
        "dual_basis": (lambda: d.dual_basis, lambda: (kron(e.dual_basis[0], e, shape, transpose), e.dual_basis[1])),
    }


def prod(s):
    r = 1
    for x in s:
        r = r * x
    return r


def case_data(e: "Element", shape: "tuple[int]", transpose: "bool"):
    assert len(shape) > 0
    d = TensorFiniteElement(e, shape, transpose)
    return {
        "cell": (lambda: d.cell, lambda: e.cell),
        "complex": (lambda: d.complex, lambda: e.complex),
        "degree": (lambda: d.degree, lambda: e.degree),
        "formdegree": (lambda: d.formdegree, lambda: e.formdegree),
        "mapping": (lambda: d.mapping, lambda: e.mapping),
        "base_element": (lambda: d.base_element, lambda: e),
        "space_dimension": (lambda: d.space_dimension(), lambda: prod(shape) * prod(e.index_shape)),
    }


def case_dual_evaluation(e: "Element", other: "Element", shape: "tuple[int]", transpose: "bool", al: "tuple[int]"):
    """the dual evaluation of a function is the contraction of the dual weights
    with the function at the dual points, its free indices in DoF order"""
    assert len(shape) > 0
    d = TensorFiniteElement(e, shape, transpose)

    def fn(ps):
        t = gem.Variable("f", shape + e.value_shape + tuple(i.extent for i in ps.indices))
        z = tuple(gem.Index(extent=n) for n in shape + e.value_shape)
        return gem.ComponentTensor(gem.Indexed(t, z + ps.indices), z)

    def impl():
        expr, idx = d.dual_evaluation(fn)
        return gem.ComponentTensor(expr, idx)

    def spec():
        Q, x = e.dual_basis
        i = e.get_indices()
        z = e.get_value_indices()
        s = tuple(gem.Index(extent=n) for n in shape)
        body = gem.IndexSum(Q[i + z] * fn(x)[s + z], x.indices + z)
        return gem.ComponentTensor(body, s + i if transpose else i + s)
    return {"dual_evaluation": (impl, spec)}
