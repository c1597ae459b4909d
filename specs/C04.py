"""DoF numbering of a tensor-valued element over an unknown base element."""
from finat.tensorfiniteelement import TensorFiniteElement


def prod(s):
    r = 1
    for x in s:
        r = r * x
    return r


def case_packed(e: "Element", shape: "tuple[int]", dim, i: "int"):
    assert dim in e.cell.get_topology()
    assert dim in e.entity_dofs()
    assert i in e.entity_dofs()[dim]
    d = TensorFiniteElement(e, shape)
    n = prod(shape)
    return {
        "dofs": (lambda: d.entity_dofs()[dim][i], lambda: [v * n + k for v in e.entity_dofs()[dim][i] for k in range(n)]),
        "dims": (lambda: dim in d.entity_dofs(), lambda: True),
        "entities": (lambda: i in d.entity_dofs()[dim], lambda: True),
    }


def case_transposed(e: "Element", shape: "tuple[int]", dim, i: "int"):
    assert dim in e.cell.get_topology()
    assert dim in e.entity_dofs()
    assert i in e.entity_dofs()[dim]
    d = TensorFiniteElement(e, shape, transpose=True)
    n = prod(shape)
    return {
        "dofs": (lambda: d.entity_dofs()[dim][i], lambda: [v + k * e.space_dimension() for k in range(n) for v in e.entity_dofs()[dim][i]]),
        "dims": (lambda: dim in d.entity_dofs(), lambda: True),
        "entities": (lambda: i in d.entity_dofs()[dim], lambda: True),
    }


def case_concrete(e: "Element", dim, i: "int"):
    """the numbering is the position in the row-major flattening of the index shape"""
    assert dim in e.cell.get_topology()
    assert e.entity_dofs()[dim][i] == [2, 5]
    assert e.space_dimension() == 7
    p = TensorFiniteElement(e, (2, 3))
    t = TensorFiniteElement(e, (2, 3), True)
    return {
        "packed": (lambda: p.entity_dofs()[dim][i], lambda: [12, 13, 14, 15, 16, 17, 30, 31, 32, 33, 34, 35]),
        "transposed": (lambda: t.entity_dofs()[dim][i], lambda: [2, 5, 9, 12, 16, 19, 23, 26, 30, 33, 37, 40]),
    }
