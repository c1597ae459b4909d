"""Run-time tabulated elements: one uniquely named variable per derivative
multi-index, of shape points + basis functions, for unknown degree, order,
variant, shift and points."""
from FIAT.polynomial_set import mis
from FIAT.reference_element import LINE

import gem

from finat.runtime_tabulated import RuntimeTabulated


def name(variant, degree, alpha, shift, cont, side):
    return "rt_" + variant + "_" + str(degree) + "_" + "".join(str(a) for a in alpha) + "_" + str(shift) + "_" + cont + "_" + side


def tables(e, variant, degree, shift, cont, side, order, ps, entity):
    n = degree + 1
    shape = tuple(i.extent for i in ps.indices) + (n,)
    v = lambda a: gem.partial_indexed(gem.Variable(name(variant, degree, a, shift, cont, side), shape), ps.indices)
    dim = e.cell.get_spatial_dimension()
    return {
        "tables": (lambda: e.basis_evaluation(order, ps, entity), lambda: {a: v(a) for k in range(order + 1) for a in mis(dim, k)}),
        "order 0 on an interval": (lambda: e.basis_evaluation(0, ps), lambda: {a: v(a) for a in mis(dim, 0)}),
        "space_dimension": (lambda: e.space_dimension(), lambda: n),
        "index_shape": (lambda: e.index_shape, lambda: (n,)),
        "value_shape": (lambda: e.value_shape, lambda: ()),
        "mapping": (lambda: e.mapping, lambda: "affine"),
        "degree": (lambda: e.degree, lambda: degree),
        "entity_dofs": (lambda: e.entity_dofs(), lambda: raises("NotImplementedError")),
        "point_evaluation": (lambda: e.point_evaluation(order, sym("pt", "gem"), entity), lambda: raises("NotImplementedError")),
    }


def case_continuous(cell: "Cell", degree: "int", variant: "str", shift: "int", order: "int", ps: "PointSet", entity):
    assert cell.get_shape() == LINE
    assert shift >= 0
    e = RuntimeTabulated(cell, degree, variant, shift, None, True)
    return {"cell": (lambda: e.cell, lambda: cell), "formdegree": (lambda: e.formdegree, lambda: 0),
            **tables(e, variant, degree, shift, "c", "", order, ps, entity)}


def case_discontinuous(cell: "Cell", degree: "int", variant: "str", shift: "int", order: "int", ps: "PointSet", entity):
    assert cell.get_shape() == LINE
    assert shift >= 0
    e = RuntimeTabulated(cell, degree, variant=variant, shift_axes=shift, continuous=False)
    return {"cell": (lambda: e.cell, lambda: cell), "formdegree": (lambda: e.formdegree, lambda: cell.get_spatial_dimension()),
            **tables(e, variant, degree, shift, "d", "", order, ps, entity)}


def case_plus(cell: "Cell", degree: "int", variant: "str", shift: "int", order: "int", ps: "PointSet", entity):
    assert cell.get_shape() == LINE
    assert shift >= 0
    return tables(RuntimeTabulated(cell, degree, variant, shift, "+"), variant, degree, shift, "c", "p", order, ps, entity)


def case_minus(cell: "Cell", degree: "int", variant: "str", order: "int", ps: "PointSet", entity):
    assert cell.get_shape() == LINE
    return tables(RuntimeTabulated(cell, degree, variant, restriction="-"), variant, degree, 0, "c", "m", order, ps, entity)


def case_refused(cell: "Cell", degree: "int", variant: "str"):
    assert cell.get_shape() != LINE
    return {"not an interval": (lambda: RuntimeTabulated(cell, degree, variant), lambda: raises("NotImplementedError"))}
