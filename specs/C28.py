"""Families requested on product cells, for a symbolic degree and variant."""
from ufl.cell import TensorProductCell, as_cell
from finat.ufl import EnrichedElement, FiniteElement, HCurlElement, HDivElement, TensorProductElement
from symbolic import Known, Product, cell_of, product_of, seen


INTERVAL, TRIANGLE, TETRAHEDRON, QUADRILATERAL, HEXAHEDRON = [Known(c) for c in ("interval", "triangle", "tetrahedron", "quadrilateral", "hexahedron")]


def compared(r):
    """constructions compared by all that can be seen of them"""
    return {k: (lambda made=r[k][0]: seen(made()), lambda made=r[k][1]: seen(made())) for k in r}


def family(name, cell, degree, variant):
    return FiniteElement(name, cell, degree, variant=variant)


def case_vector_valued(degree: "int", variant: "str"):
    bind(as_cell, cell_of)
    bind(TensorProductCell, product_of)
    assert degree >= 1
    square = Product(INTERVAL, INTERVAL)
    box = Product(QUADRILATERAL, INTERVAL)
    c = family("Lagrange", INTERVAL, degree, variant)
    d = family("Discontinuous Lagrange", INTERVAL, degree - 1, variant)

    def make(name, cell):
        return lambda: FiniteElement(name, cell, degree, variant=variant)

    def quad(name, r):
        return family(name, QUADRILATERAL, r, variant)
    return compared({
        "RTCF": (make("RTCF", square), lambda: EnrichedElement(HDivElement(TensorProductElement(c, d, cell=square)), HDivElement(TensorProductElement(d, c, cell=square)))),
        "RTCE": (make("RTCE", square), lambda: EnrichedElement(HCurlElement(TensorProductElement(c, d, cell=square)), HCurlElement(TensorProductElement(d, c, cell=square)))),
        "NCF": (make("NCF", box), lambda: EnrichedElement(HDivElement(TensorProductElement(quad("RTCF", degree), d, cell=box)),
                                                          HDivElement(TensorProductElement(quad("DQ", degree - 1), c, cell=box)))),
        "NCE": (make("NCE", box), lambda: EnrichedElement(HCurlElement(TensorProductElement(quad("Q", degree), d, cell=box)),
                                                          HCurlElement(TensorProductElement(quad("RTCE", degree), c, cell=box)))),
    })


def case_wrong_cells(degree: "int", variant: "str"):
    bind(as_cell, cell_of)
    bind(TensorProductCell, product_of)
    assert degree >= 1
    r = {}
    for name, cells in (("RTCF", [(TRIANGLE, INTERVAL), (INTERVAL, TRIANGLE), (QUADRILATERAL, INTERVAL)]), ("RTCE", [(TRIANGLE, INTERVAL), (INTERVAL, TRIANGLE), (QUADRILATERAL, INTERVAL)]),
                        ("NCF", [(TRIANGLE, INTERVAL), (INTERVAL, INTERVAL), (INTERVAL, QUADRILATERAL), (QUADRILATERAL, QUADRILATERAL)]),
                        ("NCE", [(TRIANGLE, INTERVAL), (INTERVAL, INTERVAL), (INTERVAL, QUADRILATERAL), (QUADRILATERAL, QUADRILATERAL)])):
        for k, (a, b) in enumerate(cells):
            r["%s, wrong cell %d" % (name, k)] = (lambda name=name, a=a, b=b: FiniteElement(name, Product(a, b), degree, variant=variant), lambda: raises("ValueError"))
    return r


PRODUCTS = [(INTERVAL, INTERVAL), (TRIANGLE, INTERVAL), (QUADRILATERAL, INTERVAL), (INTERVAL, QUADRILATERAL), (INTERVAL, INTERVAL, INTERVAL), (TETRAHEDRON, INTERVAL),
            (HEXAHEDRON, INTERVAL), (QUADRILATERAL, TRIANGLE)]


def expansions(names, simplex, cube, degree, variant):
    r = {}
    for k, cells in enumerate(PRODUCTS):
        cell = Product(*cells)
        for name in names:
            r["%s on product %d" % (name, k)] = (lambda cell=cell, name=name: FiniteElement(name, cell, degree, variant=variant),
                                                 lambda cell=cell: TensorProductElement(
                *[FiniteElement(simplex if c.cellname() in ("interval", "triangle", "tetrahedron") else cube, c, degree, variant=variant) for c in cell.sub_cells()], cell=cell))
    return compared(r)


def case_continuous(degree: "int", variant: "str"):
    bind(as_cell, cell_of)
    bind(TensorProductCell, product_of)
    assert degree >= 1
    return expansions(("Q", "CG", "Lagrange", "P"), "Lagrange", "Q", degree, variant)


def case_discontinuous(degree: "int", variant: "str"):
    bind(as_cell, cell_of)
    bind(TensorProductCell, product_of)
    assert degree >= 0
    return expansions(("DQ", "DG", "Discontinuous Lagrange", "DP"), "Discontinuous Lagrange", "DQ", degree, variant)


def case_l2_mapped(degree: "int", variant: "str"):
    bind(as_cell, cell_of)
    bind(TensorProductCell, product_of)
    assert degree >= 0
    return expansions(("DQ L2", "DG L2", "DP L2"), "Discontinuous Lagrange L2", "DQ L2", degree, variant)


def case_nested(degree: "int", variant: "str"):
    """a factor that is a product itself"""
    bind(as_cell, cell_of)
    bind(TensorProductCell, product_of)
    assert degree >= 1
    inner = Product(INTERVAL, INTERVAL)
    outer = Product(inner, INTERVAL)

    def expected(simplex):
        one = FiniteElement(simplex, INTERVAL, degree, variant=variant)
        return TensorProductElement(TensorProductElement(one, one, cell=inner), one, cell=outer)
    return compared({
        "continuous": (lambda: FiniteElement("Q", outer, degree, variant=variant), lambda: expected("Lagrange")),
        "discontinuous": (lambda: FiniteElement("DQ", outer, degree, variant=variant), lambda: expected("Discontinuous Lagrange")),
        "L2 mapped": (lambda: FiniteElement("DQ L2", outer, degree, variant=variant), lambda: expected("Discontinuous Lagrange L2")),
    })


def case_forms(degree: "int", variant: "str"):
    """exterior-calculus notation"""
    bind(as_cell, cell_of)
    bind(TensorProductCell, product_of)
    assert degree >= 1
    square, box = Product(INTERVAL, INTERVAL), Product(QUADRILATERAL, INTERVAL)
    r = {}
    for cell, names in ((square, ("Q", "RTCE", "DQ")), (box, ("Q", "NCE", "NCF", "DQ"))):
        for k in range(len(names)):
            r["%d-forms in dimension %d" % (k, len(names) - 1)] = (
                lambda cell=cell, k=k: FiniteElement("Q-", cell, degree, form_degree=k, variant=variant),
                lambda cell=cell, k=k, name=names[k], top=len(names) - 1: FiniteElement(name, cell, degree - (1 if k == top else 0), variant=variant))
    return compared(r)


def case_degrees(low: "int", variant: "str"):
    """degrees a family does not have are refused on product cells too"""
    bind(as_cell, cell_of)
    bind(TensorProductCell, product_of)
    assert low < 0
    square, box = Product(INTERVAL, INTERVAL), Product(QUADRILATERAL, INTERVAL)
    r = {}
    for name, cell, first in (("Q", square, 1), ("RTCF", square, 1), ("RTCE", square, 1), ("NCF", box, 1), ("NCE", box, 1), ("DQ", square, 0), ("DQ L2", box, 0)):
        r[name] = (lambda name=name, cell=cell, first=first: FiniteElement(name, cell, low + first, variant=variant), lambda: raises("ValueError"))
    return r


def case_cells_by_name(degree: "int", variant: "str"):
    """the cells of a product may be given by their names"""
    bind(as_cell, cell_of)
    bind(TensorProductCell, product_of)
    assert degree >= 1
    square, box = Product(INTERVAL, INTERVAL), Product(QUADRILATERAL, INTERVAL)
    r = {}
    for name, cells, cell in (("Q", ("interval", "interval"), square), ("RTCF", ("interval", "interval"), square), ("NCE", ("quadrilateral", "interval"), box), ("DQ", (QUADRILATERAL, "interval"), box)):
        r[name] = (lambda name=name, cells=cells: FiniteElement(name, cells, degree, variant=variant), lambda name=name, cell=cell: FiniteElement(name, cell, degree, variant=variant))
    return compared(r)


def case_no_variant(degree: "int"):
    bind(as_cell, cell_of)
    bind(TensorProductCell, product_of)
    assert degree >= 1
    square = Product(INTERVAL, INTERVAL)
    c = FiniteElement("CG", INTERVAL, degree)
    d = FiniteElement("DG", INTERVAL, degree - 1)
    return compared({
        "RTCF": (lambda: FiniteElement("RTCF", square, degree), lambda: EnrichedElement(HDivElement(TensorProductElement(c, d, cell=square)), HDivElement(TensorProductElement(d, c, cell=square)))),
        "Q": (lambda: FiniteElement("Q", square, degree), lambda: TensorProductElement(c, c, cell=square)),
    })
