"""The table of families, entry by entry, and looking a family up on every
cell, for a symbolic order and for a family registered with symbolic data."""
from ufl.cell import Cell, TensorProductCell, as_cell
from ufl.sobolevspace import H1, H2, L2, HCurl, HDiv, HDivDiv, HCurlDiv, HEin, HInf
from finat.ufl import FiniteElement
from finat.ufl.elementlist import aliases, canonical_element_description, register_element, ufl_elements
from families import ALIASES, DIMENSIONS, FAMILIES

SPACES = {"H1": H1, "H2": H2, "L2": L2, "HCurl": HCurl, "HDiv": HDiv, "HDivDiv": HDivDiv, "HCurlDiv": HCurlDiv, "HEin": HEin, "HInf": HInf}

# rank of the reference value and the spaces each mapping can serve
MAPPINGS = {
    "identity": ((0, 1), (H1, H2, L2, HInf)),
    "custom": ((0,), (H1, H2)),
    "L2 Piola": ((0,), (L2,)),
    "physical": ((0, 1), (H1, HDiv)),
    "contravariant Piola": ((1,), (HDiv, H1, L2)),
    "covariant Piola": ((1,), (HCurl,)),
    "double covariant Piola": ((2,), (HEin,)),
    "double contravariant Piola": ((2,), (HDiv, HDivDiv)),
    "covariant contravariant Piola": ((2,), (HCurlDiv,)),
}


class Known(Cell):
    def __init__(self, name, dimension):
        self.name = name
        self.dimension = dimension

    def __repr__(self):
        return "Cell(" + self.name + ")"

    def cellname(self):
        return self.name

    def topological_dimension(self):
        return self.dimension


class Product(TensorProductCell):
    def __init__(self, dimension):
        self.dimension = dimension

    def cellname(self):
        return "product"

    def topological_dimension(self):
        return self.dimension


def case_coherent():
    r = {}
    for name in ufl_elements:
        entry = ufl_elements[name]
        family, short, rank, space, mapping, degrees, cells = entry
        r["rank suits mapping, " + name] = (lambda rank=rank, mapping=mapping: rank in MAPPINGS[mapping][0], lambda: True)
        r["space suits mapping, " + name] = (lambda space=space, mapping=mapping: space in MAPPINGS[mapping][1], lambda: True)
        r["degrees ordered, " + name] = (lambda degrees=degrees: degrees[0] is None or degrees[1] is None or degrees[0] <= degrees[1], lambda: True)
        r["known by both names, " + name] = (lambda family=family, short=short, name=name: (name in (family, short), ufl_elements[family]),
                                             lambda entry=entry: (True, entry))
    return r


SWITCHED = {"Lagrange": "Q", "Discontinuous Lagrange": "DQ", "Discontinuous Lagrange L2": "DQ L2"}


def described(family, cell, order, product):
    """what looking a family up must give on a cell it exists on"""
    short, rank, space, mapping, degrees, cells = FAMILIES[family]
    if degrees[0] is not None and order is not None and order < degrees[0]:
        return raises("ValueError")
    if degrees[1] is not None and order is not None and order > degrees[1]:
        return raises("ValueError")
    dimension = cell.topological_dimension()
    bubbles = ("Guzman-Neilan 1st kind H1", "Guzman-Neilan 2nd kind H1", "Guzman-Neilan H1(div)", "Guzman-Neilan Bubble",
               "Bernardi-Raugel", "Bernardi-Raugel Bubble")
    name = SWITCHED.get(family, family) if product or cell.cellname() in ("quadrilateral", "hexahedron", "tesseract") else family
    return name, short, order, (dimension,)*rank, SPACES[space], mapping, dimension if family in bubbles else order


def lookup(family, order):
    cells = FAMILIES[family][-1]
    r = {}
    for cellname in DIMENSIONS:
        cell = Known(cellname, DIMENSIONS[cellname])
        r["%s on %s" % (family, cellname)] = (lambda cell=cell: canonical_element_description(family, cell, order, None),
                                              lambda cell=cell, cellname=cellname: described(family, cell, order, False) if cellname in cells else raises("ValueError"))
    return r


def case_scalar_families(order: "int"):
    r = {}
    for family in FAMILIES:
        if FAMILIES[family][1] == 0:
            r.update(lookup(family, order))
    return r


def case_vector_families(order: "int"):
    r = {}
    for family in FAMILIES:
        if FAMILIES[family][1] == 1:
            r.update(lookup(family, order))
    return r


def case_tensor_families(order: "int"):
    r = {}
    for family in FAMILIES:
        if FAMILIES[family][1] == 2:
            r.update(lookup(family, order))
    return r


def case_no_order():
    r = {}
    for family in FAMILIES:
        for cellname in DIMENSIONS:
            if cellname in FAMILIES[family][-1] and not (family in SWITCHED and cellname in ("quadrilateral", "hexahedron", "tesseract")):
                cell = Known(cellname, DIMENSIONS[cellname])
                r["%s on %s" % (family, cellname)] = (lambda family=family, cell=cell: canonical_element_description(family, cell, None, None),
                                                      lambda family=family, cell=cell: described(family, cell, None, False))
    return r


def case_short_names(order: "int"):
    r = {}
    for family in FAMILIES:
        short = FAMILIES[family][0]
        if short is not None:
            for cellname in DIMENSIONS:
                if cellname in FAMILIES[family][-1]:
                    cell = Known(cellname, DIMENSIONS[cellname])
                    r["%s on %s" % (short, cellname)] = (lambda short=short, cell=cell: canonical_element_description(short, cell, order, None),
                                                         lambda family=family, cell=cell: described(family, cell, order, False))
    return r


def case_aliases(order: "int"):
    r = {}
    for alias in ALIASES:
        for cellname in ("interval", "triangle", "tetrahedron"):
            if cellname in FAMILIES[ALIASES[alias]][-1]:
                cell = Known(cellname, DIMENSIONS[cellname])
                r["%s on %s" % (alias, cellname)] = (lambda alias=alias, cell=cell: canonical_element_description(alias, cell, order, None),
                                                     lambda alias=alias, cell=cell: described(ALIASES[alias], cell, order, False))
        r["%s without cell" % alias] = (lambda alias=alias: canonical_element_description(alias, None, order, None), lambda: raises("ValueError"))
    return r


def cell_of(cell):
    """what as_cell makes of a cell"""
    if cell is None:
        return raises("ValueError")
    if isinstance(cell, str):
        return Known(cell, DIMENSIONS[cell])
    return cell


def case_elements(degree: "int", qs: "str", v: "str"):
    """an element is what the entry of its family says"""
    bind(as_cell, cell_of)

    def about(e):
        return e.family(), e.degree(), e.reference_value_shape, e.sobolev_space, e.mapping(), e.cell.cellname(), e.quadrature_scheme(), e.variant()

    def within(family):
        low, high = FAMILIES[family][4]
        return (low is None or degree >= low) and (high is None or degree <= high)

    def expected(family, cell, qs, v):
        if not within(family):
            return raises("ValueError")
        return described(family, cell, degree, False)[0:1] + described(family, cell, degree, False)[2:6] + (cell.cellname(), qs, v)
    r = {}
    for family in FAMILIES:
        for cellname in DIMENSIONS:
            if cellname in FAMILIES[family][-1]:
                cell = Known(cellname, DIMENSIONS[cellname])
                key = "%s on %s" % (family, cellname)
                r[key] = (lambda family=family, cell=cell: about(FiniteElement(family, cell, degree, quad_scheme=qs, variant=v)), lambda family=family, cell=cell: expected(family, cell, qs, v))
                r[key + ", by name"] = (lambda family=family, cellname=cellname: about(FiniteElement(family, cellname, degree)), lambda family=family, cell=cell: expected(family, cell, None, None))
                r[key + ", kind"] = (lambda family=family, cell=cell: (FiniteElement(family, cell, degree)._is_globally_constant(), FiniteElement(family, cell, degree)._is_linear()),
                                     lambda family=family, cell=cell: (family == "Real", described(family, cell, degree, False)[0] == "Lagrange" and degree == 1)
                                     if within(family) else raises("ValueError"))
    r["no cell"] = (lambda: FiniteElement("Real", None, 0).cell, lambda: None)
    r["number for a variant"] = (lambda: FiniteElement("Lagrange", Known("triangle", 2), 1, variant=3), lambda: raises("ValueError"))
    return r


def case_product_cells(order: "int", dimension: "int"):
    """families on a product cell, whatever its factors"""
    cell = Product(dimension)
    r = {}
    for family in FAMILIES:
        r[family] = (lambda family=family: canonical_element_description(family, cell, order, None), lambda family=family: described(family, cell, order, True))
    return r


def case_any_family(order: "int", low: "int", high: "int", dimension: "int", space, rank: "int", mapping: "str", cellname: "str"):
    """a family registered by the user"""
    assert dimension >= 0
    short = "Sp"
    register_element("Special", short, rank, space, mapping, (low, high), ("triangle", cellname))
    register_element("Unnamed", None, rank, space, mapping, (low, None), ("triangle",))
    cell = Known("triangle", dimension)

    def shape():
        if rank == 0:
            return ()
        if rank == 1:
            return (dimension,)
        return (dimension, dimension)

    def expected():
        if rank not in (0, 1, 2) or order < low or order > high:
            return raises("ValueError")
        return "Special", short, order, shape(), space, mapping, order

    def tuples(a, b):
        if rank not in (0, 1, 2) or a < low or b < low or a > high or b > high:
            return raises("ValueError")
        return "Special", short, (a, b), shape(), space, mapping, (a, b)
    return {
        "by name": (lambda: canonical_element_description("Special", cell, order, None), expected),
        "by short name": (lambda: canonical_element_description(short, cell, order, None), expected),
        "degree in each direction": (lambda: canonical_element_description("Special", cell, (order, dimension), None), lambda: tuples(order, dimension)),
        "unknown cell": (lambda: canonical_element_description("Unnamed", Known("prism", 3), order, None), lambda: raises("ValueError")),
        "no cell": (lambda: canonical_element_description("Special", None, order, None),
                    lambda: ("Special", short, order, (), space, mapping, order) if rank == 0 and low <= order <= high else raises("ValueError")),
        "unknown family": (lambda: canonical_element_description("Nothing", cell, order, None), lambda: raises("ValueError")),
        "registered twice": (lambda: register_element("Special", "Other", 0, space, mapping, (low, high), ()), lambda: raises("ValueError")),
    }
