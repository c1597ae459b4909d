"""Exterior-calculus notation for a symbolic order: every notation, dimension
and form degree, against the published table of spaces."""
from ufl.cell import Cell, TensorProductCell
from ufl.sobolevspace import H1, H2, L2, HCurl, HDiv, HDivDiv, HCurlDiv, HEin, HInf
from finat.ufl.elementlist import canonical_element_description, feec_element, feec_element_l2
from families import DIMENSIONS, FAMILIES

SPACES = {"H1": H1, "L2": L2, "HCurl": HCurl, "HDiv": HDiv}

# family and loss of order, by dimension and form degree
FORMS = {
    "P-": ((("Lagrange", 0), ("Discontinuous Lagrange", 1)),
           (("Lagrange", 0), ("Nedelec 1st kind H(curl)", 0), ("Discontinuous Lagrange", 1)),
           (("Lagrange", 0), ("Nedelec 1st kind H(curl)", 0), ("Raviart-Thomas", 0), ("Discontinuous Lagrange", 1))),
    "P": ((("Lagrange", 0), ("Discontinuous Lagrange", 0)),
          (("Lagrange", 0), ("Nedelec 2nd kind H(curl)", 0), ("Discontinuous Lagrange", 0)),
          (("Lagrange", 0), ("Nedelec 2nd kind H(curl)", 0), ("Brezzi-Douglas-Marini", 0), ("Discontinuous Lagrange", 0))),
    "Q-": ((("Q", 0), ("DQ", 1)),
           (("Q", 0), ("RTCE", 0), ("DQ", 1)),
           (("Q", 0), ("NCE", 0), ("NCF", 0), ("DQ", 1))),
    "S": ((("S", 0), ("DPC", 0)),
          (("S", 0), ("BDMCE", 0), ("DPC", 0)),
          (("S", 0), ("AAE", 0), ("AAF", 0), ("DPC", 0))),
}
CELLS = {"P-": ("interval", "triangle", "tetrahedron"), "P": ("interval", "triangle", "tetrahedron"),
         "Q-": ("interval", "quadrilateral", "hexahedron"), "S": ("interval", "quadrilateral", "hexahedron")}


class Known(Cell):
    def __init__(self, name):
        self.name = name

    def cellname(self):
        return self.name

    def topological_dimension(self):
        return DIMENSIONS[self.name]


class Product(TensorProductCell):
    def __init__(self, dimension):
        self.dimension = dimension

    def cellname(self):
        return "product"

    def topological_dimension(self):
        return self.dimension


def described(notation, n, k, r, l2):
    family, loss = FORMS[notation][n - 1][k]
    if l2 and k == n:
        family = family + " L2"
    order = r - loss
    short, rank, space, mapping, degrees, cells = FAMILIES[family]
    if order < degrees[0]:
        return raises("ValueError")
    assert degrees[1] is None
    return family, short, order, (n,)*rank, SPACES[space], mapping, order


def resolution(spelling, notation, r, l2):
    out = {}
    for n in range(1, 4):
        cell = Known(CELLS[notation][n - 1])
        for k in range(n + 1):
            out["%s, %d-forms in dimension %d" % (spelling, k, n)] = (lambda cell=cell, k=k: canonical_element_description(spelling, cell, r, k),
                                                                     lambda n=n, k=k: described(notation, n, k, r, l2))
        out["%s, no such forms in dimension %d" % (spelling, n)] = (lambda n=n, cell=cell: canonical_element_description(spelling, cell, r, n + 1), lambda: raises())
    return out


def case_trimmed(r: "int"):
    return {**resolution("P-", "P-", r, False), **resolution("P- Lambda", "P-", r, False),
            **resolution("P- L2", "P-", r, True), **resolution("P- Lambda L2", "P-", r, True)}


def case_full(r: "int"):
    return {**resolution("P", "P", r, False), **resolution("P Lambda", "P", r, False),
            **resolution("P L2", "P", r, True), **resolution("P Lambda L2", "P", r, True)}


def case_tensor(r: "int"):
    return {**resolution("Q-", "Q-", r, False), **resolution("Q- Lambda", "Q-", r, False),
            **resolution("Q- L2", "Q-", r, True), **resolution("Q- Lambda L2", "Q-", r, True)}


def case_serendipity(r: "int"):
    return {**resolution("S", "S", r, False), **resolution("S Lambda", "S", r, False),
            **resolution("S L2", "S", r, True), **resolution("S Lambda L2", "S", r, True)}


def case_product_cells(r: "int"):
    out = {}
    for spelling, l2 in (("Q-", False), ("Q- Lambda", False), ("Q- L2", True), ("Q- Lambda L2", True)):
        for n in (2, 3):
            for k in range(n + 1):
                out["%s, %d-forms in dimension %d" % (spelling, k, n)] = (
                    lambda spelling=spelling, n=n, k=k: canonical_element_description(spelling, Product(n), r, k),
                    lambda l2=l2, n=n, k=k: described("Q-", n, k, r, l2))
    return out


def case_spellings(r: "int"):
    """long and short spellings are one table; the L2 table differs in the top form only"""
    out = {}
    for notation in FORMS:
        for n in range(1, 4):
            for k in range(n + 1):
                where = ", %d-forms in dimension %d" % (k, n)
                out[notation + where] = (lambda notation=notation, n=n, k=k: feec_element(notation, n, r, k),
                                         lambda notation=notation, n=n, k=k: feec_element(notation + " Lambda", n, r, k))
                out[notation + " L2" + where] = (lambda notation=notation, n=n, k=k: feec_element_l2(notation + " L2", n, r, k),
                                                 lambda notation=notation, n=n, k=k: feec_element_l2(notation + " Lambda L2", n, r, k))
                out[notation + " with L2 pullback" + where] = (
                    lambda notation=notation, n=n, k=k: feec_element_l2(notation + " L2", n, r, k),
                    lambda notation=notation, n=n, k=k: with_pullback(feec_element(notation, n, r, k), k == n))
    return out


def with_pullback(found, top):
    return (found[0] + " L2", found[1]) if top else found


def case_plain_names(r: "int"):
    """without a form degree the short names mean the scalar families"""
    return {
        "P": (lambda: canonical_element_description("P", Known("triangle"), r, None)[0] if r >= 1 else None, lambda: "Lagrange" if r >= 1 else None),
        "S": (lambda: canonical_element_description("S", Known("quadrilateral"), r, None)[0] if r >= 1 else None, lambda: "S" if r >= 1 else None),
    }
