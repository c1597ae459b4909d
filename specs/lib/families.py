"""Published families: name -> (short name, rank of the reference value, Sobolev
space, mapping, lowest and highest degree, cells), and their other names."""

SIMPLICES = ("interval", "triangle", "tetrahedron", "pentatope")
CUBES = ("interval", "quadrilateral", "hexahedron", "tesseract")
ANY = (None, "vertex", "interval", "triangle", "tetrahedron", "pentatope", "quadrilateral", "hexahedron", "tesseract", "prism", "pyramid")
DIMENSIONS = {"vertex": 0, "interval": 1, "triangle": 2, "tetrahedron": 3, "pentatope": 4, "quadrilateral": 2, "hexahedron": 3, "tesseract": 4,
              "prism": 3, "pyramid": 3}

FAMILIES = {
    "Lagrange": ("CG", 0, "H1", "identity", (1, None), ANY),
    "Brezzi-Douglas-Marini": ("BDM", 1, "HDiv", "contravariant Piola", (1, None), SIMPLICES[1:]),
    "Discontinuous Lagrange": ("DG", 0, "L2", "identity", (0, None), ANY),
    "Discontinuous Taylor": ("TDG", 0, "L2", "identity", (0, None), SIMPLICES),
    "Nedelec 1st kind H(curl)": ("N1curl", 1, "HCurl", "covariant Piola", (1, None), SIMPLICES[1:]),
    "Nedelec 2nd kind H(curl)": ("N2curl", 1, "HCurl", "covariant Piola", (1, None), SIMPLICES[1:]),
    "Raviart-Thomas": ("RT", 1, "HDiv", "contravariant Piola", (1, None), SIMPLICES[1:]),
    "Brezzi-Douglas-Fortin-Marini": ("BDFM", 1, "HDiv", "contravariant Piola", (1, None), SIMPLICES[1:]),
    "Crouzeix-Raviart": ("CR", 0, "L2", "identity", (1, 1), SIMPLICES[1:]),
    "Discontinuous Raviart-Thomas": ("DRT", 1, "L2", "contravariant Piola", (1, None), SIMPLICES[1:]),
    "Kong-Mulder-Veldhuizen": ("KMV", 0, "H1", "identity", (1, None), SIMPLICES[1:]),
    "Regge": ("Regge", 2, "HEin", "double covariant Piola", (0, None), SIMPLICES),
    "Hellan-Herrmann-Johnson": ("HHJ", 2, "HDivDiv", "double contravariant Piola", (0, None), ("triangle", "tetrahedron")),
    "Gopalakrishnan-Lederer-Schoberl 1st kind": ("GLS", 2, "HCurlDiv", "covariant contravariant Piola", (1, None), SIMPLICES[1:]),
    "Gopalakrishnan-Lederer-Schoberl 2nd kind": ("GLS2", 2, "HCurlDiv", "covariant contravariant Piola", (0, None), SIMPLICES[1:]),
    "Nonconforming Arnold-Winther": ("AWnc", 2, "HDiv", "double contravariant Piola", (2, 2), ("triangle",)),
    "Conforming Arnold-Winther": ("AWc", 2, "HDiv", "double contravariant Piola", (3, None), ("triangle",)),
    "Hu-Zhang": ("HZ", 2, "HDiv", "double contravariant Piola", (3, None), ("triangle",)),
    "Bernardi-Raugel": ("BR", 1, "H1", "contravariant Piola", (1, None), SIMPLICES[1:]),
    "Bernardi-Raugel Bubble": ("BRB", 1, "H1", "contravariant Piola", (None, None), SIMPLICES[1:]),
    "Mardal-Tai-Winther": ("MTW", 1, "H1", "contravariant Piola", (3, 3), ("triangle",)),
    "Hermite": ("HER", 0, "H1", "custom", (3, 3), SIMPLICES),
    "Argyris": ("ARG", 0, "H2", "custom", (5, None), ("triangle",)),
    "Bell": ("BELL", 0, "H2", "custom", (5, 5), ("triangle",)),
    "Morley": ("MOR", 0, "H2", "custom", (2, 2), ("triangle",)),
    "QuadraticPowellSabin6": ("PS6", 0, "H2", "custom", (2, 2), ("triangle",)),
    "QuadraticPowellSabin12": ("PS12", 0, "H2", "custom", (2, 2), ("triangle",)),
    "Hsieh-Clough-Tocher": ("HCT", 0, "H2", "custom", (3, None), ("triangle",)),
    "Reduced-Hsieh-Clough-Tocher": ("HCT-red", 0, "H2", "custom", (3, 3), ("triangle",)),
    "Johnson-Mercier": ("JM", 2, "HDiv", "double contravariant Piola", (1, 1), SIMPLICES[1:]),
    "Arnold-Qin": ("AQ", 1, "H1", "identity", (2, 2), ("triangle",)),
    "Reduced-Arnold-Qin": ("AQ-red", 1, "H1", "contravariant Piola", (2, 2), ("triangle",)),
    "Christiansen-Hu": ("CH", 1, "H1", "contravariant Piola", (1, 1), SIMPLICES[1:]),
    "Alfeld-Sorokina": ("AS", 1, "H1", "contravariant Piola", (2, 2), SIMPLICES[1:]),
    "Guzman-Neilan 1st kind H1": ("GN", 1, "H1", "contravariant Piola", (1, None), SIMPLICES[1:]),
    "Guzman-Neilan 2nd kind H1": ("GN2", 1, "H1", "contravariant Piola", (1, None), SIMPLICES[1:]),
    "Guzman-Neilan H1(div)": ("GNH1div", 1, "H1", "contravariant Piola", (2, None), SIMPLICES[1:]),
    "Guzman-Neilan Bubble": ("GNB", 1, "H1", "contravariant Piola", (None, None), SIMPLICES[1:]),
    "Boundary Quadrature": ("BQ", 0, "L2", "identity", (0, None), ANY),
    "Bubble": ("B", 0, "H1", "identity", (2, None), SIMPLICES),
    "FacetBubble": ("FB", 0, "H1", "identity", (2, None), SIMPLICES),
    "Quadrature": ("Quadrature", 0, "L2", "identity", (0, None), ANY),
    "Real": ("R", 0, "HInf", "identity", (0, 0), ANY + ("TensorProductCell",)),
    "Undefined": ("U", 0, "L2", "identity", (0, None), ANY),
    "Radau": ("Rad", 0, "L2", "identity", (0, None), ("interval",)),
    "HDiv Trace": ("HDivT", 0, "L2", "identity", (0, None), ANY),
    "Gauss-Legendre": ("GL", 0, "L2", "identity", (0, None), ("interval",)),
    "Gauss-Lobatto-Legendre": ("GLL", 0, "H1", "identity", (1, None), ("interval",)),
    "Bernstein": (None, 0, "H1", "identity", (1, None), SIMPLICES),
    "Q": (None, 0, "H1", "identity", (1, None), CUBES),
    "DQ": (None, 0, "L2", "identity", (0, None), CUBES),
    "RTCE": (None, 1, "HCurl", "covariant Piola", (1, None), ("quadrilateral",)),
    "RTCF": (None, 1, "HDiv", "contravariant Piola", (1, None), ("quadrilateral",)),
    "NCE": (None, 1, "HCurl", "covariant Piola", (1, None), ("hexahedron",)),
    "NCF": (None, 1, "HDiv", "contravariant Piola", (1, None), ("hexahedron",)),
    "S": (None, 0, "H1", "identity", (1, None), CUBES),
    "DPC": (None, 0, "L2", "identity", (0, None), CUBES),
    "BDMCE": (None, 1, "HCurl", "covariant Piola", (1, None), ("quadrilateral",)),
    "BDMCF": (None, 1, "HDiv", "contravariant Piola", (1, None), ("quadrilateral",)),
    "SminusE": ("SminusE", 1, "HCurl", "covariant Piola", (1, None), ("quadrilateral", "hexahedron")),
    "SminusF": ("SminusF", 1, "HDiv", "contravariant Piola", (1, None), ("quadrilateral",)),
    "SminusDiv": ("SminusDiv", 1, "HDiv", "contravariant Piola", (1, None), ("quadrilateral", "hexahedron")),
    "SminusCurl": ("SminusCurl", 1, "HCurl", "covariant Piola", (1, None), ("quadrilateral", "hexahedron")),
    "AAE": (None, 1, "HCurl", "covariant Piola", (1, None), ("hexahedron",)),
    "AAF": (None, 1, "HDiv", "contravariant Piola", (1, None), ("hexahedron",)),
    "DPC L2": (None, 0, "L2", "L2 Piola", (1, None), CUBES),
    "DQ L2": (None, 0, "L2", "L2 Piola", (0, None), CUBES),
    "Gauss-Legendre L2": ("GL L2", 0, "L2", "L2 Piola", (0, None), ("interval",)),
    "Discontinuous Lagrange L2": ("DG L2", 0, "L2", "L2 Piola", (0, None), ANY),
    "Extended-Gauss-Legendre": ("EGL", 0, "H1", "identity", (2, None), ("interval",)),
    "Extended-Gauss-Legendre Edge": ("EGL-Edge", 0, "L2", "identity", (1, None), ("interval",)),
    "Extended-Gauss-Legendre Edge L2": ("EGL-Edge L2", 0, "L2", "L2 Piola", (1, None), ("interval",)),
    "Gauss-Lobatto-Legendre Edge": ("GLL-Edge", 0, "L2", "identity", (0, None), ("interval",)),
    "Gauss-Lobatto-Legendre Edge L2": ("GLL-Edge L2", 0, "L2", "L2 Piola", (0, None), ("interval",)),
    "Direct Serendipity": ("Sdirect", 0, "H1", "physical", (1, None), ("quadrilateral",)),
    "Direct Serendipity Full H(div)": ("Sdirect H(div)", 1, "HDiv", "physical", (1, None), ("quadrilateral",)),
    "Direct Serendipity Reduced H(div)": ("Sdirect H(div) red", 1, "HDiv", "physical", (1, None), ("quadrilateral",)),
}

ALIASES = {
    "Lobatto": "Gauss-Lobatto-Legendre",
    "Lob": "Gauss-Lobatto-Legendre",
    "Nedelec 1st kind H(div)": "Raviart-Thomas",
    "N1div": "Raviart-Thomas",
    "Nedelec 2nd kind H(div)": "Brezzi-Douglas-Marini",
    "N2div": "Brezzi-Douglas-Marini",
    "Discontinuous Lagrange Trace": "HDiv Trace",
    "DGT": "HDiv Trace",
    "P": "Lagrange",
    "DP": "Discontinuous Lagrange",
    "RTE": "Nedelec 1st kind H(curl)",
    "RTF": "Raviart-Thomas",
    "N1E": "Nedelec 1st kind H(curl)",
    "N1F": "Raviart-Thomas",
    "BDME": "Nedelec 2nd kind H(curl)",
    "BDMF": "Brezzi-Douglas-Marini",
    "N2E": "Nedelec 2nd kind H(curl)",
    "N2F": "Brezzi-Douglas-Marini",
    "DP L2": "Discontinuous Lagrange L2",
}
