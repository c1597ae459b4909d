L = "finat/ufl/elementlist.py"
EDITS = [
    ("same", "C27", L, """    family, r = _feec_elements[family][n - 1][k]

    return family, r


def feec_element_l2""", """    by_dimension = _feec_elements[family]
    return by_dimension[n - 1][k]


def feec_element_l2"""),
    ("same", "C27", L, """    _feec_elements["P- L2"] = _feec_elements["P- Lambda L2"]
    _feec_elements["P L2"] = _feec_elements["P Lambda L2"]
    _feec_elements["Q- L2"] = _feec_elements["Q- Lambda L2"]
    _feec_elements["S L2"] = _feec_elements["S Lambda L2"]
""", """    for short in ("P-", "P", "Q-", "S"):
        _feec_elements[short + " L2"] = _feec_elements[short + " Lambda L2"]
"""),
    ("same", "C27", L, """register_alias("P- Lambda", lambda family, dim, order,
               degree: feec_element(family, dim, order, degree))
register_alias("P Lambda", lambda family, dim, order,
               degree: feec_element(family, dim, order, degree))
register_alias("Q- Lambda", lambda family, dim, order,
               degree: feec_element(family, dim, order, degree))
register_alias("S Lambda", lambda family, dim, order,
               degree: feec_element(family, dim, order, degree))
""", """for _name in ("P- Lambda", "P Lambda", "Q- Lambda", "S Lambda"):
    register_alias(_name, feec_element)
"""),
    ("same", "C27", L, """        "P- Lambda": (
            (("P", r), ("DP", r - 1)),
            (("P", r), ("RTE", r), ("DP", r - 1)),
            (("P", r), ("N1E", r), ("N1F", r), ("DP", r - 1)),
        ),
""", """        "P- Lambda": _trimmed(r),
"""  ) if False else ("same", "C27", L, """        "P- Lambda": (
            (("P", r), ("DP", r - 1)),
            (("P", r), ("RTE", r), ("DP", r - 1)),
            (("P", r), ("N1E", r), ("N1F", r), ("DP", r - 1)),
        ),
""", """        "P- Lambda": [
            [("P", r), ("DP", r - 1)],
            [("P", r), ("RTE", r), ("DP", r - 1)],
            [("P", r), ("N1E", r), ("N1F", r), ("DP", r - 1)],
        ],
"""),
    ("bug", "C27", L, '(("P", r), ("N1E", r), ("N1F", r), ("DP L2", r - 1)),', '(("P", r), ("N1F", r), ("N1E", r), ("DP L2", r - 1)),'),
    ("bug", "C27", L, '(("Q", r), ("RTCE", r), ("DQ", r - 1)),', '(("Q", r), ("RTCF", r), ("DQ", r - 1)),'),
    ("bug", "C27", L, '(("S", r), ("AAE", r), ("AAF", r), ("DPC", r)),', '(("S", r), ("AAE", r), ("AAF", r), ("DPC", r - 1)),'),
]
