L = "finat/ufl/elementlist.py"
EDITS = [
    ("bug", "C26", L, '"Crouzeix-Raviart", "CR", 0, L2, "identity", (1, 1)', '"Crouzeix-Raviart", "CR", 0, L2, "identity", (1, 2)'),
    ("bug", "C26", L, '"Hermite", "HER", 0, H1, "custom"', '"Hermite", "HER", 0, H1, "identity"'),
    ("bug", "C26", L, '"HHJ", 2, HDivDiv', '"HHJ", 1, HDivDiv'),
    ("bug", "C26", L, '"NCF", None, 1, HDiv, "contravariant Piola"', '"NCF", None, 1, HDiv, "covariant Piola"'),
    ("bug", "C26", L, 'register_alias("N2F", lambda family, dim, order, degree:\n               ("Brezzi-Douglas-Marini", order))', 'register_alias("N2F", lambda family, dim, order, degree:\n               ("Raviart-Thomas", order))')
    if False else ("bug", "C26", L, '"Discontinuous Lagrange L2", order))\n\nregister_alias("P- Lambda L2"', '"Discontinuous Lagrange", order))\n\nregister_alias("P- Lambda L2"'),
    ("bug", "C26", L, "(asarray(order) <= kmax).all()", "(asarray(order) <= kmax).any()"),
    ("bug", "C26", L, "(asarray(order) >= kmin).all()", "(asarray(order) > kmin).all()"),
    ("bug", "C26", L, "kmax is None or", "not kmax or"),
    ("bug", "C26", L, "if cellname in set(cubes) - set(simplices) or isinstance(cell, TensorProductCell):", "if cellname in cubes or isinstance(cell, TensorProductCell):"),
    ("bug", "C26", L, "if cellname in set(cubes) - set(simplices) or isinstance(cell, TensorProductCell):", "if cellname in ('quadrilateral', 'hexahedron') or isinstance(cell, TensorProductCell):"),
    ("bug", "C26", L, '            family = "DQ L2"', '            family = "DQ"'),
    ("bug", "C26", L, '("Guzman-Neilan", "Bernardi-Raugel")', '("Guzman-Neilan 1st", "Bernardi-Raugel")'),
    ("bug", "C26", L, "        reference_value_shape = (tdim, tdim)", "        reference_value_shape = (tdim, 2)"),
    ("bug", "C26", L, "not (cellname is None or cellname in cellnames)", "not (cellname is None or cellname in any_cell)"),
    ("bug", "C26", L, "    if short_name is not None:\n        ufl_elements[short_name] = (family, short_name,", "    if short_name is not None:\n        ufl_elements[short_name] = (short_name, short_name,"),
    ("bug", "C26", L, "    if family in ufl_elements:\n        raise ValueError(f", "    if short_name in ufl_elements:\n        raise ValueError(f"),
    ("same", "C26", L, "    if value_rank == 2:\n        # Tensor valued fundamental elements in HEin have this shape\n        if tdim is None:\n            raise ValueError(\"Cannot infer shape of element without topological and geometric dimensions.\")\n        reference_value_shape = (tdim, tdim)\n    elif value_rank == 1:",
     "    if value_rank == 2:\n        if tdim is None:\n            raise ValueError(\"Cannot infer shape.\")\n        reference_value_shape = 2 * (tdim,)\n    elif value_rank == 1:"),
    ("same", "C26", L, "    entry = 0\n" if False else "        kmin, kmax = krange\n", "        kmin = krange[0]\n        kmax = krange[1]\n"),
    ("same", "C26", L, 'cubes = ("interval", "quadrilateral", "hexahedron", "tesseract")', 'cubes = ("interval",) + ("quadrilateral", "hexahedron") + ("tesseract",)'),
    ("same", "C26", L, "    while family in aliases:\n        if tdim is None:\n            raise ValueError(\"Need dimension to handle element aliases.\")\n        (family, order) = aliases[family](family, tdim, order, form_degree)",
     "    while family in aliases:\n        if tdim is None:\n            raise ValueError(\"Need dimension to handle element aliases.\")\n        resolve = aliases[family]\n        family, order = resolve(family, tdim, order, form_degree)"),
    ("same", "C26", L, "not (kmin is None or (asarray(order) >= kmin).all())", "kmin is not None and not (asarray(order) >= kmin).all()"),
    ("same", "C26", L, "any(bubble in family for bubble in (\"Guzman-Neilan\", \"Bernardi-Raugel\"))", "\"Guzman-Neilan\" in family or family.startswith(\"Bernardi-Raugel\")"),
    ("bug", "C27", L, '(("P", r), ("N1E", r), ("N1F", r), ("DP", r - 1)),', '(("P", r), ("N1E", r), ("N2F", r), ("DP", r - 1)),'),
    ("bug", "C27", L, '(("Q", r), ("NCE", r), ("NCF", r), ("DQ L2", r - 1)),', '(("Q", r), ("NCE", r), ("NCF", r), ("DQ L2", r)),'),
    ("bug", "C27", L, '(("S", r), ("AAE", r), ("AAF", r), ("DPC", r)),', '(("S", r), ("AAF", r), ("AAE", r), ("DPC", r)),'),
    ("same", "C27", L, 'if form_degree is not None and family in ("P", "S"):', 'if form_degree and family in ("P", "S"):'),
    ("bug", "C27", L, 'if form_degree is not None and family in ("P L2", "S L2"):', 'if form_degree and family in ("P L2", "S L2"):'),
    ("bug", "C27", L, 'family, order = feec_element_l2(family, tdim, order, form_degree)', 'family, order = feec_element_l2(family, 3, order, form_degree)'),
    ("bug", "C27", L, '_feec_elements["S L2"] = _feec_elements["S Lambda L2"]', '_feec_elements["S L2"] = _feec_elements["Q- Lambda L2"]'),
    ("bug", "C27", L, 'register_alias("N2F", lambda family, dim, order,\n               degree: ("Brezzi-Douglas-Marini", order))', 'register_alias("N2F", lambda family, dim, order,\n               degree: ("Brezzi-Douglas-Marini", dim))'),
    ("same", "C27", L, "    family, r = _feec_elements[family][n - 1][k]\n\n    return family, r\n\n\ndef feec_element_l2", "    by_dimension = _feec_elements[family]\n    return by_dimension[n - 1][k]\n\n\ndef feec_element_l2"),
]
