F = "finat/ufl/finiteelement.py"
EDITS = [
    ("bug", "C28", F, '                D_elt = FiniteElement("DG", "interval", degree - 1, variant=variant)', '                D_elt = FiniteElement("DG", "interval", degree - 1)'),
    ("bug", "C28", F, 'EnrichedElement(HDiv(CxD_elt), HDiv(DxC_elt))', 'EnrichedElement(HDiv(DxC_elt), HDiv(CxD_elt))'),
    ("bug", "C28", F, 'Qd_elt = FiniteElement("DQ", "quadrilateral", degree - 1, variant=variant)', 'Qd_elt = FiniteElement("DQ", "quadrilateral", degree, variant=variant)'),
    ("bug", "C28", F, 'Qd_elt = FiniteElement("RTCE", "quadrilateral", degree, variant=variant)', 'Qd_elt = FiniteElement("RTCF", "quadrilateral", degree, variant=variant)'),
    ("bug", "C28", F, 'if cell_v.cellname() != "interval":\n                    raise ValueError(f"{family} is available on TensorProductCell(interval, interval) only.")', 'if cell_v.cellname() not in simplices:\n                    raise ValueError(f"{family} is available on TensorProductCell(interval, interval) only.")'),
    ("bug", "C28", F, 'return "DG" if cell.cellname() in simplices else "DQ"', 'return "DG" if cell.cellname() == "interval" else "DQ"'),
    ("bug", "C28", F, 'return "DG L2" if cell.cellname() in simplices else "DQ L2"', 'return "DG L2" if cell.cellname() in simplices else "DQ"'),
    ("bug", "C28", F, 'return TensorProductElement(*[FiniteElement("CG", c, degree, variant=variant)\n                                              for c in cell.sub_cells()],\n                                            cell=cell)', 'return TensorProductElement(*[FiniteElement("CG", c, degree, variant=variant)\n                                              for c in sorted(cell.sub_cells(), key=lambda c: c.cellname())],\n                                            cell=cell)'),
    ("bug", "C28", F, 'HCurl(TensorProductElement(Qd_elt, Ic_elt, cell=cell))', 'HCurl(TensorProductElement(Ic_elt, Qd_elt, cell=cell))'),
    ("bug", "C28", F, 'canonical_element_description(family, cell, degree, form_degree)\n\n            if family in', 'canonical_element_description(family, cell, degree, form_degree)\n            degree = max(degree, 1)\n\n            if family in'),
    ("same", "C28", F, '                if family == "RTCF":\n                    return EnrichedElement(HDiv(CxD_elt), HDiv(DxC_elt))\n                if family == "RTCE":\n                    return EnrichedElement(HCurl(CxD_elt), HCurl(DxC_elt))', '                wrapper = HDiv if family == "RTCF" else HCurl\n                return EnrichedElement(wrapper(CxD_elt), wrapper(DxC_elt))'),
    ("same", "C28", F, 'return TensorProductElement(*[FiniteElement("CG", c, degree, variant=variant)\n                                              for c in cell.sub_cells()],\n                                            cell=cell)', 'factors = [FiniteElement("Q" if c.cellname() in ("quadrilateral", "hexahedron") else "CG", c, degree, variant=variant)\n                           for c in cell.sub_cells()]\n                return TensorProductElement(*factors, cell=cell)'),
    ("same", "C28", F, 'FiniteElement(dq_family(c), c, degree, variant=variant)\n                                              for c in cell.sub_cells()', 'cls(dq_family(c), c, degree, None, None, variant)\n                                              for c in cell.sub_cells()'),
    ("same", "C28", F, 'if family in ["RTCF", "RTCE"]:', 'if family.startswith("RTC"):'),
]
