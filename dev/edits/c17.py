F = "finat/fiat_elements.py"
EDITS = [
    ("bug", "C17", F, "FIAT.Regge(cell, degree, variant=variant)", "FIAT.Regge(cell, degree)"),
    ("bug", "C17", F, "FIAT.GopalakrishnanLedererSchoberlSecondKind(cell, degree)", "FIAT.GopalakrishnanLedererSchoberlFirstKind(cell, degree)"),
    ("bug", "C17", F, "FIAT.NedelecSecondKind(cell", "FIAT.Nedelec(cell"),
    ("bug", "C17", "finat/arnold_qin.py", "FIAT.ArnoldQin(cell, degree, reduced=True)", "FIAT.ArnoldQin(cell, degree)"),
    ("bug", "C17", "finat/guzman_neilan.py", "super().__init__(cell, order=0)", "super().__init__(cell, order=degree or 0)"),
    ("bug", "C17", "finat/guzman_neilan.py", "FIAT.GuzmanNeilanSecondKindH1(cell, order=order)", "FIAT.GuzmanNeilanSecondKindH1(cell)"),
    ("bug", "C17", "finat/argyris.py", 'variant == "point" and degree != 5', 'variant == "point" and degree < 5'),
    ("bug", "C17", "finat/argyris.py", 'self.avg = avg', 'self.avg = False'),
    ("bug", "C17", "finat/spectral.py", "FIAT.FDMBrokenL2(cell, degree)", "FIAT.FDMBrokenH1(cell, degree)"),
    ("bug", "C17", F, "return self._element.get_formdegree()", "return self._element.get_order()"),
    ("bug", "C17", F, "return (self._element.space_dimension(),)", "return (len(self._element.entity_dofs()[0]),)"),
    ("same", "C17", F, "return (self._element.space_dimension(),)", "n = self.space_dimension()\n        return (n,)"),
    ("bug", "C17", F, 'raise NotImplementedError(f"entity_permutations not yet implemented for {type(self)}")', "return super().entity_permutations"),
    ("bug", "C17", "finat/bell.py", "FIAT.Bell(cell)", "FIAT.Argyris(cell, 5)"),
    ("same", "C17", "finat/arnold_qin.py", "super().__init__(FIAT.ArnoldQin(cell, degree))", "fiat_element = FIAT.ArnoldQin(cell, degree=degree)\n        super().__init__(fiat_element)"),
    ("bug", "C17", "finat/nodal_enriched.py", "for elem in elements", "for elem in reversed(elements)"),
]
