M = "finat/ufl/mixedelement.py"
D = "finat/ufl/"
F = D + "finiteelement.py"
H = D + "hdivcurl.py"
EDITS = [
    ("bug", "C25", F, "        if quad_scheme is None:\n            quad_scheme = self.quadrature_scheme()\n", ""),
    ("bug", "C25", F, "        if variant is None:\n            variant = self.variant()\n", ""),
    ("bug", "C25", F, "            variant = self.variant()\n        return FiniteElement", "            variant = self.variant() if family == self.family() else None\n        return FiniteElement"),
    ("bug", "C25", F, "            degree = self.degree()\n        if quad_scheme", "            degree = self.embedded_superdegree\n        if quad_scheme"),
    ("bug", "C25", F, "                self.quadrature_scheme(),\n                self.variant())", "                self.quadrature_scheme())"),
    ("bug", "C25", F, "                None,\n                self.quadrature_scheme(),\n                self.variant())", "                self.quadrature_scheme(),\n                None,\n                self.variant())"),
    ("bug", "C25", H, '        mapping = kwargs.pop("mapping", self._mapping)\n', '        mapping = kwargs.pop("mapping", self.wrapee.mapping())\n'),
    ("bug", "C25", H, '        if attr == "wrapee":\n            # Not yet set while the object is being copied or unpickled\n            raise AttributeError(attr)\n', ''),
    ("bug", "C25", H, "return HCurlElement(self._element.reconstruct(**kwargs))", "return HDivElement(self._element.reconstruct(**kwargs))"),
    ("bug", "C25", D + "enrichedelement.py", "return type(self)(*[e.reconstruct(**kwargs) for e in self._elements])", "return EnrichedElement(*[e.reconstruct(**kwargs) for e in self._elements])"),
    ("bug", "C25", D + "enrichedelement.py", "return type(self)(*[e.reconstruct(**kwargs) for e in self._elements])", "return type(self)(self._elements[0].reconstruct(**kwargs), *self._elements[1:])"),
    ("bug", "C25", M, "return VectorElement(sub_element, dim=len(self.sub_elements))", "return VectorElement(sub_element)"),
    ("bug", "C25", M, "return VectorElement(sub_element, dim=len(self.sub_elements))", "return VectorElement(sub_element, dim=self.reference_value_shape[-1])"),
    ("bug", "C25", M, "return TensorElement(sub_element, shape=self._shape, symmetry=self._symmetry)", "return TensorElement(sub_element, shape=self._shape, symmetry=bool(self._symmetry))"),
    ("bug", "C25", M, "return TensorElement(sub_element, shape=self._shape, symmetry=self._symmetry)", "return TensorElement(sub_element, shape=self._shape)"),
    ("bug", "C25", M, "return TensorElement(sub_element, shape=self._shape, symmetry=self._symmetry)", "return TensorElement(sub_element, symmetry=self._symmetry)"),
    ("bug", "C25", D + "restrictedelement.py", "return RestrictedElement(element, self._restriction_domain)", "return RestrictedElement(element, self._restriction_domain if 'degree' not in kwargs else 'interior')"),
    ("bug", "C25", D + "tensorproductelement.py", 'cell = kwargs.pop("cell", self.cell)', 'cell = kwargs.pop("cell", None)'),
    ("bug", "C25", D + "brokenelement.py", "return BrokenElement(self._element.reconstruct(**kwargs))", "return self._element.reconstruct(**kwargs)"),
    ("same", "C25", F, "        return FiniteElement(family, cell, degree, quad_scheme=quad_scheme, variant=variant)", "        return type(self)(family, cell, degree, None, quad_scheme, variant)"),
    ("same", "C25", F, "        if family is None:\n            family = self.family()\n        if cell is None:\n            cell = self.cell\n", "        cell = self.cell if cell is None else cell\n        family = family or self._short_name\n"),
    ("same", "C25", M, "return VectorElement(sub_element, dim=len(self.sub_elements))", "return type(self)(sub_element, dim=self.num_sub_elements)"),
    ("same", "C25", H, "        wrapee = self.wrapee.reconstruct(**kwargs)\n        return type(self)(wrapee, mapping)", "        return WithMapping(self.wrapee.reconstruct(**kwargs), mapping)"),
    ("same", "C25", D + "enrichedelement.py", "return type(self)(*[e.reconstruct(**kwargs) for e in self._elements])", "pieces = []\n        for e in self._elements:\n            pieces.append(e.reconstruct(**kwargs))\n        return self.__class__(*pieces)"),
]
