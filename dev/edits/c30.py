M = "finat/ufl/mixedelement.py"
D = "finat/ufl/"
B = D + "finiteelementbase.py"
EDITS = [
    ("bug", "C30", M, 'if len(elements) == len(self._sub_elements) and all(', 'if all('),
    ("bug", "C30", M, "quad_scheme = elements[0].quadrature_scheme()", "quad_scheme = elements[-1].quadrature_scheme() or elements[0].quadrature_scheme()\n            elements = [e for e in elements if e.quadrature_scheme() is not None]"),
    ("bug", "C30", M, "if not all(c == cell for c in cells[1:]):", "if not all(c == cell for c in cells[2:]):"),
    ("bug", "C30", M, "sum(product(s.reference_value_shape) for s", "sum(len(s.reference_value_shape) or 1 for s"),
    ("bug", "C30", M, "if i > j)", "if i < j and i > 0)"),
    ("bug", "C30", M, "i[k] < shape[k] and j[k] < shape[k]", "i[k] < shape[k] and j[k] <= shape[k]"),
    ("bug", "C30", M, "if len(i) != len(j):", "if len(i) < len(j):"),
    ("bug", "C30", M, "sub_element_mapping[index] = sub_element_mapping[symmetry[index]]", "sub_element_mapping[index] = sub_element_mapping.get(index[::-1], sub_element_mapping[symmetry[index]])"),
    ("bug", "C30", M, "reference_value_shape = (product(shape) - len(symmetry),)", "reference_value_shape = (shape[0]*(shape[0] + 1)//2,)"),
    ("bug", "C30", M, "symmetry = {i: self._sub_element_mapping[i] for i in np.ndindex(self._shape)}", "symmetry = {i: k for k, i in enumerate(np.ndindex(self._shape))}"),
    ("bug", "C30", M, "            if j < si:\n                break\n            j -= si\n        if j < 0:\n            raise ValueError(\"Moved past last value reference_component!\")", "            if j <= si:\n                break\n            j -= si\n        if j < 0:\n            raise ValueError(\"Moved past last value reference_component!\")"),
    ("bug", "C30", M, "            if j < si:\n                break\n            j -= si\n        if j < 0:\n            raise ValueError(\"Moved past last value reference_component!\")", "            if j < si:\n                break\n            j -= si"),
    ("bug", "C30", M, "reference_value_shape = (dim,) + sub_element.reference_value_shape", "reference_value_shape = sub_element.reference_value_shape + (dim,)"),
    ("bug", "C30", M, "FiniteElementBase.__init__(self, sub_element.family(), sub_element.cell, sub_element.degree(),\n                                   sub_element.quadrature_scheme(), reference_value_shape)", "FiniteElementBase.__init__(self, sub_element.family(), sub_element.cell, sub_element.degree(),\n                                   None, reference_value_shape)"),
    ("bug", "C30", M, "                                        quad_scheme=quad_scheme,\n                                        variant=variant)", "                                        variant=variant)"),
    ("bug", "C30", M, "                                        form_degree=form_degree,\n", ""),
    ("bug", "C30", M, "sub_element = FiniteElement(family, cell, degree, quad_scheme=quad_scheme,\n                                        variant=variant)", "sub_element = FiniteElement(family, cell, degree, quad_scheme=quad_scheme)"),
    ("bug", "C30", D + "enrichedelement.py", "if not all(e.cell == cell for e in elements[1:]):", "if not any(e.cell == cell for e in elements):"),
    ("bug", "C30", D + "enrichedelement.py", "degree = tuple(map(max, zip(*[e.degree() for e in elements])))", "degree = max(e.degree() for e in elements)"),
    ("bug", "C30", D + "enrichedelement.py", "quad_scheme = quad_schemes[0] if quad_schemes else None", "quad_scheme = elements[0].quadrature_scheme()"),
    ("bug", "C30", D + "enrichedelement.py", "if not all(e.reference_value_shape == reference_value_shape for e in elements[1:]):", "if not all(len(e.reference_value_shape) == len(reference_value_shape) for e in elements[1:]):"),
    ("bug", "C30", D + "tensorproductelement.py", "cell = TensorProductCell(*[e.cell for e in elements])", "cell = TensorProductCell(*sorted([e.cell for e in elements]))"),
    ("bug", "C30", D + "tensorproductelement.py", "degree = tuple(e.degree() for e in elements)", "degree = tuple(sorted(e.degree() for e in elements))"),
    ("bug", "C30", D + "tensorproductelement.py", "if len(reference_value_shape) > 1:", "if len(reference_value_shape) > 2:"),
    ("bug", "C30", D + "restrictedelement.py", "                                   element.quadrature_scheme(),\n", "                                   None,\n"),
    ("bug", "C30", D + "restrictedelement.py", '"interior", "facet", "face", "edge", "vertex", "reduced")', '"interior", "facet", "face", "edge", "vertex", "reduced", "ridge")'),
    ("bug", "C30", D + "restrictedelement.py", 'return self._element.sub_elements', 'return [self._element]'),
    ("bug", "C30", D + "hdivcurl.py", 'if mapping in {"covariant Piola", "contravariant Piola"}:\n            return (tdim,)', 'if mapping in {"contravariant Piola"}:\n            return (tdim,)'),
    ("bug", "C30", D + "hdivcurl.py", "reference_value_shape = (element.cell.topological_dimension(),)", "reference_value_shape = element.reference_value_shape or (element.cell.topological_dimension(),)"),
    ("bug", "C30", D + "brokenelement.py", "quad_scheme = element.quadrature_scheme()", "quad_scheme = None"),
    ("bug", "C30", B, "all(j < k for (j, k) in zip(i, sh))):\n            raise ValueError(\n                f\"Illegal component index {i} (value rank {len(i)}) \"\n                f\"for element (value rank {r}).\")\n\n    def extract_subelement_reference", "all(j <= k for (j, k) in zip(i, sh))):\n            raise ValueError(\n                f\"Illegal component index {i} (value rank {len(i)}) \"\n                f\"for element (value rank {r}).\")\n\n    def extract_subelement_reference"),
    ("bug", "C30", B, "return EnrichedElement(self, other)", "return EnrichedElement(other, self)"),
    ("same", "C30", M, "sub_elements = [sub_element] * dim", "sub_elements = [sub_element for _ in range(dim)]"),
    ("same", "C30", M, "            sub_element_mapping[index] = len(sub_elements)\n            sub_elements += [sub_element]", "            sub_elements.append(sub_element)\n            sub_element_mapping[index] = len(sub_elements) - 1"),
    ("same", "C30", M, "symmetry = dict(((i, j), (j, i)) for i in range(shape[0])\n                            for j in range(shape[1]) if i > j)", "symmetry = {(i, j): (j, i) for i in range(shape[0]) for j in range(i)}"),
    ("same", "C30", M, "            for k in range(len(i)):\n                if not (i[k] >= 0 and j[k] >= 0 and i[k] < shape[k] and j[k] < shape[k]):\n                    raise ValueError(\"Symmetry dimensions out of bounds.\")",
     "            if any(not 0 <= a < n or not 0 <= b < n for a, b, n in zip(i, j, shape)):\n                raise ValueError(\"Symmetry dimensions out of bounds.\")"),
    ("same", "C30", M, "flattened_sub_element_mapping = [sub_element_mapping[index] for i,\n                                         index in enumerate(indices)]", "flattened_sub_element_mapping = list(map(sub_element_mapping.__getitem__, indices))"),
    ("same", "C30", M, "        for sub_element_index, e in enumerate(self._sub_elements):\n            sh = e.reference_value_shape\n            si = product(sh)\n            if j < si:\n                break\n            j -= si\n        if j < 0:\n            raise ValueError(\"Moved past last value reference_component!\")",
     "        if j < 0:\n            raise ValueError(\"Moved past last value reference_component!\")\n        sub_element_index = 0\n        sh = self._sub_elements[0].reference_value_shape\n        while j >= product(sh):\n            j -= product(sh)\n            sub_element_index += 1\n            sh = self._sub_elements[sub_element_index].reference_value_shape"),
    ("same", "C30", D + "enrichedelement.py", "quad_schemes = [qs for qs in quad_schemes if qs is not None]\n        quad_scheme = quad_schemes[0] if quad_schemes else None\n        if not all(qs == quad_scheme for qs in quad_schemes):",
     "quad_scheme = next((qs for qs in quad_schemes if qs is not None), None)\n        if any(qs is not None and qs != quad_scheme for qs in quad_schemes):"),
    ("same", "C30", D + "enrichedelement.py", "degree = tuple(map(max, zip(*[e.degree() for e in elements])))", "degree = tuple(max(ds) for ds in zip(*(e.degree() for e in elements)))"),
    ("same", "C30", D + "tensorproductelement.py", "reference_value_shape = tuple(chain(*[e.reference_value_shape for e in elements]))", "reference_value_shape = sum((e.reference_value_shape for e in elements), ())"),
    ("same", "C30", D + "hdivcurl.py", '''        if mapping in {"covariant Piola", "contravariant Piola"}:
            return (tdim,)
        elif mapping in {"double covariant Piola", "double contravariant Piola",
                         "covariant contravariant Piola"}:
            return (tdim, tdim)''', '''        rank = {"covariant Piola": 1, "contravariant Piola": 1, "double covariant Piola": 2,
                "double contravariant Piola": 2, "covariant contravariant Piola": 2}.get(mapping)
        if rank is not None:
            return (tdim,) * rank'''),
]
EDITS += [
    ("bug", "C30", D + "hdivcurl.py", 'elif self.name == "HCurl":\n            return HCurlElement(element)', 'elif self.name == "HCurl":\n            return HDivElement(element)'),
    ("bug", "C30", D + "hdivcurl.py", 'HDiv = CallableSobolevSpace(HDivSobolevSpace.name', 'HDiv = CallableSobolevSpace(HCurlSobolevSpace.name'),
    ("bug", "C30", D + "hdivcurl.py", '            return (gdim, gdim)\n        else:\n            return self.wrapee.value_shape', '            return (gdim,)\n        else:\n            return self.wrapee.value_shape'),
    ("same", "C30", D + "hdivcurl.py", '        if self.name == "HDiv":\n            return HDivElement(element)\n        elif self.name == "HCurl":\n            return HCurlElement(element)', '        wrappers = {"HDiv": HDivElement, "HCurl": HCurlElement}\n        if self.name in wrappers:\n            return wrappers[self.name](element)'),
]
