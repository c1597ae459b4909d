D = "finat/ufl/"
EDITS = [
    ("bug", "C29", D + "finiteelementbase.py", 'return pullback.covariant_contravariant_piola', 'return pullback.double_contravariant_piola'),
    ("bug", "C29", D + "finiteelementbase.py", 'raise ValueError(f"Unsupported mapping: {self.mapping()}")', 'return pullback.identity_pullback'),
    ("bug", "C29", D + "finiteelementbase.py", 'if self.mapping() == "identity":', 'if self.mapping() in ("identity", "undefined"):'),
    ("bug", "C29", D + "enrichedelement.py", 'return self._elements[0].mapping()', 'return self._elements[-1].mapping()'),
    ("bug", "C29", D + "enrichedelement.py", '                for parent in s.parents:\n                    intersect.discard(parent)', '                for parent in s.parents:\n                    intersect.discard(s)'),
    ("bug", "C29", D + "enrichedelement.py", 'superspaces = [{s} | set(s.parents) for s in spaces]', 'superspaces = [set(s.parents) or {s} for s in spaces]'),
    ("bug", "C29", D + "enrichedelement.py", 'return all(e.is_cellwise_constant(component) for e in self._elements)', 'return any(e.is_cellwise_constant(component) for e in self._elements)'),
    ("bug", "C29", D + "brokenelement.py", 'return L2', 'return self._element.sobolev_space'),
    ("bug", "C29", D + "brokenelement.py", 'return self._element.mapping()', 'return "identity"'),
    ("bug", "C29", D + "restrictedelement.py", 'if self._restriction_domain == "interior":', 'if self._restriction_domain in ("interior", "reduced"):'),
    ("bug", "C29", D + "restrictedelement.py", 'return self._element._is_linear()', 'return False'),
    ("bug", "C29", D + "hdivcurl.py", 'return "covariant Piola"', 'return "contravariant Piola"'),
    ("bug", "C29", D + "hdivcurl.py", 'return HCurlSobolevSpace', 'return HDivSobolevSpace'),
    ("bug", "C29", D + "hdivcurl.py", 'if self.wrapee.mapping() == self.mapping():', 'if self.mapping() == "identity":'),
    ("bug", "C29", D + "tensorproductelement.py", 'orders.extend(e_order)', 'orders.append(e.sobolev_space._order)'),
    ("bug", "C29", D + "tensorproductelement.py", 'elif all(e.mapping() == "L2 Piola"', 'elif any(e.mapping() == "L2 Piola"'),
    ("bug", "C29", D + "mixedelement.py", 'return max(e.sobolev_space', 'return min(e.sobolev_space'),
    ("bug", "C29", D + "mixedelement.py", 'return all(i._is_linear() for i', 'return any(i._is_linear() for i'),
    ("bug", "C29", D + "mixedelement.py", 'self._mapping = "symmetries"', 'self._mapping = sub_element.mapping()'),
    ("bug", "C29", D + "mixedelement.py", 'return self._sub_element.pullback\n\n\nclass', 'return MixedPullback(self)\n\n\nclass'),
    ("bug", "C29", D + "finiteelement.py", 'self.family() == "Lagrange" and self.degree() == 1', 'self.degree() == 1'),
    ("same", "C29", D + "mixedelement.py", 'return all(i._is_linear() for i in self._sub_elements)', 'return not any(not e._is_linear() for e in self.sub_elements)'),
    ("same", "C29", D + "enrichedelement.py", '''            for s in intersect.copy():
                for parent in s.parents:
                    intersect.discard(parent)

            sobolev_space, = intersect
            return sobolev_space''', '''            for s in tuple(intersect):
                intersect -= set(s.parents)

            return intersect.pop()'''),
    ("same", "C29", D + "enrichedelement.py", 'superspaces = [{s} | set(s.parents) for s in spaces]\n            intersect = set.intersection(*superspaces)', 'intersect = {spaces[0], *spaces[0].parents}\n            for s in spaces[1:]:\n                intersect &= {s, *s.parents}'),
    ("same", "C29", D + "tensorproductelement.py", '''                e_order = (e.sobolev_space._order,) * e_dim
                orders.extend(e_order)''', '''                orders += [e.sobolev_space._order for _ in range(e_dim)]'''),
    ("same", "C29", D + "finiteelementbase.py", '''        if self.mapping() == "identity":
            return pullback.identity_pullback
        elif self.mapping() == "L2 Piola":
            return pullback.l2_piola
''', '''        by_name = {"identity": pullback.identity_pullback, "L2 Piola": pullback.l2_piola}
        if self.mapping() in by_name:
            return by_name[self.mapping()]
'''),
    ("same", "C29", D + "mixedelement.py", 'return max(e.sobolev_space for e in self._sub_elements)', 'spaces = [e.sobolev_space for e in self._sub_elements]\n        return max(spaces)'),
]
