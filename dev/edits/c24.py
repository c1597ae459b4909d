D = "finat/ufl/"
B = D + "finiteelementbase.py"
M = D + "mixedelement.py"
EDITS = [
    ("bug", "C24", B, "return type(self) is type(other) and self._ufl_hash_data_() == other._ufl_hash_data_()", "return self._ufl_hash_data_() == other._ufl_hash_data_() if isinstance(other, FiniteElementBase) else False"),
    ("bug", "C24", B, "return not self.__eq__(other)", "return self is not other"),
    ("bug", "C24", B, "return repr(self) < repr(other)", "return str(self) < str(other)"),
    ("bug", "C24", B, "return repr(self) < repr(other)", "return repr(self) <= repr(other)"),
    ("bug", "C24", B, "return int.from_bytes(md5(self._ufl_hash_data_().encode()).digest(), byteorder='big')", "return id(self)"),
    ("bug", "C24", D + "finiteelement.py", 'var_str = ", variant=%s" % repr(v)', 'var_str = ""'),
    ("bug", "C24", D + "finiteelement.py", 'quad_str = ", quad_scheme=%s" % repr(qs)', 'quad_str = ", quad_scheme"'),
    ("bug", "C24", D + "finiteelement.py", 'repr(self.family()), repr(self.cell)', 'repr(self.mapping()), repr(self.cell)'),
    ("bug", "C24", D + "finiteelement.py", 'repr(self.degree()), quad_str', 'repr(self.embedded_superdegree), quad_str'),
    ("bug", "C24", D + "tensorproductelement.py", ' + f", cell={repr(self._cell)})"', ' + ")"'),
    ("bug", "C24", D + "restrictedelement.py", 'return f"RestrictedElement({repr(self._element)}, {repr(self._restriction_domain)})"', 'return f"RestrictedElement({repr(self._element)})"'),
    ("bug", "C24", D + "enrichedelement.py", 'return "NodalEnrichedElement(" + ', 'return "EnrichedElement(" + '),
    ("bug", "C24", D + "enrichedelement.py", 'return "EnrichedElement(" + ", ".join(repr(e) for e in self._elements)', 'return "EnrichedElement(" + ", ".join(sorted(repr(e) for e in self._elements))'),
    ("bug", "C24", D + "hdivcurl.py", '''return f"WithMapping({repr(self.wrapee)}, '{self._mapping}')"''', 'return f"WithMapping({repr(self.wrapee)})"'),
    ("bug", "C24", D + "hdivcurl.py", 'return f"HCurlElement({repr(self._element)})"', 'return f"HCurlElement({self._element.shortstr()})"'),
    ("bug", "C24", M, 'dim={dim}{var_str})"', 'dim={cell.topological_dimension()}{var_str})"'),
    ("bug", "C24", M, 'shape={shape}, "', 'shape={reference_value_shape}, "'),
    ("bug", "C24", M, 'f"symmetry={symmetry}{var_str})")', 'f"symmetry={bool(symmetry)}{var_str})")'),
    ("bug", "C24", M, 'return "MixedElement(" + ", ".join(repr(e)', 'return "MixedElement(" + ", ".join(str(e)'),
    ("same", "C24", M, 'return "MixedElement(" + ", ".join(repr(e) for e in self._sub_elements) + ")"', 'return "MixedElement(%s)" % ", ".join(map(repr, self._sub_elements))'),
    ("same", "C24", B, "return not self.__eq__(other)", "return not self == other"),
    ("same", "C24", B, "return repr(self) < repr(other)", "return other.__repr__() > self.__repr__()"),
    ("same", "C24", D + "finiteelement.py", '''        self._repr = "FiniteElement(%s, %s, %s%s%s)" % (
            repr(self.family()), repr(self.cell), repr(self.degree()), quad_str, var_str)''', '''        self._repr = f"FiniteElement({self.family()!r}, {self.cell!r}, {self.degree()!r}{quad_str}{var_str})"'''),
    ("same", "C24", D + "tensorproductelement.py", '''"TensorProductElement(" + ", ".join(repr(e) for e in self._sub_elements) + f", cell={repr(self._cell)})"''', '''f"TensorProductElement({', '.join(repr(e) for e in self._sub_elements)}, cell={self._cell!r})"'''),
    ("same", "C24", M, '''var_str = ", variant='" + variant + "'"''', '''var_str = f", variant='{variant}'"'''),
]
