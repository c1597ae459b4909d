B = "finat/finiteelementbase.py"
EDITS = [
    ("bug", "C34", B, "make_quadrature(entity_cell, (2*numpy.array(self.degree)).tolist())", "make_quadrature(entity_cell, numpy.array(self.degree).tolist())"),
    ("bug", "C34", B, "make_quadrature(entity_cell, (2*numpy.array(self.degree)).tolist())", "make_quadrature(self.cell, (2*numpy.array(self.degree)).tolist())"),
    ("bug", "C34", B, "entity=(entity_dim, f)).values()", "entity=(entity_dim, 0)).values()"),
    ("bug", "C34", B, "                                                         gem.Indexed(vals, beta + zeta)), zeta),", "                                                         gem.Literal(1)), zeta),"),
    ("bug", "C34", B, "[dof for dof, i in enumerate(ints) if i > eps]", "[dof for dof, i in enumerate(ints) if i < eps]"),
    ("bug", "C34", B, "for entity_dim in self.cell.sub_entities.keys():", "for entity_dim in list(self.cell.sub_entities.keys())[:-1]:"),
    ("bug", "C34", B, "return elem.entity_support_dofs()[entity_dim]", "return elem.entity_closure_dofs()[entity_dim]"),
    ("bug", "C34", B, "eps = 1.e-8", "eps = 1.e-2"),
    ("same", "C34", B, "                ints = gem.IndexSum(\n                    gem.Product(gem.IndexSum(gem.Product(gem.Indexed(vals, beta + zeta),\n                                                         gem.Indexed(vals, beta + zeta)), zeta),\n                                quad.weight_expression),\n                    quad.point_set.indices\n                )",
     "                t = gem.Indexed(vals, beta + zeta)\n                ints = gem.IndexSum(gem.Product(quad.weight_expression, gem.Product(t, t)), quad.point_set.indices + zeta)"),
    ("same", "C34", B, "                result[f] = [dof for dof, i in enumerate(ints) if i > eps]", "                found = []\n                for dof in range(len(ints)):\n                    if ints[dof] > eps:\n                        found.append(dof)\n                result[f] = found"),
    ("same", "C34", B, "    @cached_property\n    def _entity_support_dofs(self):", "    @cached_property\n    def _entity_support_dofs(self):\n        return {dim: self._supports(dim) for dim in self.cell.sub_entities.keys()}\n\n    def _supports(self, d):\n        return self._all_supports()[d]\n\n    def _all_supports(self):"),
]
