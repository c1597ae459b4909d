P = "finat/physically_mapped.py"
EDITS = [
    ("bug", "C21", P, "IndexSum(M[i, j]*table, (j,)), (i,)", "IndexSum(M[j, i]*table, (j,)), (i,)"),
    ("bug", "C21", P, "(j,)), (i,) + value_indices)", "(j,)), value_indices + (i,))"),
    ("bug", "C21", P, "result = super().basis_evaluation(order, ps, entity=entity)", "result = super().basis_evaluation(order, ps)"),
    ("bug", "C21", P, "return {alpha: matvec(table)\n", "return {alpha: matvec(table) if sum(alpha) < 3 else table\n"),
    ("bug", "C21", P, "        assert coordinate_mapping is not None\n", "        if coordinate_mapping is None:\n            return super().basis_evaluation(order, ps, entity=entity)\n"),
    ("bug", "C21", "finat/morley.py", "    def basis_transformation(", "    def basis_evaluation(self, order, ps, entity=None, coordinate_mapping=None):\n        if coordinate_mapping is None:\n            return ScalarFiatElement.basis_evaluation(self, order, ps, entity)\n        return super().basis_evaluation(order, ps, entity, coordinate_mapping)\n\n    def basis_transformation("),
    ("same", "C21", P, "        assert coordinate_mapping is not None\n", "        if coordinate_mapping is None:\n            raise ValueError('geometry needed')\n"),
    ("same", "C21", P, """            i, j = gem.indices(2)
            value_indices = self.get_value_indices()
            table = gem.Indexed(table, (j, ) + value_indices)
            val = gem.ComponentTensor(gem.IndexSum(M[i, j]*table, (j,)), (i,) + value_indices)
            # Eliminate zeros
            return gem.optimise.aggressive_unroll(val)
""", """            value_indices = self.get_value_indices()
            i = gem.Index()
            j = gem.Index()
            row = table[(j, *value_indices)]
            return gem.ComponentTensor(gem.IndexSum(gem.Product(row, gem.Indexed(M, (i, j))), (j,)), (i, *value_indices))
"""),
    ("same", "C21", P, """        result = super().basis_evaluation(order, ps, entity=entity)

        return {alpha: matvec(table)
                for alpha, table in result.items()}
""", """        mapped = {}
        for alpha, table in super().basis_evaluation(order, ps, entity).items():
            mapped[alpha] = matvec(table)
        return mapped
"""),
]
