F = "finat/fiat_elements.py"
EDITS = [
    ("bug", "C18", F, ").transpose(1, 2, 0)", ").transpose(1, 0, 2)"),
    ("bug", "C18", F, "space_dimension, value_size, len(ps.points)\n", "value_size, space_dimension, len(ps.points)\n"),
    ("bug", "C18", F, "table.reshape(point_shape + index_shape)", "table.T.reshape(point_shape + index_shape)"),
    ("bug", "C18", F, "table.reshape(point_shape + index_shape)", "table.reshape(point_shape[::-1] + index_shape)"),
    ("bug", "C18", F, "derivative == self.degree and not self.complex.is_macrocell()", "derivative == self.degree"),
    ("bug", "C18", F, "derivative == self.degree and not", "derivative >= self.degree - 1 and not"),
    ("bug", "C18", F, "elif derivative > self.degree:", "elif derivative >= self.degree:"),
    ("bug", "C18", F, "derivative = sum(alpha)", "derivative = max(alpha)"),
    ("bug", "C18", F, "derivative = sum(alpha)", "derivative = order"),
    ("bug", "C18", F, "gem.Failure(index_shape + self.value_shape, fiat_table)", "gem.Failure(self.value_shape + index_shape, fiat_table)"),
    ("bug", "C18", F, "                    beta + zeta\n                )\n            else:\n                expr, = exprs\n                result[alpha] = expr\n        return result\n\n    def point", "                    zeta + beta\n                )\n            else:\n                expr, = exprs\n                result[alpha] = expr\n        return result\n\n    def point"),
    ("bug", "C18", F, "self._element.tabulate(order, ps.points, entity)", "self._element.tabulate(order, ps.points)"),
    ("bug", "C18", F, "fiat_element.tabulate(order, [Xi], entity)", "fiat_element.tabulate(order, [Xi])"),
    ("bug", "C18", F, "entity = (self.cell.get_dimension(), 0)", "entity = (self.cell.get_dimension() - 1, 0)"),
    ("bug", "C18", F, "for i, s in enumerate(Xi)}", "for i, s in enumerate(reversed(Xi))}"),
    ("bug", "C18", F, "gem_table.reshape(space_dimension, value_size).transpose()", "gem_table.reshape(value_size, space_dimension)"),
    ("bug", "C18", F, "            result[alpha] = gem.ComponentTensor(\n                gem.Indexed(\n                    gem.ListTensor(np.array(\n                        [gem.Indexed(expr, beta) for expr in exprs]\n                    ).reshape(fiat_element", "            result[alpha] = gem.ComponentTensor(\n                gem.Indexed(\n                    gem.ListTensor(np.array(\n                        [gem.Indexed(expr, beta) for expr in exprs[::-1]]\n                    ).reshape(fiat_element"),
    ("bug", "C18", F, "            if isinstance(fiat_table, Exception):\n                result[alpha] = gem.Failure(index_shape + self.value_shape, fiat_table)\n                continue\n", "            if isinstance(fiat_table, Exception):\n                result[alpha] = gem.Failure(index_shape + self.value_shape, fiat_table)\n                break\n"),
    ("same", "C18", F, """            table_roll = fiat_table.reshape(
                space_dimension, value_size, len(ps.points)
            ).transpose(1, 2, 0)
""", """            fiat_table = fiat_table.reshape(space_dimension, value_size, len(ps.points))
            table_roll = np.transpose(fiat_table, (1, 2, 0))
"""),
    ("same", "C18", F, """            table_roll = fiat_table.reshape(
                space_dimension, value_size, len(ps.points)
            ).transpose(1, 2, 0)
""", """            fiat_table = fiat_table.reshape((space_dimension, value_size, len(ps.points)))
            table_roll = [fiat_table[:, c, :].T for c in range(value_size)]
"""),
    ("same", "C18", F, """            table_roll = fiat_table.reshape(
                space_dimension, value_size, len(ps.points)
            ).transpose(1, 2, 0)
""", """            fiat_table = fiat_table.reshape((space_dimension, value_size, len(ps.points)))
            table_roll = np.moveaxis(fiat_table, 0, -1)
"""),
    ("same", "C18", F, """        for table in table_roll:
            exprs.append(gem.ListTensor(table.reshape(space_dimension)))
""", """        exprs = [gem.ListTensor(table) for table in table_roll]
"""),
    ("same", "C18", F, """            table_roll = fiat_table.reshape(
                space_dimension, value_size, len(ps.points)
            ).transpose(1, 2, 0)

            exprs = []
            for table in table_roll:
                if derivative == self.degree and not self.complex.is_macrocell():
                    # Make sure numerics satisfies theory
                    exprs.append(gem.Literal(table[0]))
                elif derivative > self.degree:
                    # Make sure numerics satisfies theory
                    assert np.allclose(table, 0.0)
                    exprs.append(gem.Literal(np.zeros(index_shape)))
                else:
                    point_indices = ps.indices
                    point_shape = tuple(index.extent for index in point_indices)

                    exprs.append(gem.partial_indexed(
                        gem.Literal(table.reshape(point_shape + index_shape)),
                        point_indices
                    ))
""", """            table_roll = fiat_table.reshape(
                space_dimension, value_size, len(ps.points)
            ).transpose(1, 2, 0)

            def convert(table):
                n, = table.shape[1:]
                if derivative > self.degree:
                    return gem.Zero((n,))
                if derivative == self.degree and not self.complex.is_macrocell():
                    return gem.Literal(table[0, :])
                point_shape = tuple(index.extent for index in ps.indices)
                return gem.partial_indexed(gem.Literal(table.reshape(point_shape + (n,))), ps.indices)

            exprs = list(map(convert, table_roll))
"""),
    ("same", "C18", F, """        index_shape = (self._element.space_dimension(),)
        for alpha""", """        index_shape = (space_dimension,)
        for alpha"""),
]
