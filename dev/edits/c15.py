R = "finat/runtime_tabulated.py"
NAME = """                name = str.format("rt_{}_{}_{}_{}_{}_{}",
                                  self.variant,
                                  self.degree,
                                  ''.join(map(str, alpha)),
                                  self.shift_axes,
                                  'c' if self.continuous else 'd',
                                  {None: "",
                                   '+': "p",
                                   '-': "m"}[self.restriction])
"""
EDITS = [
    # --- refactorings
    ("same", "C15", R, NAME, """                side = {None: "", '+': "p", '-': "m"}[self.restriction]
                kind = 'c' if self.continuous else 'd'
                digits = ''.join(str(a) for a in alpha)
                name = f"rt_{self.variant}_{self.degree}_{digits}_{self.shift_axes}_{kind}_{side}"
"""),
    ("same", "C15", R, NAME, """                name = "rt_{}_{}_{}_{}_{}_{}".format(
                    self.variant, self.degree, ''.join(map(str, alpha)), self.shift_axes,
                    'd' if not self.continuous else 'c',
                    "" if self.restriction is None else "p" if self.restriction == '+' else "m")
"""),
    ("same", "C15", R, NAME, """                name = '_'.join(["rt", self.variant, str(self.degree), ''.join(map(str, alpha)),
                                 str(self.shift_axes), 'c' if self.continuous else 'd',
                                 {None: "", '+': "p", '-': "m"}[self.restriction]])
"""),
    ("same", "C15", R, """        shape = tuple(index.extent for index in ps.indices) + self.index_shape + self.value_shape

        result = {}
        for derivative in range(order + 1):
            for alpha in mis(dimension, derivative):
""", """        point_shape = tuple(q.extent for q in ps.indices)
        shape = point_shape + self.index_shape

        result = {}
        for total in range(0, order + 1):
            for alpha in mis(dimension, total):
"""),
    ("same", "C15", R, """                result[alpha] = gem.partial_indexed(gem.Variable(name, shape), ps.indices)
""", """                table = gem.Variable(name, shape)
                result[alpha] = gem.partial_indexed(table, ps.indices)
"""),
    ("same", "C15", R, """        if self.continuous:
            return 0
        else:
            return self.cell.get_spatial_dimension()
""", """        return 0 if self.continuous else self.cell.get_spatial_dimension()
"""),
    ("same", "C15", R, """        assert isinstance(variant, str)
        assert isinstance(shift_axes, int) and 0 <= shift_axes
        assert isinstance(continuous, bool)
        assert restriction in [None, '+', '-']
""", """        assert isinstance(variant, str) and isinstance(continuous, bool)
        assert isinstance(shift_axes, int)
        assert shift_axes >= 0
        assert restriction in {None, '+', '-'}
"""),
    # --- bugs
    ("bug", "C15", R, "'-': \"m\"}", "'-': \"p\"}"),
    ("bug", "C15", R, NAME, """                name = "rt_{}_{}{}_{}_{}_{}".format(
                    self.variant, self.degree, ''.join(map(str, alpha)), self.shift_axes,
                    'd' if not self.continuous else 'c',
                    "" if self.restriction is None else "p" if self.restriction == '+' else "m")
"""),
    ("bug", "C15", R, "''.join(map(str, alpha)),", "sum(alpha) and 1,"),
    ("bug", "C15", R, "return self.degree + 1", "return max(self.degree, 1) + 1"),
]
