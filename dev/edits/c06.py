F = "finat/mixed.py"
EDITS = [
    ("same", "C06", F, """    sizes = [numpy.prod(element.value_shape, dtype=int)
             for element in elements]
    offsets = [int(offset) for offset in numpy.cumsum([0] + sizes)]
    total_size = offsets.pop()
""", """    offsets = []
    total_size = 0
    for element in elements:
        offsets.append(total_size)
        total_size += int(numpy.prod(element.value_shape, dtype=int))
"""),
    ("same", "C06", F, """    offsets = [int(offset) for offset in numpy.cumsum([0] + sizes)]
    total_size = offsets.pop()
    return EnrichedElement([MixedSubElement(element, total_size, offset)
                            for offset, element in zip(offsets, elements)])
""", """    total_size = int(sum(sizes))
    parts = []
    for k, element in enumerate(elements):
        parts.append(MixedSubElement(element, total_size, int(sum(sizes[:k]))))
    return EnrichedElement(parts)
"""),
    ("same", "C06", F, """    offsets = [int(offset) for offset in numpy.cumsum([0] + sizes)]
    total_size = offsets.pop()
    return""", """    *offsets, total_size = map(int, numpy.cumsum([0] + sizes))
    return"""),
    ("same", "C06", F, """        u = [gem.Zero()] * self.size
        for j, zeta in enumerate(numpy.ndindex(self.element.value_shape)):
            u[self.offset + j] = gem.Indexed(v, zeta)
        return u
""", """        values = [gem.Indexed(v, zeta) for zeta in numpy.ndindex(self.element.value_shape)]
        before = [gem.Zero()] * self.offset
        after = [gem.Zero()] * (self.size - self.offset - len(values))
        return before + values + after
"""),
    ("same", "C06", F, """        u = [gem.Zero()] * self.size
        for j, zeta in enumerate(numpy.ndindex(self.element.value_shape)):
            u[self.offset + j] = gem.Indexed(v, zeta)
        return u
""", """        u = [gem.Zero() for _ in range(self.size)]
        for j, zeta in enumerate(numpy.ndindex(self.element.value_shape), start=self.offset):
            u[j] = gem.Indexed(v, zeta)
        return u
"""),
    ("same", "C06", F, """        def promote(table):
            v = gem.partial_indexed(table, beta)
            u = gem.ListTensor(self._transform(v))
            return gem.ComponentTensor(gem.Indexed(u, zeta), beta + zeta)

        return {alpha: promote(table)
                for alpha, table in core_eval.items()}
""", """        result = {}
        for alpha, table in core_eval.items():
            u = gem.ListTensor(self._transform(gem.partial_indexed(table, beta)))
            result[alpha] = gem.ComponentTensor(gem.Indexed(u, zeta), beta + zeta)
        return result
"""),
    ("same", "C06", F, "return EnrichedElement([MixedSubElement(element, total_size, offset)\n                            for offset, element in zip(offsets, elements)])", "return EnrichedElement(MixedSubElement(element=e, offset=o, size=total_size) for e, o in zip(elements, offsets))"),
    ("same", "C06", F, "        core_eval = self.element.point_evaluation(order, refcoords, entity)\n        return self._transform_evaluation(core_eval)", "        return self._transform_evaluation(self.element.point_evaluation(order, refcoords, entity=entity))"),
    ("bug", "C06", F, "u[self.offset + j]", "u[j]"),
    ("bug", "C06", F, "u[self.offset + j]", "u[self.size - 1 - self.offset - j]"),
    ("bug", "C06", F, "numpy.ndindex(self.element.value_shape)", "map(lambda t: t[::-1], numpy.ndindex(self.element.value_shape[::-1]))"),
    ("bug", "C06", F, "sizes = [numpy.prod(element.value_shape, dtype=int)", "sizes = [numpy.prod(element.value_shape[:1], dtype=int)"),
    ("bug", "C06", F, "self.element.point_evaluation(order, refcoords, entity)", "self.element.point_evaluation(order, refcoords)"),
    ("bug", "C06", F, "return self.element.entity_support_dofs()", "return self.element.entity_closure_dofs()"),
    ("bug", "C06", F, "return self.element.mapping", 'return "affine"'),
    ("bug", "C06", F, "return self.element.formdegree", "return 0"),
]
