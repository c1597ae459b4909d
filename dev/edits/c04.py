T = "finat/tensorfiniteelement.py"
EXP = """        def expand(dofs):
            dofs = tuple(dofs)
            if self._transpose:
                space_dim = self._base_element.space_dimension()
                # Components stride by space dimension of base element
                iterable = ((v + i*space_dim for v in dofs)
                            for i in range(ndof))
            else:
                # Components packed together
                iterable = (range(v*ndof, (v+1)*ndof) for v in dofs)
            yield from chain.from_iterable(iterable)

        for dim in self.cell.get_topology().keys():
            dofs[dim] = dict((k, list(expand(d)))
                             for k, d in base_dofs[dim].items())
        return dofs
"""
EDITS = [
    # --- refactorings
    ("same", "C04", T, EXP, """        space_dim = self._base_element.space_dimension()

        def expand(base):
            if self._transpose:
                # Components stride by space dimension of base element
                return [v + i * space_dim for i in range(ndof) for v in base]
            # Components packed together
            return [v * ndof + i for v in base for i in range(ndof)]

        for dim in self.cell.get_topology():
            dofs[dim] = {entity: expand(base) for entity, base in base_dofs[dim].items()}
        return dofs
"""),
    ("same", "C04", T, EXP, """        stride, step = (self._base_element.space_dimension(), 1) if self._transpose else (1, ndof)
        for dim in self.cell.get_topology():
            dofs[dim] = {}
            for entity, base in base_dofs[dim].items():
                numbers = []
                if self._transpose:
                    for i in range(ndof):
                        numbers += [step * v + stride * i for v in base]
                else:
                    for v in base:
                        numbers += [step * v + stride * i for i in range(ndof)]
                dofs[dim][entity] = numbers
        return dofs
"""),
    ("same", "C04", T, EXP, """        n = self._base_element.space_dimension()
        for dim in self.cell.get_topology():
            dofs[dim] = {}
            for entity, base in base_dofs[dim].items():
                table = numpy.array([[v + i * n if self._transpose else v * ndof + i for i in range(ndof)] for v in base], dtype=int)
                dofs[dim][entity] = (table.T if self._transpose else table).flatten().tolist()
        return dofs
""") if False else ("same", "C04", T, """        ndof = int(numpy.prod(self._shape, dtype=int))

        def expand""", """        ndof = 1
        for extent in self._shape:
            ndof *= extent

        def expand"""),
    ("same", "C04", T, """                iterable = (range(v*ndof, (v+1)*ndof) for v in dofs)
            yield from chain.from_iterable(iterable)
""", """                iterable = (range(ndof*v, ndof*v + ndof) for v in dofs)
            for block in iterable:
                for number in block:
                    yield number
"""),
    ("same", "C04", T, """        for dim in self.cell.get_topology().keys():
            dofs[dim] = dict((k, list(expand(d)))
                             for k, d in base_dofs[dim].items())
        return dofs
""", """        for dim, entities in base_dofs.items():
            dofs[dim] = {k: list(expand(entities[k])) for k in entities}
        return dofs
"""),
    ("same", "C03", T, """        return int(numpy.prod(self.index_shape))
""", """        return int(numpy.prod(self._shape, dtype=int)) * self._base_element.space_dimension()
"""),
    ("same", "C03", T, """        if self._transpose:
            return self._shape + self._base_element.index_shape
        else:
            return self._base_element.index_shape + self._shape
""", """        base = self._base_element.index_shape
        return self._shape + base if self._transpose else base + self._shape
"""),
    # --- bugs
    ("bug", "C04", T, "for i in range(ndof))", "for i in reversed(range(ndof)))"),
    ("bug", "C04", T, "space_dim = self._base_element.space_dimension()", "space_dim = self._base_element.index_shape[0]"),
    ("bug", "C04", T, "iterable = (range(v*ndof, (v+1)*ndof) for v in dofs)", "iterable = (range(v*self._shape[0], (v+1)*self._shape[0]) for v in dofs)"),
]
