T = "finat/tensorfiniteelement.py"
N = "finat/enriched.py"
M = "finat/mixed.py"
H = "finat/hdivcurl.py"
D = "finat/discontinuous.py"
EDITS = [
    ("bug", "C03", T, "return self._shape + self._base_element.value_shape", "return self._base_element.value_shape + self._shape"),
    ("bug", "C03", T, "index_ordering = tensor_i + scalar_i + tensor_vi + scalar_vi", "index_ordering = tensor_i + scalar_i + scalar_vi + tensor_vi"),
    ("bug", "C03", T, "for j, k in zip(tensor_i, tensor_vi)))\n\n        if", "for j, k in zip(tensor_i, tensor_vi[::-1])))\n\n        if"),
    ("bug", "C03", T, "scalar_evaluation(order, refcoords, entity))", "scalar_evaluation(order, refcoords))"),
    ("bug", "C03", T, "coordinate_mapping=coordinate_mapping))", "))"),
    ("bug", "C03", T, "return evaluation, tensor_vi + scalar_i", "return evaluation, scalar_i + tensor_vi"),
    ("same", "C03", T, "expri = expr[tensor_i + scalar_vi]", "expri = expr[tensor_vi + scalar_vi]"),
    ("bug", "C03", T, "x.indices + scalar_vi + tensor_i)", "x.indices + scalar_vi)"),
    ("bug", "C03", T, "int(numpy.prod(self.index_shape))", "int(numpy.sum(self.index_shape))"),
    ("same", "C03 C04", T, """        result = {}
        for alpha, expr in scalar_evaluation.items():
            result[alpha] = gem.ComponentTensor(
                gem.Product(deltas, gem.Indexed(expr, scalar_i + scalar_vi)),
                index_ordering
            )
        return result
""", """        def lift(expr):
            return gem.ComponentTensor(deltas * expr[scalar_i + scalar_vi], index_ordering)

        return {alpha: lift(expr) for alpha, expr in scalar_evaluation.items()}
"""),
    ("same", "C03 C04", T, """        if self._transpose:
            index_ordering = tensor_i + scalar_i + tensor_vi + scalar_vi
        else:
            index_ordering = scalar_i + tensor_i + tensor_vi + scalar_vi

        result""", """        basis = (tensor_i + scalar_i) if self._transpose else (scalar_i + tensor_i)
        index_ordering = basis + tensor_vi + scalar_vi

        result"""),
    ("same", "C03 C04", T, """        deltas = reduce(gem.Product, (gem.Delta(j, k)
                                      for j, k in zip(tensor_i, tensor_vi)))

        if""", """        deltas = None
        for j, k in zip(tensor_i, tensor_vi):
            d = gem.Delta(j, k)
            deltas = d if deltas is None else gem.Product(deltas, d)

        if"""),
    ("bug", "C04", T, "range(v*ndof, (v+1)*ndof)", "range(v, v + ndof)"),
    ("bug", "C04", T, "((v + i*space_dim for v in dofs)\n                            for i in range(ndof))", "((v + i*space_dim for i in range(ndof))\n                            for v in dofs)"),
    ("bug", "C04", T, "space_dim = self._base_element.space_dimension()", "space_dim = len(dofs)"),
    ("same", "C04 C03", T, """                iterable = (range(v*ndof, (v+1)*ndof) for v in dofs)
""", """                iterable = ([ndof*v + c for c in range(ndof)] for v in dofs)
"""),
    ("same", "C04 C03", T, """        for dim in self.cell.get_topology().keys():
            dofs[dim] = dict((k, list(expand(d)))
                             for k, d in base_dofs[dim].items())
        return dofs
""", """        for dim in self.cell.get_topology():
            dofs[dim] = {}
            for ent in base_dofs[dim]:
                dofs[dim][ent] = [x for x in expand(base_dofs[dim][ent])]
        return dofs
"""),
    ("same", "C04 C03", T, """            dofs = tuple(dofs)
            if self._transpose:
                space_dim = self._base_element.space_dimension()
                # Components stride by space dimension of base element
                iterable = ((v + i*space_dim for v in dofs)
                            for i in range(ndof))
            else:
                # Components packed together
                iterable = (range(v*ndof, (v+1)*ndof) for v in dofs)
            yield from chain.from_iterable(iterable)
""", """            dofs = tuple(dofs)
            if not self._transpose:
                for v in dofs:
                    yield from range(v*ndof, (v+1)*ndof)
                return
            space_dim = self._base_element.space_dimension()
            for i in range(ndof):
                for v in dofs:
                    yield v + i*space_dim
"""),
    # enriched
    ("bug", "C05", N, "list(offset + q for q in p)", "list(p)"),
    ("bug", "C05", N, "list(offset + q for q in p)", "list(q + len(p) for q in p)"),
    ("bug", "C05", N, "offset = len(o_e_dim_permutations)", "offset = len(e_dim_permutations)"),
    ("bug", "C05", N, "partial(add, offsets[i])", "partial(add, offsets[i + 1])"),
    ("bug", "C05", N, "zip(self.elements, tables)", "zip(self.elements, tables[::-1])"),
    ("bug", "C05", N, "return max(ks)", "return min(ks)"),
    ("bug", "C05", N, "element.point_evaluation(order, refcoords, entity)", "element.point_evaluation(order, refcoords)"),
    ("bug", "C05", N, "tree_map(f, *subargs)", "tree_map(min, *subargs)"),
    ("bug", "C05", N, "return FIAT.EnrichedElement(*(e.fiat_equivalent\n                                          for e in self.elements))", "return FIAT.EnrichedElement(*(e.fiat_equivalent\n                                          for e in self.elements[::-1]))"),
    ("bug", "C05", N, "e.elements if isinstance(e, EnrichedElement) else (e,)", "e.elements[::-1] if isinstance(e, EnrichedElement) else (e,)"),
    ("bug", "C05", N, 'methodcaller("entity_support_dofs")', 'methodcaller("entity_dofs")'),
    ("same", "C05 C06", N, """    offsets = numpy.cumsum([0] + list(e.space_dimension()
                                      for e in elements), dtype=int)
    for i, d in enumerate(map(method, elements)):
        for dim, dofs in d.items():
            for ent, off in dofs.items():
                entity_dofs[dim][ent] += list(map(partial(add, offsets[i]), off))
    return entity_dofs
""", """    offset = 0
    for elem in elements:
        for dim, dofs in method(elem).items():
            for ent, off in dofs.items():
                entity_dofs[dim][ent].extend(offset + dof for dof in off)
        offset += elem.space_dimension()
    return entity_dofs
"""),
    ("same", "C05 C06", N, """        def merge(tables):
            tables = tuple(tables)
            zeta = self.get_value_indices()
            tensors = []
            for elem, table in zip(self.elements, tables):
                beta_i = elem.get_indices()
                tensors.append(gem.ComponentTensor(
                    gem.Indexed(table, beta_i + zeta),
                    beta_i
                ))
""", """        def part(elem, table, zeta):
            beta_i = elem.get_indices()
            return gem.ComponentTensor(table[beta_i + zeta], beta_i)

        def merge(tables):
            zeta = self.get_value_indices()
            tensors = [part(*pair, zeta) for pair in zip(self.elements, tables)]
"""),
    ("same", "C05", N, """                    o_e_dim_permutations = e_dim_permutations.setdefault(o, [])
                    offset = len(o_e_dim_permutations)
                    o_e_dim_permutations += list(offset + q for q in p)
""", """                    old = e_dim_permutations.get(o, [])
                    e_dim_permutations[o] = old + [len(old) + q for q in p]
"""),
    ("same", "C05", N, """        mappings = set(elem.mapping for elem in self.elements)
        if len(mappings) != 1:
            return None
        else:
            result, = mappings
            return result
""", """        first, *rest = [elem.mapping for elem in self.elements]
        return first if all(m == first for m in rest) else None
"""),
    # mixed
    ("bug", "C06", M, "u[self.offset + j] = gem.Indexed(v, zeta)", "u[j] = gem.Indexed(v, zeta)"),
    ("bug", "C06", M, "gem.Indexed(v, zeta)\n        return u", "gem.Indexed(v, zeta[::-1])\n        return u"),
    ("bug", "C06", M, "return self.element.entity_closure_dofs()", "return self.element.entity_dofs()"),
    ("bug", "C06", M, "beta + zeta)", "zeta + beta)"),
    ("bug", "C06", M, "sizes = [numpy.prod(element.value_shape, dtype=int)", "sizes = [numpy.sum(element.value_shape, dtype=int)"),
    ("bug", "C06", M, "for offset, element in zip(offsets, elements)]", "for offset, element in zip(offsets, elements[::-1])]"),
    ("bug", "C06", M, "entity, coordinate_mapping=coordinate_mapping)", "entity)"),
    ("same", "C06", M, """        u = [gem.Zero()] * self.size
        for j, zeta in enumerate(numpy.ndindex(self.element.value_shape)):
            u[self.offset + j] = gem.Indexed(v, zeta)
        return u
""", """        entries = [gem.Indexed(v, zeta) for zeta in numpy.ndindex(self.element.value_shape)]
        before = [gem.Zero()] * self.offset
        after = [gem.Zero()] * (self.size - self.offset - len(entries))
        return before + entries + after
"""),
    ("same", "C06", M, """    sizes = [numpy.prod(element.value_shape, dtype=int)
             for element in elements]
    offsets = [int(offset) for offset in numpy.cumsum([0] + sizes)]
    total_size = offsets.pop()
    return EnrichedElement([MixedSubElement(element, total_size, offset)
                            for offset, element in zip(offsets, elements)])
""", """    total_size = 0
    offsets = []
    for element in elements:
        offsets.append(total_size)
        total_size += int(numpy.prod(element.value_shape, dtype=int))
    return EnrichedElement([MixedSubElement(element, total_size, offset)
                            for offset, element in zip(offsets, elements)])
"""),
    # hdiv/hcurl
    ("bug", "C07", H, "[gem.Product(gem.Literal(-1), v), gem.Zero()]", "[v, gem.Zero()]"),
    ("bug", "C07", H, "return lambda v: [v, gem.Zero()]", "return lambda v: [gem.Zero(), v]"),
    ("bug", "C07", H, "[gem.Zero()] * (dim - 1) + [v]", "[v] + [gem.Zero()] * (dim - 1)"),
    ("bug", "C07", H, "Q = gem.ListTensor(self.transform(gem.partial_indexed(Q, beta)))", "Q = gem.ListTensor(self.transform(gem.partial_indexed(Q, beta))[::-1])"),
    ("bug", "C07", H, "if formdegree != 1:", "if formdegree > 1:"),
    ("bug", "C07", H, "gem.ComponentTensor(Q[zeta], beta + zeta), x", "gem.ComponentTensor(Q[zeta], zeta + beta), x"),
    ("bug", "C08", H, "return self.wrappee.entity_closure_dofs()", "return self.wrappee.entity_dofs()"),
    ("bug", "C08", D, "return self.element.point_evaluation(order, refcoords, entity)", "return self.element.point_evaluation(order, refcoords)"),
    ("bug", "C08", D, "extend(range(self.space_dimension()))", "extend(self.element.entity_dofs()[cell_dimension][0])"),
    ("same", "C07 C08", H, """        def promote(table):
            v = gem.partial_indexed(table, beta)
            u = gem.ListTensor(self.transform(v))
            return gem.ComponentTensor(gem.Indexed(u, zeta), beta + zeta)

        return {alpha: promote(table)
                for alpha, table in core_eval.items()}
""", """        out = {}
        for alpha, table in core_eval.items():
            components = self.transform(gem.partial_indexed(table, beta))
            out[alpha] = gem.ComponentTensor(gem.ListTensor(components)[zeta], beta + zeta)
        return out
"""),
    ("same", "C07 C08", H, """    ks = tuple(fe.formdegree for fe in element.factors)
    if ks == (0, 1):
        # Make the scalar value the leftward-pointing normal on the
        # y-aligned edges.
        return lambda v: [gem.Product(gem.Literal(-1), v), gem.Zero()]
    elif ks == (1, 0):
        # Make the scalar value the upward-pointing normal on the
        # x-aligned edges.
        return lambda v: [gem.Zero(), v]
    elif ks == (2, 0):
        # Same for 3D, so z-plane.
        return lambda v: [gem.Zero(), gem.Zero(), v]
""", """    ks = tuple(fe.formdegree for fe in element.factors)

    def leftward(v):
        minus = gem.Literal(-1)
        return [gem.Product(minus, v), gem.Zero()]

    simple = {(0, 1): leftward,
              (1, 0): lambda v: [gem.Zero(), v],
              (2, 0): lambda v: [gem.Zero(), gem.Zero(), v]}
    if ks in simple:
        return simple[ks]
"""),
    ("same", "C08", D, """        result = {dim: {i: [] for i in entities}
                  for dim, entities in self.cell.get_topology().items()}
        cell_dimension = self.cell.get_dimension()
        result[cell_dimension][0].extend(range(self.space_dimension()))
        return result
""", """        result = {}
        for dim, entities in self.cell.get_topology().items():
            result[dim] = dict((i, []) for i in entities)
        result[self.cell.get_dimension()][0] = list(range(self.element.space_dimension()))
        return result
"""),
]
