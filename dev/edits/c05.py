F = "finat/enriched.py"
EDITS = [
    # --- refactorings
    ("same", "C05", F, """    offsets = numpy.cumsum([0] + list(e.space_dimension()
                                      for e in elements), dtype=int)
    for i, d in enumerate(map(method, elements)):
        for dim, dofs in d.items():
            for ent, off in dofs.items():
                entity_dofs[dim][ent] += list(map(partial(add, offsets[i]), off))
""", """    offset = 0
    for element in elements:
        for dim, dofs in method(element).items():
            for ent, off in dofs.items():
                entity_dofs[dim][ent].extend(offset + dof for dof in off)
        offset += element.space_dimension()
"""),
    ("same", "C05", F, """    offsets = numpy.cumsum([0] + list(e.space_dimension()
                                      for e in elements), dtype=int)
    for i, d in enumerate(map(method, elements)):
        for dim, dofs in d.items():
            for ent, off in dofs.items():
                entity_dofs[dim][ent] += list(map(partial(add, offsets[i]), off))
""", """    sizes = [e.space_dimension() for e in elements]
    for i, element in enumerate(elements):
        start = sum(sizes[:i])
        table = method(element)
        for dim in table:
            for ent in table[dim]:
                entity_dofs[dim][ent] += [start + dof for dof in table[dim][ent]]
"""),
    ("same", "C05", F, "for i, d in enumerate(map(method, elements)):\n        for dim, dofs in d.items():", "for i in range(len(elements)):\n        for dim, dofs in method(elements[i]).items():"),
    ("same", "C05", F, "entity_dofs[dim][ent] += list(map(partial(add, offsets[i]), off))", "entity_dofs[dim][ent].extend(int(offsets[i]) + dof for dof in off)"),
    ("same", "C05", F, "entity_dofs[dim][ent] += list(map(partial(add, offsets[i]), off))", "entity_dofs[dim][ent] = entity_dofs[dim][ent] + [dof + offsets[i] for dof in off]"),
    ("same", "C05", F, "elements = tuple(chain.from_iterable(e.elements if isinstance(e, EnrichedElement) else (e,) for e in elements))", """flat = []
        for e in elements:
            if isinstance(e, EnrichedElement):
                flat.extend(e.elements)
            else:
                flat.append(e)
        elements = tuple(flat)"""),
    ("same", "C05", F, """        if len(elements) == 1:
            return elements[0]
        else:
            self = super().__new__(cls)
            self.elements = elements
            return self
""", """        if len(elements) == 1:
            single, = elements
            return single
        self = super().__new__(cls)
        self.elements = elements
        return self
"""),
    ("same", "C05", F, """        ks = set(elem.formdegree for elem in self.elements)
        if None in ks:
            return None
        else:
            return max(ks)
""", """        if any(elem.formdegree is None for elem in self.elements):
            return None
        return max(elem.formdegree for elem in self.elements)
"""),
    ("same", "C05", F, """        mappings = set(elem.mapping for elem in self.elements)
        if len(mappings) != 1:
            return None
        else:
            result, = mappings
            return result
""", """        first = self.elements[0].mapping
        if all(elem.mapping == first for elem in self.elements):
            return first
        return None
"""),
    ("same", "C05", F, """        mappings = set(elem.mapping for elem in self.elements)
        if len(mappings) != 1:
            return None
        else:
            result, = mappings
            return result
""", """        mappings = {elem.mapping for elem in self.elements}
        return mappings.pop() if len(mappings) == 1 else None
"""),
    ("same", "C05", F, """            for elem, table in zip(self.elements, tables):
                beta_i = elem.get_indices()
                tensors.append(gem.ComponentTensor(
                    gem.Indexed(table, beta_i + zeta),
                    beta_i
                ))
            beta = self.get_indices()
            return gem.ComponentTensor(
                gem.Indexed(gem.Concatenate(*tensors), beta),
                beta + zeta
            )
""", """            def without_values(elem, table):
                beta_i = elem.get_indices()
                return gem.ComponentTensor(gem.Indexed(table, beta_i + zeta), beta_i)

            tensors = [without_values(elem, table) for elem, table in zip(self.elements, tables)]
            beta = self.get_indices()
            values = gem.Indexed(gem.Concatenate(*tensors), beta)
            return gem.ComponentTensor(values, beta + zeta)
"""),
    ("same", "C05", F, """        return {key: merge(result[key] for result in results)
                for key in keys}
""", """        composed = {}
        for key in keys:
            composed[key] = merge([result[key] for result in results])
        return composed
"""),
    ("same", "C05", F, """        results = [element.basis_evaluation(order, ps, entity, coordinate_mapping=coordinate_mapping)
                   for element in self.elements]
""", """        results = []
        for element in self.elements:
            results.append(element.basis_evaluation(order, ps, entity=entity, coordinate_mapping=coordinate_mapping))
"""),
    ("same", "C05", F, "return sum(elem.space_dimension() for elem in self.elements)", "dim = 0\n        for elem in self.elements:\n            dim += elem.space_dimension()\n        return dim"),
    ("same", "C05", F, """    nonleaf, = set(isinstance(arg, tuple) for arg in args)
    if nonleaf:
        ndim, = set(map(len, args))  # asserts equal arity of all args
        return tuple(tree_map(f, *subargs) for subargs in zip(*args))
    else:
        return f(*args)
""", """    nonleaf, = {isinstance(arg, tuple) for arg in args}
    if not nonleaf:
        return f(*args)
    arity, = {len(arg) for arg in args}
    return tuple(tree_map(f, *(arg[k] for arg in args)) for k in range(arity))
"""),
    ("same", "C05", F, """                for o, p in o_p_map.items():
                    o_e_dim_permutations = e_dim_permutations.setdefault(o, [])
                    offset = len(o_e_dim_permutations)
                    o_e_dim_permutations += list(offset + q for q in p)
""", """                for o, p in o_p_map.items():
                    done = e_dim_permutations.get(o, [])
                    e_dim_permutations[o] = done + [len(done) + q for q in p]
"""),
    ("same", "C05", F, """                for o, p in o_p_map.items():
                    o_e_dim_permutations = e_dim_permutations.setdefault(o, [])
                    offset = len(o_e_dim_permutations)
                    o_e_dim_permutations += list(offset + q for q in p)
""", """                for o in o_p_map:
                    perm = e_dim_permutations.setdefault(o, [])
                    start = len(perm)
                    for q in o_p_map[o]:
                        perm.append(start + q)
"""),
    ("same", "C05", F, """            for e, o_p_map in e_o_p_map.items():
                e_dim_permutations = dim_permutations.setdefault(e, {})
""", """            for e, o_p_map in e_o_p_map.items():
                if e not in dim_permutations:
                    dim_permutations[e] = {}
                e_dim_permutations = dim_permutations[e]
"""),
    ("same", "C05", F, """        if self.is_mixed:
            # EnrichedElement is actually a MixedElement
            return FIAT.MixedElement([e.element.fiat_equivalent
                                      for e in self.elements], ref_el=self.cell)
        else:
            return FIAT.EnrichedElement(*(e.fiat_equivalent
                                          for e in self.elements))
""", """        if not self.is_mixed:
            parts = [e.fiat_equivalent for e in self.elements]
            return FIAT.EnrichedElement(*parts)
        return FIAT.MixedElement([e.element.fiat_equivalent for e in self.elements], ref_el=self.cell)
"""),
    # --- bugs
    ("bug", "C05", F, "entity_dofs[dim][ent] += list(map(partial(add, offsets[i]), off))", "entity_dofs[dim][ent] = list(map(partial(add, offsets[i]), off)) + entity_dofs[dim][ent]"),
    ("bug", "C05", F, "offset = len(o_e_dim_permutations)", "offset = max(o_e_dim_permutations, default=0)"),
    ("bug", "C05", F, "for elem, table in zip(self.elements, tables):", "for elem, table in zip(sorted(self.elements, key=lambda e: e.space_dimension()), tables):"),
    ("bug", "C05", F, "return tree_map(max, *[elem.degree", "return tree_map(min, *[elem.degree"),
    ("bug", "C05", F, "        if None in ks:\n            return None\n        else:\n            return max(ks)", "        ks.discard(None)\n        return max(ks) if ks else None"),
    ("bug", "C05", F, "element.point_evaluation(order, refcoords, entity)", "element.point_evaluation(order, refcoords)"),
    ("bug", "C05", F, "return concatenate_entity_dofs(self.cell, self.elements,\n                                       methodcaller(\"entity_support_dofs\"))", "return concatenate_entity_dofs(self.cell, self.elements,\n                                       methodcaller(\"entity_closure_dofs\"))"),
    ("bug", "C05", F, "        if len(mappings) != 1:\n            return None\n        else:\n            result, = mappings\n            return result", "        return self.elements[0].mapping"),
]
