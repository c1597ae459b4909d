F = "finat/tensor_product.py"
G = "finat/cube.py"
EDITS = [
    ("bug", "C02", F, "shape = tuple(fe.space_dimension() for fe in factors)", "shape = tuple(fe.space_dimension() for fe in factors)[::-1]"),
    ("bug", "C02", F, "            tuple_vs = list(product(*[topd[ei]\n", "            tuple_vs = list(product(*[sorted(topd[ei])\n"),
    ("bug", "C02", F, "        dofs[dim] = dict(enumerate(v for k, v in sorted(dim_dofs)))", "        dofs[dim] = dict(enumerate(v for k, v in sorted(dim_dofs, key=lambda kv: kv[0][::-1])))"),
    ("bug", "C02", F, "productise(self.factors, methodcaller(\"entity_support_dofs\"))", "productise(self.factors, methodcaller(\"entity_closure_dofs\"))"),
    ("bug", "C02", F, "permutations[dim] = dict(enumerate(v for k, v in sorted(dim_permutations)))", "permutations[dim] = dict(enumerate(v for k, v in sorted(dim_permutations, key=lambda kv: kv[0][::-1])))"),
    ("bug", "C02", F, "make_entity_permutations_tensorproduct(cells, dim, o_p_maps)", "make_entity_permutations_tensorproduct(cells, dim, o_p_maps[::-1])"),
    ("bug", "C02", F, "for dim in product(*[cell.get_topology().keys() for cell in cells]):", "for dim in product(*[list(cell.get_topology().keys())[1:] for cell in cells]):"),
    ("bug", "C02", G, "flatten_entities(self.product.entity_support_dofs())", "flatten_entities(self.product.entity_dofs())"),
    ("bug", "C02", G, "return self.product.point_evaluation(order, refcoords, self._unflatten[entity])", "return self.product.point_evaluation(order, refcoords, entity)"),
    ("bug", "C02", G, "compute_unflattening_map(element.cell.get_topology())", "compute_unflattening_map(element.complex.get_topology())"),
    ("bug", "C02", G, "unique_degree, = set(self.product.degree)\n        return unique_degree", "return self.product.degree[0]"),
    ("bug", "C02", G, "if dim == 2:", "if dim <= 2:"),
    ("same", "C02", F, """        dofs[dim] = dict(enumerate(v for k, v in sorted(dim_dofs)))
""", """        dim_dofs.sort()
        dofs[dim] = {n: v for n, (k, v) in enumerate(dim_dofs)}
"""),
    ("same", "C02", F, """            if tuple_vs:
                vs = list(numpy.ravel_multi_index(numpy.transpose(tuple_vs), shape))
                dim_dofs.append((tuple_ei, vs))
            else:
                dim_dofs.append((tuple_ei, []))
""", """            vs = [int(numpy.ravel_multi_index(t, shape)) for t in tuple_vs]
            dim_dofs.append((tuple_ei, vs))
"""),
    ("same", "C02", F, """        for e_tuple in product(*[sorted(e_o_p_map) for e_o_p_map in e_o_p_maps]):
            o_p_maps = [e_o_p_map[e] for e_o_p_map, e in zip(e_o_p_maps, e_tuple)]
            o_tuple_perm_map = make_entity_permutations_tensorproduct(cells, dim, o_p_maps)
            dim_permutations.append((e_tuple, o_tuple_perm_map))
        permutations[dim] = dict(enumerate(v for k, v in sorted(dim_permutations)))
""", """        entities = sorted(product(*e_o_p_maps))
        permutations[dim] = {
            i: make_entity_permutations_tensorproduct(cells, dim, [m[e] for m, e in zip(e_o_p_maps, es)])
            for i, es in enumerate(entities)}
"""),
    ("same", "C02", G, """        if dim == 2:
            return UFCQuadrilateral()
        elif dim == 3:
            return UFCHexahedron()
        else:
            raise NotImplementedError("Cannot guess cell for spatial dimension %s" % dim)
""", """        cells = {2: UFCQuadrilateral, 3: UFCHexahedron}
        if dim not in cells:
            raise NotImplementedError("Cannot guess cell for spatial dimension %s" % dim)
        return cells[dim]()
"""),
]
