F = "finat/tensor_product.py"
EDITS = [
    ("bug", "C01", F, "tuple(chain(*(alphas + zetas)))\n                )", "tuple(chain(*(zetas + alphas)))\n                )"),
    ("bug", "C01", F, "alpha + zeta)", "zeta + alpha)"),
    ("bug", "C01", F, "for derivative in range(order + 1)", "for derivative in range(order)"),
    ("bug", "C01", F, "entity = (self.cell.get_dimension(), 0)", "entity = (tuple(reversed(self.cell.get_dimension())), 0)"),
    ("bug", "C01", F, "for i in range(s.start, s.stop)]", "for i in range(0, s.stop - s.start)]"),
    ("bug", "C01", F, "ps = PointSet(point_set.points[:, s])", "ps = PointSet(point_set.points[:, slices[0]])"),
    ("bug", "C01", F, "            ps.indices = point_set.indices\n", ""),
    ("bug", "C01", F, "ps = TensorPointSet(pss)", "ps = TensorPointSet(pss[::-1])"),
    ("bug", "C01", F, "sum(fe.formdegree for fe in self.factors)", "max(fe.formdegree for fe in self.factors)"),
    ("bug", "C01", F, "tuple(fe.degree for fe in self.factors)", "tuple(fe.degree for fe in self.factors[::-1])"),
    ("bug", "C01", F, "zip(self.factors, ps_factors, entities)", "zip(self.factors, ps_factors, entities[::-1])"),
    ("bug", "C01", F, "fe.basis_evaluation(order, ps_, e)", "fe.basis_evaluation(order - 1, ps_, e)"),
    ("bug", "C01", F, 'if fe.mapping != "affine"]', 'if fe.mapping == "affine"]'),
    ("bug", "C01", F, "            return mappings[0]", "            return None"),
    ("bug", "C01", F, "numpy.prod([fe.space_dimension()", "numpy.sum([fe.space_dimension()"),
    ("bug", "C01", F, "FIAT.TensorProductElement(A.fiat_equivalent, B.fiat_equivalent)", "FIAT.TensorProductElement(B.fiat_equivalent, A.fiat_equivalent)"),
    ("bug", "C01", F, "zip(entity_dim, numpy.unravel_index(entity_id, shape))", "zip(entity_dim, numpy.unravel_index(entity_id, shape[::-1])[::-1])"),
    ("same", "C01", F, """                scalars = []
                for fr, delta, alpha, zeta in zip(factor_results, deltas, alphas, zetas):
                    # Turn basis shape to free indices, select the
                    # right derivative entry, and collect the result.
                    scalars.append(gem.Indexed(fr[delta], alpha + zeta))
""", """                scalars = [gem.Indexed(table[part], a + z)
                           for table, part, a, z in zip(factor_results, deltas, alphas, zetas)]
"""),
    ("same", "C01", F, """        else:
            raise NotImplementedError("Only one nonscalar factor permitted!")
""", """        elif len(shapes) > 1:
            raise NotImplementedError("Only one nonscalar factor permitted!")
"""),
    ("same", "C01", F, """                result[Delta] = gem.ComponentTensor(
                    reduce(gem.Product, scalars),
                    tuple(chain(*(alphas + zetas)))
                )
""", """                prod = scalars[0]
                for s in scalars[1:]:
                    prod = gem.Product(prod, s)
                index = ()
                for a in alphas:
                    index += a
                for z in zetas:
                    index = index + z
                result[Delta] = gem.ComponentTensor(prod, index)
"""),
    ("same", "C01", F, """        point_factors = []
        for s in slices:
            point_factors.append(gem.ListTensor(
                [gem.Indexed(refcoords, (i,))
                 for i in range(s.start, s.stop)]
            ))
""", """        point_factors = []
        for s in slices:
            coords = []
            for i in range(s.start, s.stop):
                coords.append(gem.Indexed(refcoords, (i,)))
            point_factors.append(gem.ListTensor(coords))
"""),
    ("same", "C01", F, """        dofs[dim] = dict(enumerate(v for k, v in sorted(dim_dofs)))
""", """        dim_dofs.sort()
        dofs[dim] = {n: v for n, (k, v) in enumerate(dim_dofs)}
"""),
]
