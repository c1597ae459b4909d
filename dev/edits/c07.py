F = "finat/hdivcurl.py"
EDITS = [
    ("same", "C07", F, """        def promote(table):
            v = gem.partial_indexed(table, beta)
            u = gem.ListTensor(self.transform(v))
            return gem.ComponentTensor(gem.Indexed(u, zeta), beta + zeta)

        return {alpha: promote(table)
                for alpha, table in core_eval.items()}
""", """        result = {}
        for alpha in core_eval:
            u = gem.ListTensor(self.transform(gem.partial_indexed(core_eval[alpha], beta)))
            result[alpha] = gem.ComponentTensor(u[zeta], beta + zeta)
        return result
"""),
    ("same", "C07", F, """        Q = gem.ListTensor(self.transform(gem.partial_indexed(Q, beta)))
        # Finally wrap up Q in shape again (now with some extra
        # value_shape indices)
        return gem.ComponentTensor(Q[zeta], beta + zeta), x
""", """        values = self.transform(gem.partial_indexed(Q, beta))
        weights = gem.ComponentTensor(gem.Indexed(gem.ListTensor(values), zeta), beta + zeta)
        return weights, x
"""),
    ("same", "C07", F, "        if any(fe.formdegree is None for fe in wrappee.factors):\n            raise ValueError(\"Form degree of subelement is None, cannot H(div)!\")\n\n        formdegree = sum(fe.formdegree for fe in wrappee.factors)\n",
     "        ks = [fe.formdegree for fe in wrappee.factors]\n        if None in ks:\n            raise ValueError(\"Form degree of subelement is None, cannot H(div)!\")\n        formdegree = sum(ks)\n"),
    ("same", "C07", F, """    if ks == (0, 1):
        # Make the scalar value the leftward-pointing normal on the
        # y-aligned edges.
        return lambda v: [gem.Product(gem.Literal(-1), v), gem.Zero()]
    elif ks == (1, 0):
        # Make the scalar value the upward-pointing normal on the
        # x-aligned edges.
        return lambda v: [gem.Zero(), v]
    elif ks == (2, 0):
        # Same for 3D, so z-plane.
        return lambda v: [gem.Zero(), gem.Zero(), v]
""", """    def leftward(v):
        return [gem.Product(v, gem.Literal(-1)), gem.Zero()]

    if ks == (0, 1):
        return leftward
    if ks[1] == 0 and ks[0] in (1, 2):
        # the scalar value goes last
        return lambda v: [gem.Zero()] * ks[0] + [v]
"""),
    ("same", "C07", F, "            return lambda v: [gem.Indexed(v, (0,)),\n                              gem.Indexed(v, (1,)),\n                              gem.Zero()]\n        elif element.mapping", "            return lambda v: [gem.Indexed(v, (i,)) for i in range(2)] + [gem.Zero()]\n        elif element.mapping"),
    ("same", "C07", F, "return lambda v: [gem.Zero()] * (dim - 1) + [v]", "padding = [gem.Zero() for _ in range(1, dim)]\n            return lambda v: padding + [v]"),
    ("same", "C07", F, """        return lambda v: [gem.Product(gem.Literal(-1), gem.Indexed(v, (1,))),
                          gem.Indexed(v, (0,)),
                          gem.Zero()]
""", """        def rotate(v):
            x, y = (gem.Indexed(v, (i,)) for i in range(2))
            return [gem.Literal(-1) * y, x, gem.Zero()]
        return rotate
"""),
    ("same", "C07", F, """    ks = tuple(fe.formdegree for fe in element.factors)
    if element.mapping == "affine":
        if ks == (1, 0):""", """    first, second = [fe.formdegree for fe in element.factors]
    ks = (first, second)
    if element.mapping == "affine":
        if first == 1 and second == 0:"""),
    ("bug", "C07", F, "return lambda v: [gem.Product(gem.Literal(-1), v), gem.Zero()]", "return lambda v: [v, gem.Zero()]"),
    ("bug", "C07", F, "gem.Product(gem.Literal(-1), gem.Indexed(v, (0,))),", "gem.Indexed(v, (0,)),"),
    ("bug", "C07", F, "[gem.Product(gem.Literal(-1), gem.Indexed(v, (1,))),\n                          gem.Indexed(v, (0,)),", "[gem.Indexed(v, (1,)),\n                          gem.Product(gem.Literal(-1), gem.Indexed(v, (0,))),"),
    ("bug", "C07", F, "Q = gem.ListTensor(self.transform(gem.partial_indexed(Q, beta)))", "Q = gem.ListTensor(self.transform(gem.partial_indexed(Q, beta))[::-1])"),
    ("bug", "C07", F, "self.wrappee.point_evaluation(order, refcoords, entity)", "self.wrappee.point_evaluation(order, refcoords)"),
    ("bug", "C07", F, "if formdegree != wrappee.cell.get_spatial_dimension() - 1:", "if formdegree > wrappee.cell.get_spatial_dimension() - 1:"),
    ("bug", "C07", F, "            return lambda v: [v, gem.Zero()]", "            return lambda v: [gem.Zero(), v]"),
    ("bug", "C08", F, "return self.wrappee.entity_support_dofs()", "return self.wrappee.entity_closure_dofs()"),
]
