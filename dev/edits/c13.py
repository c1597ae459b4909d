Q = "finat/quadrature_element.py"
EDITS = [
    # --- refactorings
    ("same", "C13", Q, """        entity_dofs = {dim: {entity: [] for entity in entities}
                       for dim, entities in self.cell.get_topology().items()}
        entity_dofs[self.cell.get_dimension()] = {0: list(range(self.space_dimension()))}
        return entity_dofs
""", """        topology = self.cell.get_topology()
        entity_dofs = {dim: {entity: [] for entity in topology[dim]} for dim in topology}
        entity_dofs[self.cell.get_dimension()][0] = list(range(self.space_dimension()))
        return entity_dofs
"""),
    ("same", "C13", Q, """        entity_dofs = {dim: {entity: [] for entity in entities}
                       for dim, entities in self.cell.get_topology().items()}
        entity_dofs[self.cell.get_dimension()] = {0: list(range(self.space_dimension()))}
        return entity_dofs
""", """        top = self.cell.get_dimension()
        entity_dofs = {}
        for dim, entities in self.cell.get_topology().items():
            if dim == top:
                entity_dofs[dim] = {0: [*range(self.space_dimension())]}
            else:
                entity_dofs[dim] = {entity: [] for entity in entities}
        return entity_dofs
"""),
    ("same", "C13", Q, """        return numpy.prod(self.index_shape, dtype=int)
""", """        return int(numpy.prod(self.index_shape, dtype=int))
"""),
    ("same", "C13", Q, """        return numpy.prod(self.index_shape, dtype=int)
""", """        size = 1
        for extent in self.index_shape:
            size *= extent
        return size
"""),
    ("same", "C13", Q, """        ps = self._rule.point_set
        return tuple(index.extent for index in ps.indices)
""", """        return tuple([q.extent for q in self._rule.point_set.indices])
"""),
    ("same", "C13", Q, """        weights = getattr(self._rule, 'weights', None)
        if weights is None:
            # we need the weights.
            weights, = evaluate([self._rule.weight_expression])
            weights = weights.arr.flatten()
            self._rule.weights = weights

        return FIAT.QuadratureElement(self.cell, ps.points, weights)
""", """        rule = self._rule
        if getattr(rule, 'weights', None) is None:
            # we need the weights.
            result, = evaluate([rule.weight_expression])
            rule.weights = result.arr.flatten()
        return FIAT.QuadratureElement(self.cell, ps.points, rule.weights)
"""),
    ("same", "C13", Q, """        if entity is not None and entity != (self.cell.get_dimension(), 0):
            raise ValueError('QuadratureElement does not "tabulate" on subentities.')

        if order:
            raise ValueError("Derivatives are not defined on a QuadratureElement.")

        if not self._rule.point_set.almost_equal(ps):
            raise ValueError("Mismatch of quadrature points!")
""", """        interior = (self.cell.get_dimension(), 0)
        if not (entity is None or entity == interior):
            raise ValueError('QuadratureElement does not "tabulate" on subentities.')

        if order > 0:
            raise ValueError("Derivatives are not defined on a QuadratureElement.")

        same_points = self._rule.point_set.almost_equal(ps)
        if not same_points:
            raise ValueError("Mismatch of quadrature points!")
"""),
    ("same", "C13", Q, """        # Return an outer product of identity matrices
        multiindex = self.get_indices()
        product = reduce(gem.Product, [gem.Delta(q, r)
                                       for q, r in zip(ps.indices, multiindex)])

        dim = self.cell.get_spatial_dimension()
        return {(0,) * dim: gem.ComponentTensor(product, multiindex)}
""", """        dim = self.cell.get_spatial_dimension()
        return {(0,) * dim: self._identity(ps)}

    def _identity(self, ps):
        # Outer product of identity matrices
        multiindex = self.get_indices()
        expr = None
        for q, r in zip(ps.indices, multiindex):
            delta = gem.Delta(q, r)
            expr = delta if expr is None else gem.Product(expr, delta)
        return gem.ComponentTensor(expr, multiindex)
"""),
    ("same", "C13", Q, """        ps = self._rule.point_set
        multiindex = self.get_indices()
        # Evaluation matrix is just an outer product of identity
        # matrices, evaluation points are just the quadrature points.
        Q = reduce(gem.Product, (gem.Delta(q, r)
                                 for q, r in zip(ps.indices, multiindex)))
        Q = gem.ComponentTensor(Q, multiindex)
        return Q, ps
""", """        points = self._rule.point_set
        alpha = self.get_indices()
        deltas = [gem.Delta(r, q) for q, r in zip(points.indices, alpha)]
        return gem.ComponentTensor(reduce(gem.Product, deltas), alpha), points
"""),
    ("same", "C13", Q, """        if not isinstance(rule, AbstractQuadratureRule):
            raise TypeError("rule is not an AbstractQuadratureRule")
        if fiat_ref_cell.get_spatial_dimension() != rule.point_set.dimension:
            raise ValueError("Cell dimension does not match rule's point set dimension")
        self._rule = rule
""", """        if isinstance(rule, AbstractQuadratureRule):
            if fiat_ref_cell.get_spatial_dimension() != rule.point_set.dimension:
                raise ValueError("Cell dimension does not match rule's point set dimension")
            self._rule = rule
        else:
            raise TypeError("rule is not an AbstractQuadratureRule")
"""),
    ("same", "C13", Q, """    rule = make_quadrature(fiat_ref_cell, degree, scheme=scheme)
    return QuadratureElement(fiat_ref_cell, rule)
""", """    return QuadratureElement(fiat_ref_cell, make_quadrature(fiat_ref_cell, degree, scheme))
"""),
    # --- bugs
    ("bug", "C13", Q, "rule = make_quadrature(fiat_ref_cell, degree, scheme=scheme)", "rule = make_quadrature(fiat_ref_cell, degree)"),
    ("bug", "C13", Q, "for q, r in zip(ps.indices, multiindex)))", "for q, r in zip(ps.indices[::-1], multiindex)))"),
    ("bug", "C13", Q, "entity != (self.cell.get_dimension(), 0)", "entity[0] != self.cell.get_dimension()"),
    ("bug", "C13", Q, "if not self._rule.point_set.almost_equal(ps):", "if self._rule.point_set.points.shape != ps.points.shape:"),
]
