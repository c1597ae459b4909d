D = "finat/discontinuous.py"
C = "finat/cube.py"
N = "finat/nodal_enriched.py"
EDITS = [
    ("same", "C08", D, """        result[cell_dimension][0].extend(range(self.space_dimension()))
        return result
""", """        result[cell_dimension] = {0: list(range(self.space_dimension()))}
        return result
"""),
    ("same", "C08", D, """        result = {dim: {i: [] for i in entities}
                  for dim, entities in self.cell.get_topology().items()}
        cell_dimension = self.cell.get_dimension()
        result[cell_dimension][0].extend(range(self.space_dimension()))
        return result
""", """        top = self.cell.get_dimension()
        interior = list(range(self.space_dimension()))
        return {dim: {i: interior if dim == top else [] for i in entities}
                for dim, entities in self.cell.get_topology().items()}
""") if False else ("same", "C08", D, "        cell_dimension = self.cell.get_dimension()\n        result[cell_dimension][0]", "        result[self.cell.get_dimension()][0]"),
    ("same", "C08", D, """        if self.element.entity_dofs() == self.element.entity_closure_dofs():
            return self.element.entity_permutations
        else:
            raise NotImplementedError(f"entity_permutations not yet implemented for a general {type(self)}")
""", """        if self.element.entity_dofs() != self.element.entity_closure_dofs():
            raise NotImplementedError("entity_permutations not yet implemented for a general %s" % type(self))
        return self.element.entity_permutations
"""),
    ("same", "C08", D, "return self.element.basis_evaluation(order, ps, entity, coordinate_mapping=coordinate_mapping)", "core = self.element\n        return core.basis_evaluation(order, ps, entity=entity, coordinate_mapping=coordinate_mapping)"),
    ("same", "C08", C, """        if entity is None:
            entity = (self.cell.get_spatial_dimension(), 0)

        return self.product.basis_evaluation(order, ps, self._unflatten[entity])

    def point_evaluation(self, order, refcoords, entity=None):
        if entity is None:
            entity = (self.cell.get_spatial_dimension(), 0)

        return self.product.point_evaluation(order, refcoords, self._unflatten[entity])
""", """        return self.product.basis_evaluation(order, ps, self._product_entity(entity))

    def _product_entity(self, entity):
        if entity is None:
            entity = (self.cell.get_spatial_dimension(), 0)
        return self._unflatten[entity]

    def point_evaluation(self, order, refcoords, entity=None):
        return self.product.point_evaluation(order, refcoords, self._product_entity(entity))
"""),
    ("same", "C08", C, "        unique_degree, = set(self.product.degree)\n        return unique_degree", "        degrees = set(self.product.degree)\n        unique_degree, = degrees\n        return unique_degree"),
    ("same", "C08", C, """        if dim == 2:
            return UFCQuadrilateral()
        elif dim == 3:
            return UFCHexahedron()
        else:
            raise NotImplementedError("Cannot guess cell for spatial dimension %s" % dim)
""", """        if dim not in (2, 3):
            raise NotImplementedError("Cannot guess cell for spatial dimension %s" % dim)
        return UFCQuadrilateral() if dim == 2 else UFCHexahedron()
"""),
    ("bug", "C08", D, "self.element.point_evaluation(order, refcoords, entity)", "self.element.point_evaluation(order, refcoords)"),
    ("bug", "C08", D, "entity, coordinate_mapping=coordinate_mapping)", "entity)"),
    ("bug", "C08", D, "return self.element.complex", "return self.element.cell"),
    ("bug", "C08", D, "return self.element.cell.get_spatial_dimension()", "return self.element.formdegree"),
    ("bug", "C08", D, "return self.element.mapping", 'return "affine"'),
    ("bug", "C08 C02", C, "return self.product.complex", "return self.cell"),
    ("bug", "C02 C08", C, "        return self.product.point_evaluation(order, refcoords, self._unflatten[entity])", "        return self.product.point_evaluation(order, refcoords, self._unflatten[(entity[0], 0)])"),
]
