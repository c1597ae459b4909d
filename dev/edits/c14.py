S = "finat/spectral.py"
GL = """            if isinstance(ps, GaussLegendrePointSet) and len(ps.points) == space_dim:
                # Bingo: evaluation points match node locations!
                spatial_dim = self.cell.get_spatial_dimension()
                q, = ps.indices
                r, = self.get_indices()
                result[(0,) * spatial_dim] = gem.ComponentTensor(gem.Delta(q, r), (r,))
"""
GLL = GL.replace("GaussLegendreP", "GaussLobattoLegendreP")
EDITS = [
    # --- refactorings
    ("same", "C14", S, """        result = super().basis_evaluation(order, ps, entity)
        cell_dimension = self.cell.get_dimension()
        if entity is None or entity == (cell_dimension, 0):  # on cell interior
            space_dim = self.space_dimension()
""" + GLL, """        result = super().basis_evaluation(order, ps, entity=entity)
        interior = entity is None or entity == (self.cell.get_dimension(), 0)
        if interior and isinstance(ps, GaussLobattoLegendrePointSet) and len(ps.points) == self.space_dimension():
            # Bingo: evaluation points match node locations!
            alpha = (0,) * self.cell.get_spatial_dimension()
            (q,), (r,) = ps.indices, self.get_indices()
            result[alpha] = gem.ComponentTensor(gem.Delta(q, r), (r,))
"""),
    ("same", "C14", S, GL, """            collocated = isinstance(ps, GaussLegendrePointSet) and ps.points.shape[0] == space_dim
            if not collocated:
                return result
            # Bingo: evaluation points match node locations!
            q, = ps.indices
            r, = self.get_indices()
            result.update({(0,) * self.cell.get_spatial_dimension(): gem.ComponentTensor(gem.Delta(r, q), (r,))})
"""),
    ("same", "C14", S, """        result = super().basis_evaluation(order, ps, entity)
        cell_dimension = self.cell.get_dimension()
        if entity is None or entity == (cell_dimension, 0):  # on cell interior
            space_dim = self.space_dimension()
""" + GLL + "        return result\n", """        tables = super().basis_evaluation(order, ps, entity)
        return collocate(self, tables, ps, entity, GaussLobattoLegendrePointSet)


def collocate(element, tables, ps, entity, point_set_type):
    if entity is not None and entity != (element.cell.get_dimension(), 0):
        return tables
    if isinstance(ps, point_set_type) and len(ps.points) == element.space_dimension():
        zero = (0,) * element.cell.get_spatial_dimension()
        q, = ps.indices
        r, = element.get_indices()
        tables[zero] = gem.ComponentTensor(gem.Delta(q, r), (r,))
    return tables
"""),
    # --- bugs
    ("bug", "C14", S, GL, GL.replace(" and len(ps.points) == space_dim", "")),
    ("bug", "C14", S, GL, GL.replace("== space_dim", "<= space_dim")),
    ("bug", "C14", S, "isinstance(ps, GaussLegendrePointSet) and", "isinstance(ps, (GaussLegendrePointSet, GaussLobattoLegendrePointSet)) and"),
    ("bug", "C14", S, "if entity is None or entity == (cell_dimension, 0):", "if entity is None or entity[0] == cell_dimension or entity[1] == 0:"),
]
