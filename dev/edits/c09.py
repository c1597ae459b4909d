B = "finat/finiteelementbase.py"
EDITS = [
    ("bug", "C09", B, "for d, se in sub_entities]))", "for d, se in sub_entities if d < dim or not entity_dofs[dim][e]]))"),
    ("bug", "C09", B, "e: sorted(chain(*[entity_dofs[d][se]", "e: list(chain(*[entity_dofs[d][se]"),
    ("bug", "C09", B, "        entity_dofs = self.entity_dofs()\n        return {dim", "        entity_dofs = getattr(self, '_element', self).entity_dofs()\n        return {dim"),
    ("bug", "C09", "finat/mtw.py", "        reduced_dofs[sd][0] = []\n", ""),
    ("bug", "C09", "finat/mtw.py", "reduced_dofs[sd-1][f][:fdofs]", "reduced_dofs[sd-1][f][-fdofs:]"),
    ("bug", "C09", "finat/piola_mapped.py", "            reduced_dofs[sd-1][entity] = [cur]\n            cur += 1", "            reduced_dofs[sd-1][entity] = [reduced_dofs[sd-1][entity][-1]]"),
    ("bug", "C09", "finat/piola_mapped.py", "reduced_dim += len(reduced_dofs[sd-1][entity][1:])", "reduced_dim += 1"),
    ("bug", "C09", "finat/hct.py", "            reduced_dofs[sd-1][entity] = []\n", "            reduced_dofs[sd-1][entity] = reduced_dofs[sd-1][entity][1:]\n            reduced_dofs[sd-1][entity] += []\n    def _x(self):\n        pass\n") ,
    ("bug", "C09", "finat/aw.py", "[16, 17, 18]", "[16, 17, 18]") ,
    ("bug", "C09", "finat/bell.py", "V = identity(numbf, ndof)", "V = identity(numbf)"),
    ("bug", "C09", "finat/argyris.py", "    def basis_transformation(self", "    @property\n    def index_shape(self):\n        return (21,)\n\n    def basis_transformation(self"),
    ("same", "C09", "finat/mtw.py", """        for f in reduced_dofs[sd-1]:
            reduced_dofs[sd-1][f] = reduced_dofs[sd-1][f][:fdofs]
""", """        for f, dofs in reduced_dofs[sd-1].items():
            del dofs[fdofs:]
"""),
    ("same", "C09", "finat/piola_mapped.py", """        for entity in sorted(reduced_dofs[sd-1]):
            reduced_dim += len(reduced_dofs[sd-1][entity][1:])
            reduced_dofs[sd-1][entity] = [cur]
            cur += 1
""", """        for k, (entity, ids) in enumerate(sorted(reduced_dofs[sd-1].items())):
            reduced_dim = reduced_dim + len(ids) - 1
            reduced_dofs[sd-1][entity] = [cur + k]
"""),
    ("same", "C09", "finat/piola_mapped.py", "        reduced_dofs = deepcopy(self._element.entity_dofs())\n", "        reduced_dofs = {dim: dict(ents) for dim, ents in self._element.entity_dofs().items()}\n"),
    ("same", "C09", B, """        return {dim: {e: sorted(chain(*[entity_dofs[d][se]
                                        for d, se in sub_entities]))
                      for e, sub_entities in entities.items()}
                for dim, entities in self.cell.sub_entities.items()}
""", """        closure = {}
        for dim, entities in self.cell.sub_entities.items():
            closure[dim] = {}
            for e, sub_entities in entities.items():
                dofs = []
                for d, se in sub_entities:
                    dofs.extend(entity_dofs[d][se])
                closure[dim][e] = sorted(dofs)
        return closure
"""),
    ("same", "C09", "finat/bell.py", "    def space_dimension(self):\n        return 18", "    def space_dimension(self):\n        n, = self.index_shape\n        return n"),
    ("same", "C09", "finat/physically_mapped.py", """    V = numpy.eye(*shape, dtype=object)
    for multiindex in numpy.ndindex(V.shape):
        V[multiindex] = zero if V[multiindex] == 0 else one
    return V
""", """    V = numpy.empty(shape if len(shape) == 2 else shape * 2, dtype=object)
    for i in range(V.shape[0]):
        for j in range(V.shape[1]):
            V[i, j] = one if i == j else zero
    return V
"""),
]
EDITS = [e for e in EDITS if e[3] != e[4] and "_x(self)" not in e[4]]
