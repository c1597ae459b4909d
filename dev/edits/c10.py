R = "finat/restricted.py"
Q = "finat/quadrature.py"
P = "finat/point_set.py"
E = "finat/quadrature_element.py"
S = "finat/spectral.py"
U = "finat/runtime_tabulated.py"
EDITS = [
    ("bug", "C10", R, "restriction_domain=domain, take_closure=take_closure))", "restriction_domain=domain))"),
    ("bug", "C10", R, "        return finat.FlattenedDimensions(restricted)", "        return restricted"),
    ("bug", "C10", R, 'if domain == "interior":\n        return element', 'if domain in ("interior", "facet"):\n        return element'),
    ("bug", "C10", R, "reconstruct = finat.mixed.MixedElement", "reconstruct = finat.EnrichedElement"),
    ("bug", "C10", R, "elif not any(isinstance(e, finat.mixed.MixedSubElement) for e in element.elements):", "elif not all(isinstance(e, finat.mixed.MixedSubElement) for e in element.elements):"),
    ("bug", "C10", R, "restrict(e, domain, take_closure)\n                         for e in element.elements)", "restrict(e, domain, False)\n                         for e in element.elements)"),
    ("bug", "C10", R, "restricted, element._shape, element._transpose)", "restricted, element._shape)"),
    ("bug", "C10", R, "finat.HCurlElement(e)\n", "finat.HDivElement(e)\n"),
    ("bug", "C10", R, "        return dim - 2\n", "        return 2\n"),
    ("bug", "C10", R, "    elif d == 1:\n        return \"edge\"", "    elif d == 1:\n        return \"facet\""),
    ("bug", "C10", R, "(take_closure and domain != \"interior\")", "take_closure"),
    ("bug", "C10", R, "    take_closure = False\n    elements = []", "    elements = []"),
    ("bug", "C10", R, "if all(f is not null_element for f in new_factors):", "if any(f is not null_element for f in new_factors):"),
    ("bug", "C10", R, "zip(factors, decomposition))", "zip(factors, decomposition[::-1]))"),
    ("bug", "C10", R, "take_closure=True)\n    if", "take_closure=False)\n    if"),
    ("bug", "C10", R, "        raise ValueError(\"Restricted element is empty\")", "        return element"),
    ("bug", "C10", R, "if all(d <= factor.cell.get_dimension()", "if all(d < factor.cell.get_dimension()"),
    ("bug", "C10", R, "for c in range(codim, upper)))", "for c in range(codim, upper + 1)))"),
    ("same", "C10", R, """    elements = []
    for decomposition in restrictions:
        # Recurse, but don't take closure in recursion (since we
        # handled it already).
        new_factors = tuple(
            restrict(factor, codim_to_r(codim, factor.cell.get_dimension()),
                     take_closure)
            for factor, codim in zip(factors, decomposition))
        # If one of the factors was empty then the whole TPE is empty,
        # so skip.
        if all(f is not null_element for f in new_factors):
            elements.append(finat.TensorProductElement(new_factors))
    if elements:
        return finat.EnrichedElement(elements)
    else:
        return null_element
""", """    def pieces():
        for decomposition in restrictions:
            new_factors = []
            for factor, c in zip(factors, decomposition):
                r = codim_to_r(c, factor.cell.get_dimension())
                new_factors.append(restrict(factor, r, take_closure))
            if not any(f is null_element for f in new_factors):
                yield finat.TensorProductElement(tuple(new_factors))

    elements = list(pieces())
    if not elements:
        return null_element
    return finat.EnrichedElement(elements)
"""),
    ("same", "C10", R, """    if restriction == "interior":
        return 0
    elif restriction == "facet":
        return 1
    elif restriction == "face":
        return dim - 2
    elif restriction == "edge":
        return dim - 1
    elif restriction == "vertex":
        return dim
    else:
        raise ValueError
""", """    codims = {"interior": 0, "facet": 1, "face": dim - 2, "edge": dim - 1, "vertex": dim}
    try:
        return codims[restriction]
    except KeyError:
        raise ValueError(restriction)
"""),
    ("same", "C10", R, """    restricted = restrict(element.wrappee, domain, take_closure)
    if restricted is null_element:
        return null_element
    else:
        if isinstance(restricted, finat.EnrichedElement):
            return finat.EnrichedElement(finat.HDivElement(e)
                                         for e in restricted.elements)
        else:
            return finat.HDivElement(restricted)
""", """    return _rewrap(finat.HDivElement, restrict(element.wrappee, domain, take_closure))


def _rewrap(kind, restricted):
    if restricted is null_element:
        return restricted
    parts = restricted.elements if isinstance(restricted, finat.EnrichedElement) else [restricted]
    return finat.EnrichedElement(list(map(kind, parts)))
"""),
    ("same", "C10", R, """    elements = tuple(e for e in elements if e is not null_element)
    if elements:
        return reconstruct(elements)
    else:
        return null_element
""", """    nonempty = []
    for e in elements:
        if e is null_element:
            continue
        nonempty.append(e)
    return reconstruct(nonempty) if len(nonempty) > 0 else null_element
"""),
    ("bug", "C11", Q, "num_points = (degree + 1 + 1) // 2", "num_points = (degree + 1) // 2"),
    ("bug", "C11", Q, "return make_quadrature(ref_el.product, degree, scheme)", "return make_quadrature(ref_el.product, degree)"),
    ("bug", "C11", Q, "[make_quadrature(c, d, scheme)", "[make_quadrature(c, max(degree), scheme)"),
    ("bug", "C11", Q, "TensorProductQuadratureRule(quad_rules, ref_el=ref_el)", "TensorProductQuadratureRule(quad_rules)"),
    ("bug", "C11", Q, "if ref_el.get_shape() == LINE and not ref_el.is_macrocell():", "if ref_el.get_shape() == LINE:"),
    ("bug", "C11", Q, "fiat_scheme(ref_el, degree, scheme)", "fiat_scheme(ref_el, degree)"),
    ("same", "C11", Q, "        self.factors = tuple(factors)\n        self._intrinsic", "        factors = iter(factors)\n        self.factors = tuple(factors)\n        self._intrinsic"),
    ("bug", "C11", Q, "            for factor in self.factors\n            for m in factor", "            for factor in factors\n            for m in factor"),
    ("bug", "C11", Q, "PointSet(fiat_rule.get_points()), fiat_rule.get_weights(), ref_el=ref_el, io_ornt_map_tuple=fiat_rule._intrinsic_orientation_permutation_map_tuple)", "PointSet(fiat_rule.get_points()), fiat_rule.get_weights(), ref_el=ref_el)"),
    ("bug", "C11", Q, "if any(m is None for m in", "if all(m is None for m in"),
    ("bug", "C11", Q, "gem.Literal(self.weights), self.point_set.indices", "gem.Literal(self.weights), gem.indices(1)"),
    ("bug", "C11", Q, "TensorPointSet(q.point_set for q in self.factors)", "TensorPointSet(q.point_set for q in self.factors[::-1])"),
    ("same", "C11", Q, """        try:
            degree = tuple(degree)
        except TypeError:
            degree = (degree,) * len(ref_el.cells)

        assert len(ref_el.cells) == len(degree)
        quad_rules = [make_quadrature(c, d, scheme)
                      for c, d in zip(ref_el.cells, degree)]
        return TensorProductQuadratureRule(quad_rules, ref_el=ref_el)
""", """        cells = ref_el.cells
        try:
            degrees = list(degree)
        except TypeError:
            degrees = [degree for _ in cells]
        assert len(cells) == len(degrees)
        quad_rules = []
        for i, cell in enumerate(cells):
            quad_rules.append(make_quadrature(cell, degrees[i], scheme=scheme))
        return TensorProductQuadratureRule(quad_rules, ref_el)
"""),
    ("same", "C11", Q, """        num_points = (degree + 1 + 1) // 2  # exact integration
""", """        num_points = degree // 2 + 1
"""),
    ("same", "C11", Q, """        self._intrinsic_orientation_permutation_map_tuple = tuple(
            m
            for factor in self.factors
            for m in factor._intrinsic_orientation_permutation_map_tuple
        )
""", """        maps = ()
        for factor in self.factors:
            maps += tuple(factor._intrinsic_orientation_permutation_map_tuple)
        self._intrinsic_orientation_permutation_map_tuple = maps
"""),
    ("bug", "C12", P, "        N, _ = self._points_expr.shape", "        _, N = self._points_expr.shape"),
    ("bug", "C12", P, "    @cached_property\n    def indices(self):\n        return (gem.Index(extent=len(self.points)),)", "    @property\n    def indices(self):\n        return (gem.Index(extent=len(self.points)),)"),
    ("bug", "C12", P, "gem.Index(extent=len(self.points))", "gem.Index(extent=self.points.shape[1])"),
    ("bug", "C12", P, "for pt_tuple in product(*[ps.points\n                                                      for ps in self.factors])])", "for pt_tuple in product(*[ps.points\n                                                      for ps in self.factors[::-1]])])"),
    ("bug", "C12", P, "for i in range(point_set.dimension):", "for i in reversed(range(point_set.dimension)):"),
    ("bug", "C12", P, "            all(s.almost_equal(o, tolerance=tolerance)", "            all(s.almost_equal(o)"),
    ("bug", "C12", P, "            len(self.factors) == len(other.factors) and \\\n", ""),
    ("bug", "C12", P, "rtol=0, atol=tolerance", "atol=tolerance"),
    ("bug", "C12", P, "return type(self) is type(other) and \\\n            self.points.shape", "return isinstance(other, type(self)) and \\\n            self.points.shape"),
    ("bug", "C12", P, "self.point.reshape(1, -1)", "self.point.reshape(-1, 1)"),
    ("same", "C12", P, """        return numpy.array([list(chain(*pt_tuple))
                            for pt_tuple in product(*[ps.points
                                                      for ps in self.factors])])
""", """        rows = []
        for pt_tuple in product(*[ps.points for ps in self.factors]):
            row = []
            for pt in pt_tuple:
                row.extend(pt)
            rows.append(row)
        return numpy.array(rows)
"""),
    ("same", "C12", P, """        return type(self) is type(other) and \\
            self.points.shape == other.points.shape and \\
            numpy.allclose(self.points, other.points, rtol=0, atol=tolerance)
""", """        if type(self) is not type(other):
            return False
        if self.points.shape != other.points.shape:
            return False
        return numpy.allclose(other.points, self.points, atol=tolerance, rtol=0)
"""),
    ("same", "C12", P, """        return type(self) is type(other) and \\
            self.points.shape == other.points.shape and \\
            numpy.allclose(self.points, other.points, rtol=0, atol=tolerance)
""", """        if type(self) is not type(other) or self.points.shape != other.points.shape:
            return False
        return bool(numpy.all(numpy.abs(self.points - other.points) <= tolerance))
"""),
    ("same", "C12", P, """        result = []
        for point_set in self.factors:
            for i in range(point_set.dimension):
                result.append(gem.Indexed(point_set.expression, (i,)))
        return gem.ListTensor(result)
""", """        return gem.ListTensor([ps.expression[i] for ps in self.factors for i in range(ps.dimension)])
"""),
    ("bug", "C13", E, "if order:", "if order > 1:"),
    ("bug", "C13", E, "not self._rule.point_set.almost_equal(ps)", "self._rule.point_set.points.shape != ps.points.shape"),
    ("bug", "C13", E, " {0: list(range(self.space_dimension()))}", " {0: list(range(self.cell.get_spatial_dimension()))}"),
    ("bug", "C13", E, "if entity is not None and entity != (self.cell.get_dimension(), 0):", "if entity is not None and entity[0] != self.cell.get_dimension():"),
    ("bug", "C13", E, "fiat_ref_cell.get_spatial_dimension() != rule.point_set.dimension", "fiat_ref_cell.get_spatial_dimension() < rule.point_set.dimension"),
    ("bug", "C13", E, "rule = make_quadrature(fiat_ref_cell, degree, scheme=scheme)", "rule = make_quadrature(fiat_ref_cell, degree)"),
    ("bug", "C13", E, "        Q = gem.ComponentTensor(Q, multiindex)", "        Q = gem.ComponentTensor(Q, multiindex[::-1])"),
    ("same", "C13", E, """        entity_dofs = {dim: {entity: [] for entity in entities}
                       for dim, entities in self.cell.get_topology().items()}
        entity_dofs[self.cell.get_dimension()] = {0: list(range(self.space_dimension()))}
        return entity_dofs
""", """        interior = self.cell.get_dimension()
        entity_dofs = {}
        for dim, entities in self.cell.get_topology().items():
            if dim == interior:
                entity_dofs[dim] = {0: list(range(self.space_dimension()))}
            else:
                entity_dofs[dim] = {entity: [] for entity in entities}
        return entity_dofs
"""),
    ("same", "C13", E, """        if order:
            raise ValueError("Derivatives are not defined on a QuadratureElement.")

        if not self._rule.point_set.almost_equal(ps):
            raise ValueError("Mismatch of quadrature points!")
""", """        if not self._rule.point_set.almost_equal(ps):
            raise ValueError("Mismatch of quadrature points!")

        if order > 0:
            raise ValueError("Derivatives are not defined on a QuadratureElement.")
"""),
    ("bug", "C14", S, "isinstance(ps, GaussLobattoLegendrePointSet) and len(ps.points) == space_dim", "isinstance(ps, GaussLobattoLegendrePointSet)"),
    ("bug", "C14", S, "isinstance(ps, GaussLegendrePointSet) and len(ps.points) == space_dim", "isinstance(ps, (GaussLegendrePointSet, GaussLobattoLegendrePointSet)) and len(ps.points) == space_dim"),
    ("bug", "C14", S, "if entity is None or entity == (cell_dimension, 0):", "if entity is None or entity[1] == 0:"),
    ("bug", "C14", S, "result = super().basis_evaluation(order, ps, entity)", "result = super().basis_evaluation(order, ps)"),
    ("bug", "C14", S, "gem.ComponentTensor(gem.Delta(q, r), (r,))\n        return result\n\n\nclass GaussLegendre", "gem.ComponentTensor(gem.Delta(r, q), (r,))\n            result = {(0,) * self.cell.get_spatial_dimension(): result[(0,) * self.cell.get_spatial_dimension()]}\n        return result\n\n\nclass GaussLegendre"),
    ("same", "C14", S, """        result = super().basis_evaluation(order, ps, entity)
        cell_dimension = self.cell.get_dimension()
        if entity is None or entity == (cell_dimension, 0):  # on cell interior
            space_dim = self.space_dimension()
            if isinstance(ps, GaussLegendrePointSet) and len(ps.points) == space_dim:
                # Bingo: evaluation points match node locations!
                spatial_dim = self.cell.get_spatial_dimension()
                q, = ps.indices
                r, = self.get_indices()
                result[(0,) * spatial_dim] = gem.ComponentTensor(gem.Delta(q, r), (r,))
        return result
""", """        result = super().basis_evaluation(order, ps, entity)
        interior = entity in (None, (self.cell.get_dimension(), 0))
        if not (interior and isinstance(ps, GaussLegendrePointSet)):
            return result
        if self.space_dimension() != len(ps.points):
            return result
        (q,), (r,) = ps.indices, self.get_indices()
        result.update({(0,) * self.cell.get_spatial_dimension(): gem.ComponentTensor(gem.Delta(r, q), (r,))})
        return result
"""),
    ("bug", "C15", U, "''.join(map(str, alpha)),", "sum(alpha),"),
    ("bug", "C15", U, "'-': \"m\"}", "'-': \"p\"}"),
    ("bug", "C15", U, "'c' if self.continuous else 'd'", "'c'"),
    ("bug", "C15", U, "range(order + 1)", "range(order, order + 1)"),
    ("bug", "C15", U, "tuple(index.extent for index in ps.indices) + self.index_shape", "self.index_shape + tuple(index.extent for index in ps.indices)"),
    ("bug", "C15", U, "return self.degree + 1", "return self.degree + self.shift_axes + 1"),
    ("bug", "C15", U, "            return 0\n        else:\n            return self.cell.get_spatial_dimension()", "            return 0\n        else:\n            return 0"),
    ("same", "C15", U, """                name = str.format("rt_{}_{}_{}_{}_{}_{}",
                                  self.variant,
                                  self.degree,
                                  ''.join(map(str, alpha)),
                                  self.shift_axes,
                                  'c' if self.continuous else 'd',
                                  {None: "",
                                   '+': "p",
                                   '-': "m"}[self.restriction])
""", """                digits = ''.join(str(a) for a in alpha)
                side = "" if self.restriction is None else ("p" if self.restriction == '+' else "m")
                cont = 'c' if self.continuous else 'd'
                name = f"rt_{self.variant}_{self.degree}_{digits}_{self.shift_axes}_{cont}_{side}"
"""),
]
