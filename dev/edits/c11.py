Q = "finat/quadrature.py"
EDITS = [
    # --- refactorings
    ("same", "C11", Q, """        try:
            degree = tuple(degree)
        except TypeError:
            degree = (degree,) * len(ref_el.cells)

        assert len(ref_el.cells) == len(degree)
        quad_rules = [make_quadrature(c, d, scheme)
                      for c, d in zip(ref_el.cells, degree)]
        return TensorProductQuadratureRule(quad_rules, ref_el=ref_el)
""", """        cells = ref_el.cells
        try:
            degrees = tuple(degree)
        except TypeError:
            degrees = tuple(degree for _ in cells)
        assert len(cells) == len(degrees)
        rules = []
        for sub_cell, sub_degree in zip(cells, degrees):
            rules.append(make_quadrature(sub_cell, sub_degree, scheme=scheme))
        return TensorProductQuadratureRule(rules, ref_el)
"""),
    ("same", "C11", Q, """        num_points = (degree + 1 + 1) // 2  # exact integration
""", """        num_points = degree // 2 + 1  # exact integration
"""),
    ("same", "C11", Q, """        num_points = (degree + 1 + 1) // 2  # exact integration
""", """        num_points = -(-(degree + 1) // 2)  # exact integration
"""),
    ("same", "C11", Q, """    if ref_el.get_shape() == QUADRILATERAL:
        return make_quadrature(ref_el.product, degree, scheme)

    if degree < 0:
        raise ValueError("Need positive degree, not %d" % degree)

    if ref_el.get_shape() == LINE and not ref_el.is_macrocell():
""", """    shape = ref_el.get_shape()
    if shape == QUADRILATERAL:
        return make_quadrature(ref_el.product, degree, scheme=scheme)

    if degree < 0:
        raise ValueError(f"Need positive degree, not {degree}")

    if shape == LINE and not ref_el.is_macrocell():
"""),
    ("same", "C11", Q, """        return QuadratureRule(point_set, fiat_rule.get_weights(), ref_el=ref_el, io_ornt_map_tuple=fiat_rule._intrinsic_orientation_permutation_map_tuple)

    fiat_rule = fiat_scheme(ref_el, degree, scheme)
    return QuadratureRule(PointSet(fiat_rule.get_points()), fiat_rule.get_weights(), ref_el=ref_el, io_ornt_map_tuple=fiat_rule._intrinsic_orientation_permutation_map_tuple)
""", """    else:
        fiat_rule = fiat_scheme(ref_el, degree, scheme)
        point_set = PointSet(fiat_rule.get_points())
    weights = fiat_rule.get_weights()
    io_map = fiat_rule._intrinsic_orientation_permutation_map_tuple
    return QuadratureRule(point_set, weights, ref_el, io_map)
"""),
    ("same", "C11", Q, """        self._intrinsic_orientation_permutation_map_tuple = tuple(
            m
            for factor in self.factors
            for m in factor._intrinsic_orientation_permutation_map_tuple
        )
""", """        maps = []
        for factor in self.factors:
            maps.extend(factor._intrinsic_orientation_permutation_map_tuple)
        self._intrinsic_orientation_permutation_map_tuple = tuple(maps)
"""),
    ("same", "C11", Q, """        self._intrinsic_orientation_permutation_map_tuple = tuple(
            m
            for factor in self.factors
            for m in factor._intrinsic_orientation_permutation_map_tuple
        )
""", """        self._intrinsic_orientation_permutation_map_tuple = sum(
            (tuple(q._intrinsic_orientation_permutation_map_tuple) for q in self.factors), ())
"""),
    ("same", "C11", Q, """        return reduce(gem.Product, (q.weight_expression for q in self.factors))
""", """        first, *rest = self.factors
        expr = first.weight_expression
        for rule in rest:
            expr = gem.Product(expr, rule.weight_expression)
        return expr
"""),
    ("same", "C11", Q, """        if any(m is None for m in self._intrinsic_orientation_permutation_map_tuple):
            raise ValueError("Must set _intrinsic_orientation_permutation_map_tuple")
        return self._intrinsic_orientation_permutation_map_tuple
""", """        maps = self._intrinsic_orientation_permutation_map_tuple
        for m in maps:
            if m is None:
                raise ValueError("Must set _intrinsic_orientation_permutation_map_tuple")
        return maps
"""),
    ("same", "C11", Q, """        weights = numpy.asarray(weights)
        assert len(point_set.points) == len(weights)

        self.ref_el = ref_el
        self.point_set = point_set
        self.weights = numpy.asarray(weights)
""", """        self.weights = numpy.asarray(weights)
        self.point_set = point_set
        self.ref_el = ref_el
        assert len(self.weights) == len(self.point_set.points)
"""),
    ("same", "C11", Q, """        return gem.Indexed(gem.Literal(self.weights), self.point_set.indices)
""", """        weights = gem.Literal(self.weights)
        return weights[self.point_set.indices]
"""),
    ("same", "C11", Q, """        return TensorPointSet(q.point_set for q in self.factors)
""", """        return TensorPointSet([rule.point_set for rule in self.factors])
"""),
    # --- bugs
    ("bug", "C11", Q, "num_points = (degree + 1 + 1) // 2", "num_points = max(1, (degree + 1) // 2)"),
    ("bug", "C11", Q, "for c, d in zip(ref_el.cells, degree)]", "for c, d in zip(ref_el.cells, sorted(degree))]"),
    ("bug", "C11", Q, "degree = (degree,) * len(ref_el.cells)", "degree = (degree,) * (len(ref_el.cells) - 1) + (max(degree - 1, 0),)"),
    ("bug", "C11", Q, "if ref_el.get_shape() == LINE and not ref_el.is_macrocell():", "if ref_el.get_shape() == LINE:"),
    ("bug", "C11", Q, "return make_quadrature(ref_el.product, degree, scheme)", "return make_quadrature(ref_el.product, degree)"),
    ("bug", "C11", Q, "quad_rules = [make_quadrature(c, d, scheme)", "quad_rules = [make_quadrature(c, d)"),
    ("bug", "C11", Q, "fiat_rule = fiat_scheme(ref_el, degree, scheme)", "fiat_rule = fiat_scheme(ref_el, degree)"),
]
