"""Refactorings run against every check that reads the file (dev/cross.py r2)."""
Q = "finat/quadrature.py"
P = "finat/point_set.py"
QE = "finat/quadrature_element.py"
RT = "finat/runtime_tabulated.py"
PM = "finat/physically_mapped.py"
PI = "finat/piola_mapped.py"
AR = "finat/argyris.py"
SP = "finat/spectral.py"
S2 = "finat/sympy2gem.py"
FB = "finat/finiteelementbase.py"
DS = "finat/direct_serendipity.py"
EDITS = [
    # 0
    ("same", "", Q, """    if ref_el.get_shape() == TENSORPRODUCT:
        try:
            degree = tuple(degree)
        except TypeError:
            degree = (degree,) * len(ref_el.cells)

        assert len(ref_el.cells) == len(degree)
        quad_rules = [make_quadrature(c, d, scheme)
                      for c, d in zip(ref_el.cells, degree)]
        return TensorProductQuadratureRule(quad_rules, ref_el=ref_el)

    if ref_el.get_shape() == QUADRILATERAL:
        return make_quadrature(ref_el.product, degree, scheme)
""", """    shape = ref_el.get_shape()
    if shape == QUADRILATERAL:
        return make_quadrature(ref_el.product, degree, scheme=scheme)

    if shape == TENSORPRODUCT:
        cells = ref_el.cells
        try:
            degrees = list(degree)
        except TypeError:
            degrees = [degree for _ in cells]
        assert len(degrees) == len(cells)
        rules = tuple(make_quadrature(cells[i], degrees[i], scheme) for i in range(len(cells)))
        return TensorProductQuadratureRule(rules, ref_el=ref_el)
"""),
    # 1
    ("same", "", Q, """        num_points = (degree + 1 + 1) // 2  # exact integration
        fiat_rule = GaussLegendreQuadratureLineRule(ref_el, num_points)
        point_set = GaussLegendrePointSet(fiat_rule.get_points())
        return QuadratureRule(point_set, fiat_rule.get_weights(), ref_el=ref_el, io_ornt_map_tuple=fiat_rule._intrinsic_orientation_permutation_map_tuple)

    fiat_rule = fiat_scheme(ref_el, degree, scheme)
    return QuadratureRule(PointSet(fiat_rule.get_points()), fiat_rule.get_weights(), ref_el=ref_el, io_ornt_map_tuple=fiat_rule._intrinsic_orientation_permutation_map_tuple)
""", """        fiat_rule = GaussLegendreQuadratureLineRule(ref_el, degree // 2 + 1)
        point_set_class = GaussLegendrePointSet
    else:
        fiat_rule = fiat_scheme(ref_el, degree, scheme)
        point_set_class = PointSet
    points, weights = fiat_rule.get_points(), fiat_rule.get_weights()
    maps = fiat_rule._intrinsic_orientation_permutation_map_tuple
    return QuadratureRule(point_set_class(points), weights, ref_el, maps)
"""),
    # 2
    ("same", "", Q, """        self._intrinsic_orientation_permutation_map_tuple = tuple(
            m
            for factor in self.factors
            for m in factor._intrinsic_orientation_permutation_map_tuple
        )
""", """        maps = ()
        for factor in self.factors:
            maps += tuple(factor._intrinsic_orientation_permutation_map_tuple)
        self._intrinsic_orientation_permutation_map_tuple = maps
"""),
    # 3
    ("same", "", Q, """        return TensorPointSet(q.point_set for q in self.factors)

    @cached_property
    def weight_expression(self):
        return reduce(gem.Product, (q.weight_expression for q in self.factors))
""", """        return TensorPointSet([q.point_set for q in self.factors])

    @cached_property
    def weight_expression(self):
        first, *rest = [q.weight_expression for q in self.factors]
        for factor in rest:
            first = gem.Product(first, factor)
        return first
"""),
    # 4
    ("same", "", Q, """        if any(m is None for m in self._intrinsic_orientation_permutation_map_tuple):
            raise ValueError("Must set _intrinsic_orientation_permutation_map_tuple")
        return self._intrinsic_orientation_permutation_map_tuple
""", """        maps = self._intrinsic_orientation_permutation_map_tuple
        for m in maps:
            if m is None:
                raise ValueError("Must set _intrinsic_orientation_permutation_map_tuple")
        return maps
"""),
    # 5
    ("same", "", P, """        return numpy.array([list(chain(*pt_tuple))
                            for pt_tuple in product(*[ps.points
                                                      for ps in self.factors])])
""", """        rows = []
        for combination in product(*(ps.points for ps in self.factors)):
            rows.append(numpy.concatenate(combination))
        return numpy.asarray(rows)
"""),
    # 6
    ("same", "", P, """        result = []
        for point_set in self.factors:
            for i in range(point_set.dimension):
                result.append(gem.Indexed(point_set.expression, (i,)))
        return gem.ListTensor(result)
""", """        return gem.ListTensor([gem.Indexed(point_set.expression, (i,))
                               for point_set in self.factors
                               for i in range(point_set.dimension)])
"""),
    # 7
    ("same", "", P, """        return type(self) is type(other) and \\
            len(self.factors) == len(other.factors) and \\
            all(s.almost_equal(o, tolerance=tolerance)
                for s, o in zip(self.factors, other.factors))""", """        if type(self) is not type(other):
            return False
        if len(self.factors) != len(other.factors):
            return False
        for s, o in zip(self.factors, other.factors):
            if not s.almost_equal(o, tolerance):
                return False
        return True"""),
    # 8
    ("same", "", P, """        return type(self) is type(other) and \\
            self.points.shape == other.points.shape and \\
            numpy.allclose(self.points, other.points, rtol=0, atol=tolerance)
""", """        if type(other) is not type(self):
            return False
        mine, theirs = self.points, other.points
        if mine.shape != theirs.shape:
            return False
        return bool(numpy.all(abs(mine - theirs) <= tolerance))
"""),
    # 9
    ("same", "", QE, """        # Inspired by ffc/quadratureelement.py
        entity_dofs = {dim: {entity: [] for entity in entities}
                       for dim, entities in self.cell.get_topology().items()}
        entity_dofs[self.cell.get_dimension()] = {0: list(range(self.space_dimension()))}
        return entity_dofs
""", """        # Inspired by ffc/quadratureelement.py
        cell_dim = self.cell.get_dimension()
        entity_dofs = dict()
        for dim, entities in self.cell.get_topology().items():
            if dim == cell_dim:
                entity_dofs[dim] = {0: [i for i in range(self.space_dimension())]}
            else:
                entity_dofs[dim] = {entity: list() for entity in entities.keys()}
        return entity_dofs
"""),
    # 10
    ("same", "", QE, """        if entity is not None and entity != (self.cell.get_dimension(), 0):
            raise ValueError('QuadratureElement does not "tabulate" on subentities.')

        if order:
            raise ValueError("Derivatives are not defined on a QuadratureElement.")

        if not self._rule.point_set.almost_equal(ps):
            raise ValueError("Mismatch of quadrature points!")

        # Return an outer product of identity matrices
        multiindex = self.get_indices()
        product = reduce(gem.Product, [gem.Delta(q, r)
                                       for q, r in zip(ps.indices, multiindex)])

        dim = self.cell.get_spatial_dimension()
        return {(0,) * dim: gem.ComponentTensor(product, multiindex)}
""", """        cell = self.cell
        if entity not in (None, (cell.get_dimension(), 0)):
            raise ValueError('QuadratureElement does not "tabulate" on subentities.')
        if order != 0:
            raise ValueError("Derivatives are not defined on a QuadratureElement.")
        if not self._rule.point_set.almost_equal(ps):
            raise ValueError("Mismatch of quadrature points!")

        alpha = tuple(0 for _ in range(cell.get_spatial_dimension()))
        return {alpha: self._identity(ps)}

    def _identity(self, ps):
        multiindex = self.get_indices()
        deltas = map(gem.Delta, ps.indices, multiindex)
        return gem.ComponentTensor(reduce(gem.Product, deltas), multiindex)
"""),
    # 11
    ("same", "", QE, """        weights = getattr(self._rule, 'weights', None)
        if weights is None:
            # we need the weights.
            weights, = evaluate([self._rule.weight_expression])
            weights = weights.arr.flatten()
            self._rule.weights = weights

        return FIAT.QuadratureElement(self.cell, ps.points, weights)
""", """        try:
            weights = self._rule.weights
        except AttributeError:
            # we need the weights.
            result, = evaluate([self._rule.weight_expression])
            weights = self._rule.weights = result.arr.flatten()

        return FIAT.QuadratureElement(self.cell, ps.points, weights)
"""),
    # 12
    ("same", "", RT, """                name = str.format("rt_{}_{}_{}_{}_{}_{}",
                                  self.variant,
                                  self.degree,
                                  ''.join(map(str, alpha)),
                                  self.shift_axes,
                                  'c' if self.continuous else 'd',
                                  {None: "",
                                   '+': "p",
                                   '-': "m"}[self.restriction])
""", """                derivs = ''.join(str(a) for a in alpha)
                kind = 'c' if self.continuous else 'd'
                side = {'+': "p", '-': "m"}.get(self.restriction, "")
                name = f"rt_{self.variant}_{self.degree}_{derivs}_{self.shift_axes}_{kind}_{side}"
"""),
    # 13
    ("same", "", RT, """                name = str.format("rt_{}_{}_{}_{}_{}_{}",
                                  self.variant,
                                  self.degree,
                                  ''.join(map(str, alpha)),
                                  self.shift_axes,
                                  'c' if self.continuous else 'd',
                                  {None: "",
                                   '+': "p",
                                   '-': "m"}[self.restriction])
                result[alpha] = gem.partial_indexed(gem.Variable(name, shape), ps.indices)
        return result
""", """                table = gem.Variable(self._name(alpha), shape)
                result[alpha] = gem.partial_indexed(table, ps.indices)
        return result

    def _name(self, alpha):
        side = ""
        if self.restriction is not None:
            side = "p" if self.restriction == '+' else "m"
        parts = ["rt", self.variant, str(self.degree), "".join(map(str, alpha)),
                 str(self.shift_axes), 'c' if self.continuous else 'd', side]
        return "_".join(parts)
"""),
    # 14
    ("same", "", PM, """        M = self.basis_transformation(coordinate_mapping)
        M, = gem.optimise.constant_fold_zero((M,))

        def matvec(table):
            table, = gem.optimise.constant_fold_zero((table,))
            i, j = gem.indices(2)
            value_indices = self.get_value_indices()
            table = gem.Indexed(table, (j, ) + value_indices)
            val = gem.ComponentTensor(gem.IndexSum(M[i, j]*table, (j,)), (i,) + value_indices)
            # Eliminate zeros
            return gem.optimise.aggressive_unroll(val)

        result = super().basis_evaluation(order, ps, entity=entity)

        return {alpha: matvec(table)
                for alpha, table in result.items()}
""", """        tables = super().basis_evaluation(order, ps, entity)
        M, = gem.optimise.constant_fold_zero((self.basis_transformation(coordinate_mapping),))
        transformed = {}
        for alpha in tables:
            transformed[alpha] = self._matvec(M, tables[alpha])
        return transformed

    def _matvec(self, M, table):
        folded, = gem.optimise.constant_fold_zero((table,))
        i, j = gem.indices(2)
        zeta = self.get_value_indices()
        summand = gem.Product(gem.Indexed(M, (i, j)), gem.Indexed(folded, (j, *zeta)))
        val = gem.ComponentTensor(gem.IndexSum(summand, (j,)), (i, *zeta))
        # Eliminate zeros
        return gem.optimise.aggressive_unroll(val)
"""),
    # 15
    ("same", "", PM, """    V = numpy.eye(*shape, dtype=object)
    for multiindex in numpy.ndindex(V.shape):
        V[multiindex] = zero if V[multiindex] == 0 else one
    return V
""", """    rows, cols = shape if len(shape) == 2 else shape * 2
    V = numpy.full((rows, cols), zero, dtype=object)
    for i in range(min(rows, cols)):
        V[i, i] = one
    return V
"""),
    # 16
    ("same", "", PI, """        detA = A[0, 0] * determinant(A[1:, 1:])
        cols = numpy.ones(A.shape[1], dtype=bool)
        for j in range(1, n):
            cols[j] = False
            detA += (-1)**j * A[0, j] * determinant(A[1:][:, cols])
            cols[j] = True
        return detA
""", """        detA = 0
        for j in range(n):
            others = [k for k in range(n) if k != j]
            detA = detA + (-1)**j * A[0, j] * determinant(A[1:][:, others])
        return detA
"""),
    # 17
    ("same", "", PI, """    rows = numpy.ones(A.shape[0], dtype=bool)
    cols = numpy.ones(A.shape[1], dtype=bool)
    for i in range(A.shape[0]):
        rows[i] = False
        for j in range(A.shape[1]):
            cols[j] = False
            C[j, i] = (-1)**(i+j)*determinant(A[rows, :][:, cols])
            cols[j] = True
        rows[i] = True
    return C
""", """    m, n = A.shape
    for i, j in numpy.ndindex(m, n):
        rows = [k for k in range(m) if k != i]
        cols = [k for k in range(n) if k != j]
        minor = determinant(A[numpy.ix_(rows, cols)])
        C[j, i] = minor if (i + j) % 2 == 0 else -1 * minor
    return C
"""),
    # 18
    ("same", "", PI, """        for dim in dofs:
            if dim == sd-1:
                continue
            for e in sorted(dofs[dim]):
                k = 0
                while k < len(dofs[dim][e]):
                    cur = dofs[dim][e][k]
                    if len(nodes[cur].deriv_dict) > 0:
                        V[cur, cur] = detJ
                        k += 1
                    else:
                        s = dofs[dim][e][k:k+sd]
                        V[numpy.ix_(s, s)] = Finv
                        k += sd
""", """        for dim, entities in dofs.items():
            if dim != sd-1:
                for e in sorted(entities):
                    todo = list(entities[e])
                    while todo:
                        cur = todo[0]
                        if nodes[cur].deriv_dict:
                            V[cur, cur] = detJ
                            todo = todo[1:]
                        else:
                            s, todo = todo[:sd], todo[sd:]
                            V[numpy.ix_(s, s)] = Finv
"""),
    # 19
    ("same", "", PI, """        if sd == 2:
            transform = normal_tangential_edge_transform
        elif sd == 3:
            transform = normal_tangential_face_transform

        for f in sorted(dofs[sd-1]):
            rows = numpy.asarray(transform(self.cell, J, detJ, f))
            cur_dofs = dofs[sd-1][f]
            cur_bfs = bfs[sd-1][f][1:]
            V[numpy.ix_(cur_bfs, cur_dofs)] = rows[..., :len(cur_dofs)]
        return ListTensor(V.T)
""", """        transform = {2: normal_tangential_edge_transform,
                     3: normal_tangential_face_transform}[sd]

        for f, cur_dofs in sorted(dofs[sd-1].items()):
            rows = numpy.array(transform(self.cell, J, detJ, f))
            _, *cur_bfs = bfs[sd-1][f]
            V[numpy.ix_(cur_bfs, cur_dofs)] = rows[..., :len(cur_dofs)]
        return ListTensor(numpy.transpose(V))
"""),
    # 20
    ("same", "", PI, """        reduced_dofs = deepcopy(self._element.entity_dofs())
        reduced_dim = 0
        cur = reduced_dofs[sd-1][0][0]
        for entity in sorted(reduced_dofs[sd-1]):
            reduced_dim += len(reduced_dofs[sd-1][entity][1:])
            reduced_dofs[sd-1][entity] = [cur]
            cur += 1
        self._entity_dofs = reduced_dofs
        self._space_dimension = fiat_element.space_dimension() - reduced_dim
""", """        full = self._element.entity_dofs()
        first = full[sd-1][0][0]
        self._entity_dofs = {dim: {e: list(d) for e, d in entities.items()}
                             for dim, entities in full.items()}
        removed = 0
        for n, entity in enumerate(sorted(full[sd-1])):
            removed += len(full[sd-1][entity]) - 1
            self._entity_dofs[sd-1][entity] = [first + n]
        self._space_dimension = fiat_element.space_dimension() - removed
"""),
    # 21
    ("same", "", PI, """    Jn = J @ Literal(nhat)
    Jt = J @ Literal(that)
    alpha = Jn @ Jt
    beta = Jt @ Jt
    # Compute the last row of inv([[1, 0], [alpha/detJ, beta/detJ]])
    row = (-1 * alpha / beta, detJ / beta)
    return row
""", """    Jn, Jt = (J @ Literal(v) for v in (nhat, that))
    beta = Jt @ Jt
    # Compute the last row of inv([[1, 0], [alpha/detJ, beta/detJ]])
    return (-1 * (Jn @ Jt) / beta, detJ / beta)
"""),
    # 22
    ("same", "", AR, """        hdofs = (sd*(sd+1))//2
        indices = [(i, j) for i in range(sd) for j in range(i, sd)]
        H = numpy.zeros((hdofs, hdofs), dtype=object)
        for p, (i, j) in enumerate(indices):
            for q, (m, n) in enumerate(indices):
                H[p, q] = J[m, i] * J[n, j] + J[m, j] * J[n, i]
        H[:, [i == j for i, j in indices]] *= 0.5
""", """        from itertools import combinations_with_replacement
        indices = list(combinations_with_replacement(range(sd), 2))
        hdofs = len(indices)
        H = numpy.empty((hdofs, hdofs), dtype=object)
        for p, (i, j) in enumerate(indices):
            for q, (m, n) in enumerate(indices):
                entry = J[m, i] * J[n, j] + J[m, j] * J[n, i]
                H[p, q] = 0.5 * entry if m == n else entry
"""),
    # 23
    ("same", "", AR, """    s = 0
    for v in sorted(top[0]):
        s += 1
        V[s:s+gdofs, s:s+gdofs] = G
        s += gdofs
        V[s:s+hdofs, s:s+hdofs] = H
        s += hdofs
    return V
""", """    stride = 1 + gdofs + hdofs
    for n, _ in enumerate(sorted(top[0])):
        g = n * stride + 1
        h = g + gdofs
        for a in range(gdofs):
            for b in range(gdofs):
                V[g+a, g+b] = G[a][b]
        for a in range(hdofs):
            for b in range(hdofs):
                V[h+a, h+b] = H[a][b]
    return V
"""),
    # 24
    ("same", "", AR, """        v0id, v1id = (v * voffset for v in top[1][e])
        s0 = len(top[0]) * voffset + e * eoffset
        for k in range(eorder+1):
            s = s0 + k
            # Jacobi polynomial at the endpoints
            P1 = comb(k + vorder, k)
            P0 = -(-1)**k * P1
            V[s, s] = Bnn
            V[s, v1id] = P1 * Bnt
            V[s, v0id] = P0 * Bnt
            if k > 0:
                V[s, s + eorder] = -1 * Bnt
""", """        v0, v1 = top[1][e]
        start = len(top[0]) * voffset + e * eoffset
        for k, s in enumerate(range(start, start + eorder + 1)):
            # Jacobi polynomial at the endpoints
            P1 = comb(k + vorder, vorder)
            P0 = P1 if k % 2 else -P1
            V[s, s] = Bnn
            V[s, v0 * voffset] = P0 * Bnt
            V[s, v1 * voffset] = P1 * Bnt
            if k:
                V[s, s + eorder] = -1 * Bnt
"""),
    # 25
    ("same", "", AR, """                # vertex derivatives
                for i in range(sd):
                    V[s, v1id+1+i] = -7/16 * Bnt * Jt[i]
                    V[s, v0id+1+i] = V[s, v1id+1+i]

                # second derivatives
                tau = [Jt[0]*Jt[0], 2*Jt[0]*Jt[1], Jt[1]*Jt[1]]
                for i in range(len(tau)):
                    V[s, v1id+3+i] = 1/32 * Bnt * tau[i]
                    V[s, v0id+3+i] = -1 * V[s, v1id+3+i]
""", """                # vertex derivatives
                for i in range(sd):
                    V[s, v0id+1+i] = V[s, v1id+1+i] = -7/16 * Bnt * Jt[i]

                # second derivatives
                tau = (Jt[0]*Jt[0], 2*Jt[0]*Jt[1], Jt[1]*Jt[1])
                for i, t in enumerate(tau, start=1 + sd):
                    entry = 1/32 * Bnt * t
                    V[s, v1id+i] = entry
                    V[s, v0id+i] = -1 * entry
"""),
    # 26
    ("same", "", AR, """        h = coordinate_mapping.cell_size()
        for v in sorted(top[0]):
            s = voffset*v + 1
            V[:, s:s+sd] *= 1 / h[v]
            V[:, s+sd:voffset*(v+1)] *= 1 / (h[v]*h[v])
""", """        h = coordinate_mapping.cell_size()
        for v in sorted(top[0]):
            base = voffset * v
            for j in range(1, voffset):
                scale = 1 / h[v] if j <= sd else 1 / (h[v]*h[v])
                V[:, base+j] = V[:, base+j] * scale
"""),
    # 27
    ("same", "", SP, """        result = super().basis_evaluation(order, ps, entity)
        cell_dimension = self.cell.get_dimension()
        if entity is None or entity == (cell_dimension, 0):  # on cell interior
            space_dim = self.space_dimension()
            if isinstance(ps, GaussLobattoLegendrePointSet) and len(ps.points) == space_dim:
                # Bingo: evaluation points match node locations!
                spatial_dim = self.cell.get_spatial_dimension()
                q, = ps.indices
                r, = self.get_indices()
                result[(0,) * spatial_dim] = gem.ComponentTensor(gem.Delta(q, r), (r,))
        return result
""", """        result = super().basis_evaluation(order, ps, entity)
        interior = entity is None or entity == (self.cell.get_dimension(), 0)
        if not interior or not isinstance(ps, GaussLobattoLegendrePointSet):
            return result
        if len(ps.points) != self.space_dimension():
            return result
        # Bingo: evaluation points match node locations!
        result.update(_nodal_table(self, ps))
        return result


def _nodal_table(element, ps):
    (q,), (r,) = ps.indices, element.get_indices()
    zero = (0,) * element.cell.get_spatial_dimension()
    return {zero: gem.ComponentTensor(gem.Delta(q, r), (r,))}
"""),
    # 28
    ("same", "", S2, """    expr = None
    pieces = []
    for v, c in node.args:
        if isinstance(c, (bool, numpy.bool, sympy.logic.boolalg.BooleanTrue)) and c:
            expr = self(v)
            break
        pieces.append((v, c))
    if expr is None:
        expr = gem.Literal(float("nan"))
    for v, c in reversed(pieces):
        expr = gem.Conditional(self(c), self(v), expr)
    return expr
""", """    conditional = []
    for v, c in node.args:
        constant = isinstance(c, (bool, numpy.bool, sympy.logic.boolalg.BooleanTrue))
        if constant and c:
            expr = self(v)
            break
        conditional.append((self(c), self(v)))
    else:
        expr = gem.Literal(float("nan"))
    while conditional:
        condition, value = conditional.pop()
        expr = gem.Conditional(condition, value, expr)
    return expr
"""),
    # 29
    ("same", "", S2, """    return gem.Division(*(map(self, node.as_numer_denom())))
""", """    numerator, denominator = node.as_numer_denom()
    return gem.Division(self(numerator), self(denominator))
"""),
    # 30
    ("same", "", S2, """    return reduce(gem.Sum, map(self, node.args))
""", """    first, *others = node.args
    total = self(first)
    for arg in others:
        total = gem.Sum(total, self(arg))
    return total
"""),
    # 31
    ("same", "", FB, """        entity_dofs = self.entity_dofs()
        return {dim: {e: sorted(chain(*[entity_dofs[d][se]
                                        for d, se in sub_entities]))
                      for e, sub_entities in entities.items()}
                for dim, entities in self.cell.sub_entities.items()}
""", """        entity_dofs = self.entity_dofs()
        closure = {}
        for dim, entities in self.cell.sub_entities.items():
            closure[dim] = {}
            for e in entities:
                dofs = []
                for d, se in entities[e]:
                    dofs += entity_dofs[d][se]
                dofs.sort()
                closure[dim][e] = dofs
        return closure
"""),
    # 32
    ("same", "", FB, """            result = {}
            for f in self.entity_dofs()[entity_dim].keys():
                # Tabulate basis functions on the facet
                vals, = self.basis_evaluation(0, quad.point_set, entity=(entity_dim, f)).values()
                # Integrate the square of the basis functions on the facet.
                ints = gem.IndexSum(
                    gem.Product(gem.IndexSum(gem.Product(gem.Indexed(vals, beta + zeta),
                                                         gem.Indexed(vals, beta + zeta)), zeta),
                                quad.weight_expression),
                    quad.point_set.indices
                )
                evaluation, = evaluate([gem.ComponentTensor(ints, beta)])
                ints = evaluation.arr.flatten()
                assert evaluation.fids == ()
                result[f] = [dof for dof, i in enumerate(ints) if i > eps]

            esd[entity_dim] = result
        return esd
""", """            def norms(f):
                # Tabulate basis functions on the facet
                vals, = self.basis_evaluation(0, quad.point_set, entity=(entity_dim, f)).values()
                v = gem.Indexed(vals, beta + zeta)
                # Integrate the square of the basis functions on the facet.
                square = gem.IndexSum(gem.Product(v, v), zeta)
                ints = gem.IndexSum(gem.Product(square, quad.weight_expression), quad.point_set.indices)
                evaluation, = evaluate([gem.ComponentTensor(ints, beta)])
                assert evaluation.fids == ()
                return evaluation.arr.flatten()

            esd[entity_dim] = {}
            for f in self.entity_dofs()[entity_dim]:
                supported = []
                for dof, norm in enumerate(norms(f)):
                    if norm > eps:
                        supported.append(dof)
                esd[entity_dim][f] = supported
        return esd
"""),
    # 33
    ("same", "", FB, """        shape_indices = gem.indices(len(expr.shape))
        basis_indices = gem.indices(len(Q.shape) - len(expr.shape))
        Qi = Q[basis_indices + shape_indices]
        expri = expr[shape_indices]
        evaluation = gem.IndexSum(Qi * expri, x.indices + shape_indices)
""", """        rank = len(expr.shape)
        every = gem.indices(len(Q.shape))
        split = len(every) - rank
        basis_indices, shape_indices = every[:split], every[split:]
        integrand = gem.Product(gem.Indexed(Q, every), gem.Indexed(expr, shape_indices))
        evaluation = gem.IndexSum(integrand, x.indices + shape_indices)
"""),
    # 34
    ("same", "", FB, """        return tuple(gem.Index(extent=d) for d in self.index_shape)
""", """        indices = []
        for extent in self.index_shape:
            indices.append(gem.Index(extent=extent))
        return tuple(indices)
"""),
    # 35
    ("same", "", DS, """        if self.degree == 1:
            return {0: {i: [i] for i in range(4)},
                    1: {i: [] for i in range(4)},
                    2: {0: []}}
        elif self.degree == 2:
            return {0: {i: [i] for i in range(4)},
                    1: {i: [i+4] for i in range(4)},
                    2: {0: []}}
        else:
            return {0: {i: [i] for i in range(4)},
                    1: {i: list(range(4 + i * (self.degree-1),
                                      4 + (i + 1) * (self.degree-1)))
                        for i in range(4)},
                    2: {0: list(range(4 + 4 * (self.degree - 1),
                                      self.space_dimension()))}}
""", """        n = self.degree - 1
        edges = {i: list(range(4 + i * n, 4 + (i + 1) * n)) for i in range(4)}
        interior = list(range(4 + 4 * n, self.space_dimension())) if self.degree > 2 else []
        return {0: {i: [i] for i in range(4)}, 1: edges, 2: {0: interior}}
"""),
    # 36
    ("same", "", DS, """        try:
            return self._deriv_cache[key]
        except KeyError:
            dphi = tuple(diff(phi, xx, alpha) for phi in phis)
            return self._deriv_cache.setdefault(key, dphi)
""", """        if key not in self._deriv_cache:
            self._deriv_cache[key] = tuple([diff(phi, xx, alpha) for phi in phis])
        return self._deriv_cache[key]
"""),
    # 37
    ("same", "", DS, """        repl = dict((vs[idx], phys_verts[idx])
                    for idx in numpy.ndindex(vs.shape))

        repl.update(zip(xx, phys_points))

        mapper = gem.node.Memoizer(sympy2gem)
        mapper.bindings = repl

        result = {}

        for i in range(order+1):
            alphas = mis(2, i)
            for alpha in alphas:
                dphis = self._basis_deriv(xx, alpha)
                result[alpha] = gem.ListTensor(list(map(mapper, dphis)))

        return result
""", """        repl = {}
        n, gdim = vs.shape
        for i in range(n):
            for j in range(gdim):
                repl[vs[i, j]] = phys_verts[i, j]
        for k, x in enumerate(xx):
            repl[x] = phys_points[k]

        mapper = gem.node.Memoizer(sympy2gem)
        mapper.bindings = repl

        return {alpha: gem.ListTensor([mapper(dphi) for dphi in self._basis_deriv(xx, alpha)])
                for i in range(order+1)
                for alpha in mis(2, i)}
"""),
    # 38
    ("same", "", "finat/morley.py", """        for i in range(3):
            V[i+3, i+3] = (rns[i, 0]*(pns[i, 0]*J[0, 0] + pns[i, 1]*J[1, 0])
                           + rns[i, 1]*(pns[i, 0]*J[0, 1] + pns[i, 1]*J[1, 1]))

        for i, c in enumerate([(1, 2), (0, 2), (0, 1)]):
            B12 = (rns[i, 0]*(pts[i, 0]*J[0, 0] + pts[i, 1]*J[1, 0])
                   + rns[i, 1]*(pts[i, 0]*J[0, 1] + pts[i, 1]*J[1, 1]))
            V[3+i, c[0]] = -1*B12 / pel[i]
            V[3+i, c[1]] = B12 / pel[i]
""", """        def project(vecs, i):
            terms = [rns[i, b] * (vecs[i, 0]*J[0, b] + vecs[i, 1]*J[1, b]) for b in range(2)]
            return terms[0] + terms[1]

        for i, (a, b) in enumerate([(1, 2), (0, 2), (0, 1)]):
            s = 3 + i
            slope = project(pts, i) / pel[i]
            V[s, s] = project(pns, i)
            V[s, a] = -1 * slope
            V[s, b] = slope
"""),
    # 39
    ("same", "", "finat/morley.py", """        for e in range(3):
            v0id, v1id = [i for i in range(3) if i != e]
            for i in range(6):
                V[i, 3+e] = 2*V[i, 3+e] / (h[v0id] + h[v1id])
""", """        for e, (v0id, v1id) in enumerate(((1, 2), (0, 2), (0, 1))):
            V[:, 3+e] *= 2 / (h[v0id] + h[v1id])
"""),
    # 40
    ("same", "", "finat/hermite.py", """        cur = 0
        for i in range(d+1):
            cur += 1  # skip the vertex
            J = Js[i]
            for j in range(d):
                for k in range(d):
                    M[cur+j, cur+k] = J[j, k] / h[i]
            cur += d
""", """        for i, J in enumerate(Js):
            start = i * (d + 1) + 1  # skip the vertex
            block = [[J[j, k] / h[i] for k in range(d)] for j in range(d)]
            M[start:start+d, start:start+d] = block
"""),
    # 41
    ("same", "", "finat/bell.py", """            # vertex points
            V[s, v1id] = 1/21 * Bnt
            V[s, v0id] = -1 * V[s, v1id]

            # vertex derivatives
            for i in range(sd):
                V[s, v1id+1+i] = -1/42 * Bnt * Jt[i]
                V[s, v0id+1+i] = V[s, v1id+1+i]

            # second derivatives
            tau = [Jt[0]*Jt[0], 2*Jt[0]*Jt[1], Jt[1]*Jt[1]]
            for i in range(len(tau)):
                V[s, v1id+3+i] = 1/252 * Bnt * tau[i]
                V[s, v0id+3+i] = -1 * V[s, v1id+3+i]
""", """            tau = [Jt[0]*Jt[0], 2*Jt[0]*Jt[1], Jt[1]*Jt[1]]
            jet = [1/21 * Bnt]
            jet += [-1/42 * Bnt * Jt[i] for i in range(sd)]
            jet += [1/252 * Bnt * t for t in tau]
            signs = [-1] + [1] * sd + [-1] * len(tau)
            for i, (sign, entry) in enumerate(zip(signs, jet)):
                V[s, v1id+i] = entry
                V[s, v0id+i] = sign * entry
"""),
    # 42
    ("same", "", "finat/aw.py", """    indices = [(i, j) for i in range(sd) for j in range(i, sd)]
    ncomp = len(indices)
    W = numpy.zeros((ncomp, ncomp), dtype=object)
    for p, (i, j) in enumerate(indices):
        for q, (m, n) in enumerate(indices):
            W[p, q] = 0.5*(K[i, m] * K[j, n] + K[j, m] * K[i, n])
    W[:, [i != j for i, j in indices]] *= 2
    return W
""", """    indices = [(i, j) for i in range(sd) for j in range(i, sd)]

    def entry(i, j, m, n):
        scale = 0.5 if m == n else 1.0
        return scale * (K[i, m] * K[j, n] + K[j, m] * K[i, n])

    return numpy.array([[entry(*row, *col) for col in indices] for row in indices], dtype=object)
"""),
    # 43
    ("same", "", "finat/aw.py", """        V[0:3, 0:3] = V[3:6, 3:6] = V[6:9, 6:9] = W
        num_verts = sd + 1
        cur = num_verts * ncomp
""", """        num_verts = sd + 1
        cur = 0
        for _ in range(num_verts):
            V[cur:cur+ncomp, cur:cur+ncomp] = W
            cur += ncomp
"""),
    # 44
    ("same", "", "finat/mtw.py", """        reduced_dofs = deepcopy(self._element.entity_dofs())
        sd = cell.get_spatial_dimension()
        fdofs = sd + 1
        reduced_dofs[sd][0] = []
        for f in reduced_dofs[sd-1]:
            reduced_dofs[sd-1][f] = reduced_dofs[sd-1][f][:fdofs]
        self._entity_dofs = reduced_dofs
        self._space_dimension = fdofs * len(reduced_dofs[sd-1])
""", """        sd = cell.get_spatial_dimension()
        fdofs = sd + 1
        dofs = deepcopy(self._element.entity_dofs())
        dofs[sd-1] = {f: d[:fdofs] for f, d in dofs[sd-1].items()}
        dofs[sd].update({0: []})
        self._entity_dofs = dofs
        self._space_dimension = len(dofs[sd-1]) * fdofs
"""),
    # 45
    ("same", "", "finat/hz.py", """            while cur < ndofs:
                V[cur:cur+ncomp, cur:cur+ncomp] = W
                cur += ncomp
""", """            for start in range(cur, ndofs, ncomp):
                V[start:start+ncomp, start:start+ncomp] = W
"""),
    # 46
    ("same", "", "finat/powell_sabin.py", """        for v in sorted(top[0]):
            for k in range(sd):
                V[:, voffset*v+1+k] /= h[v]
        return ListTensor(V.T)
""", """        for v in sorted(top[0]):
            columns = slice(voffset*v + 1, voffset*v + 1 + sd)
            V[:, columns] = V[:, columns] / h[v]
        return ListTensor(V.T)
"""),
    # 47
    ("same", "", "finat/hct.py", """            # vertex points
            V[s, v0id] = 1/5 * Bnt
            V[s, v1id] = -1 * V[s, v0id]

            # vertex derivatives
            for i in range(sd):
                V[s, v1id+1+i] = 1/10 * Bnt * Jt[i]
                V[s, v0id+1+i] = V[s, v1id+1+i]
""", """            for vid, sign in ((v0id, 1), (v1id, -1)):
                # vertex points
                V[s, vid] = sign * (1/5 * Bnt)
                # vertex derivatives
                V[s, vid+1:vid+1+sd] = [1/10 * Bnt * Jt[i] for i in range(sd)]
"""),
]
