"""Refactorings of the UFL layer run against every check that reads the file (dev/cross.py r3)."""
MX = "finat/ufl/mixedelement.py"
TP = "finat/ufl/tensorproductelement.py"
EN = "finat/ufl/enrichedelement.py"
RE = "finat/ufl/restrictedelement.py"
BR = "finat/ufl/brokenelement.py"
HD = "finat/ufl/hdivcurl.py"
FE = "finat/ufl/finiteelement.py"
FB = "finat/ufl/finiteelementbase.py"
EL = "finat/ufl/elementlist.py"
EDITS = [
    # 0
    ("same", "", MX, """        if len(elements) == 0:
            quad_scheme = None
        else:
            quad_scheme = elements[0].quadrature_scheme()
            if not all(e.quadrature_scheme() == quad_scheme for e in elements):
                raise ValueError("Quadrature scheme mismatch for sub elements of mixed element.")
""", """        quad_scheme = None
        if elements:
            quad_scheme = elements[0].quadrature_scheme()
            for e in elements[1:]:
                if e.quadrature_scheme() != quad_scheme:
                    raise ValueError("Quadrature scheme mismatch for sub elements of mixed element.")
"""),
    # 1
    ("same", "", MX, """        reference_value_size_sum = sum(product(s.reference_value_shape) for s in self._sub_elements)
""", """        reference_value_size_sum = 0
        for s in self._sub_elements:
            reference_value_size_sum += s.reference_value_size
"""),
    # 2
    ("same", "", MX, """        degrees = {e.degree() for e in self._sub_elements} - {None}
        degree = max_degree(degrees) if degrees else None
""", """        degrees = [d for d in (e.degree() for e in elements) if d is not None]
        if degrees:
            degree = max_degree(degrees)
        else:
            degree = None
"""),
    # 3
    ("same", "", MX, """        return "MixedElement(" + ", ".join(repr(e) for e in self._sub_elements) + ")"
""", """        subs = ", ".join(map(repr, self._sub_elements))
        return f"MixedElement({subs})"
"""),
    # 4
    ("same", "", MX, """        if all(e.mapping() == "identity" for e in self._sub_elements):
            return "identity"
        else:
            return "undefined"

    @property
    def num_sub_elements""", """        for e in self._sub_elements:
            if e.mapping() != "identity":
                return "undefined"
        return "identity"

    @property
    def num_sub_elements"""),
    # 5
    ("same", "", MX, """        if component is None:
            return all(e.is_cellwise_constant() for e in self.sub_elements)
        else:
            i, e = self.extract_component(component)
            return e.is_cellwise_constant()
""", """        if component is not None:
            _, e = self.extract_component(component)
            return e.is_cellwise_constant()
        return not any(not e.is_cellwise_constant() for e in self._sub_elements)
"""),
    # 6
    ("same", "", MX, """        return MixedElement(*[e.reconstruct(**kwargs) for e in self.sub_elements])

    def variant(self):
        \"\"\"Doc.\"\"\"
        try:
            variant, = {e.variant() for e in self.sub_elements}
            return variant
        except ValueError:
            return None
""", """        new_elements = []
        for e in self.sub_elements:
            new_elements.append(e.reconstruct(**kwargs))
        return MixedElement(*new_elements)

    def variant(self):
        \"\"\"Doc.\"\"\"
        variants = set(e.variant() for e in self.sub_elements)
        if len(variants) != 1:
            return None
        return variants.pop()
"""),
    # 7
    ("same", "", MX, """        # Create list of sub elements for mixed element constructor
        sub_elements = [sub_element] * dim

        # Compute value shapes
        reference_value_shape = (dim,) + sub_element.reference_value_shape

        # Initialize element data
        MixedElement.__init__(self, sub_elements,
                              reference_value_shape=reference_value_shape)
""", """        # Compute value shapes
        reference_value_shape = (dim, *sub_element.reference_value_shape)

        # Initialize element data
        MixedElement.__init__(self, [sub_element for _ in range(dim)],
                              reference_value_shape=reference_value_shape)
"""),
    # 8
    ("same", "", MX, """        if variant is None:
            var_str = ""
        else:
            var_str = ", variant='" + variant + "'"

        # Cache repr string
        self._repr = f"VectorElement({repr(sub_element)}, dim={dim}{var_str})"
""", """        var_str = "" if variant is None else f", variant='{variant}'"

        # Cache repr string
        self._repr = "VectorElement(%r, dim=%d%s)" % (sub_element, dim, var_str)
"""),
    # 9
    ("same", "", MX, """            symmetry = dict(((i, j), (j, i)) for i in range(shape[0])
                            for j in range(shape[1]) if i > j)
""", """            symmetry = {(i, j): (j, i) for i in range(shape[0]) for j in range(i)}
"""),
    # 10
    ("same", "", MX, """            for k in range(len(i)):
                if not (i[k] >= 0 and j[k] >= 0 and i[k] < shape[k] and j[k] < shape[k]):
                    raise ValueError("Symmetry dimensions out of bounds.")
""", """            for ik, jk, n in zip(i, j, shape):
                if not (0 <= ik < n and 0 <= jk < n):
                    raise ValueError("Symmetry dimensions out of bounds.")
"""),
    # 11
    ("same", "", MX, """        sub_elements = []
        sub_element_mapping = {}
        for index in indices:
            if index in symmetry:
                continue
            sub_element_mapping[index] = len(sub_elements)
            sub_elements += [sub_element]

        # Update mapping for symmetry
        for index in indices:
            if index in symmetry:
                sub_element_mapping[index] = sub_element_mapping[symmetry[index]]
        flattened_sub_element_mapping = [sub_element_mapping[index] for i,
                                         index in enumerate(indices)]
""", """        sub_element_mapping = {}
        free = [index for index in indices if index not in symmetry]
        for number, index in enumerate(free):
            sub_element_mapping[index] = number
        sub_elements = [sub_element] * len(free)

        # Update mapping for symmetry
        for index in indices:
            if index in symmetry:
                image = symmetry[index]
                sub_element_mapping[index] = sub_element_mapping[image]
        flattened_sub_element_mapping = [sub_element_mapping[index] for index in indices]
"""),
    # 12
    ("same", "", MX, """        if symmetry:
            reference_value_shape = (product(shape) - len(symmetry),)
            self._mapping = "symmetries"
        else:
            reference_value_shape = shape
            self._mapping = sub_element.mapping()

        reference_value_shape = reference_value_shape + sub_element.reference_value_shape
""", """        if not symmetry:
            component_shape = shape
            mapping = sub_element.mapping()
        else:
            component_shape = (product(shape) - len(symmetry),)
            mapping = "symmetries"
        self._mapping = mapping

        reference_value_shape = component_shape + sub_element.reference_value_shape
"""),
    # 13
    ("same", "", MX, """        if len(self._symmetry) > 0:
            sub_element_value_shape = self.sub_elements[0].reference_value_shape
            for e in self.sub_elements:
                if e.reference_value_shape != sub_element_value_shape:
                    raise ValueError("Sub-elements must all have the same value size")
""", """        if not self._symmetry:
            return self._sub_element.pullback
        else:
            first, *rest = self.sub_elements
            if not all(e.reference_value_shape == first.reference_value_shape for e in rest):
                raise ValueError("Sub-elements must all have the same value size")
"""),
    # 14
    ("same", "", MX, """            symmetry = {i: self._sub_element_mapping[i] for i in np.ndindex(self._shape)}
            return SymmetricPullback(self, symmetry)
""", """            symmetry = {}
            for component in compute_indices(self._shape):
                symmetry[component] = self._sub_element_mapping[component]
            return SymmetricPullback(self, symmetry)
"""),
    # 15
    ("same", "", TP, """        keywords = list(kwargs.keys())
        if keywords and keywords != ["cell"]:
            raise ValueError("TensorProductElement got an unexpected keyword argument '%s'" % keywords[0])
        cell = kwargs.get("cell")

        family = "TensorProductElement"

        if cell is None:
            # Define cell as the product of each elements cell
            cell = TensorProductCell(*[e.cell for e in elements])
        else:
            cell = as_cell(cell)
""", """        keywords = [k for k in kwargs]
        if keywords and keywords != ["cell"]:
            raise ValueError("TensorProductElement got an unexpected keyword argument '%s'" % keywords[0])
        cell = kwargs.get("cell")

        family = "TensorProductElement"

        if cell is not None:
            cell = as_cell(cell)
        else:
            # Define cell as the product of each elements cell
            cell = TensorProductCell(*(e.cell for e in elements))
"""),
    # 16
    ("same", "", TP, """        reference_value_shape = tuple(chain(*[e.reference_value_shape for e in elements]))
        if len(reference_value_shape) > 1:
""", """        reference_value_shape = ()
        for e in elements:
            reference_value_shape += e.reference_value_shape
        if len(reference_value_shape) > 1:
"""),
    # 17
    ("same", "", TP, """        if all(e.mapping() == "identity" for e in self._sub_elements):
            return "identity"
        elif all(e.mapping() == "L2 Piola" for e in self._sub_elements):
            return "L2 Piola"
        else:
            return "undefined"
""", """        mappings = {e.mapping() for e in self._sub_elements}
        if mappings == {"identity"}:
            return "identity"
        if mappings == {"L2 Piola"}:
            return "L2 Piola"
        return "undefined"
"""),
    # 18
    ("same", "", TP, """        elements = self._sub_elements
        if all(e.sobolev_space == elements[0].sobolev_space
               for e in elements):
            return elements[0].sobolev_space
        else:
            # Generate a DirectionalSobolevSpace which contains
            # continuity information parametrized by spatial index
            orders = []
            for e in elements:
                # TODO: is this the right value for e_dim
                e_dim = e.cell.topological_dimension()
                e_order = (e.sobolev_space._order,) * e_dim
                orders.extend(e_order)
            return DirectionalSobolevSpace(orders)
""", """        spaces = [e.sobolev_space for e in self._sub_elements]
        first = spaces[0]
        if all(s == first for s in spaces[1:]):
            return first
        # Generate a DirectionalSobolevSpace which contains
        # continuity information parametrized by spatial index
        orders = [s._order
                  for e, s in zip(self._sub_elements, spaces)
                  for _ in range(e.cell.topological_dimension())]
        return DirectionalSobolevSpace(orders)
"""),
    # 19
    ("same", "", TP, """        cell = kwargs.pop("cell", self.cell)
        return TensorProductElement(*[e.reconstruct(**kwargs) for e in self.sub_elements], cell=cell)
""", """        if "cell" in kwargs:
            cell = kwargs.pop("cell")
        else:
            cell = self.cell
        factors = [e.reconstruct(**kwargs) for e in self.sub_elements]
        return type(self)(*factors, cell=cell)
"""),
    # 20
    ("same", "", TP, """        try:
            variant, = {e.variant() for e in self.sub_elements}
            return variant
        except ValueError:
            return None
""", """        first = self._sub_elements[0].variant()
        if all(e.variant() == first for e in self._sub_elements):
            return first
        return None
"""),
    # 21
    ("same", "", TP, """        return "TensorProductElement(" + ", ".join(repr(e) for e in self._sub_elements) + f", cell={repr(self._cell)})"
""", """        args = [repr(e) for e in self._sub_elements]
        args.append(f"cell={self._cell!r}")
        return "TensorProductElement(%s)" % ", ".join(args)
"""),
    # 22
    ("same", "", EN, """        cell = elements[0].cell
        if not all(e.cell == cell for e in elements[1:]):
            raise ValueError("Cell mismatch for sub elements of enriched element.")
""", """        first, *others = elements
        cell = first.cell
        if any(e.cell != cell for e in others):
            raise ValueError("Cell mismatch for sub elements of enriched element.")
"""),
    # 23
    ("same", "", EN, """        if not any(isinstance(e.degree(), tuple) for e in elements):
            degrees = {e.degree() for e in elements} - {None}
            degree = max(degrees) if degrees else None
        else:
            degree = tuple(map(max, zip(*[e.degree() for e in elements])))
""", """        degrees = [e.degree() for e in elements]
        if any(isinstance(d, tuple) for d in degrees):
            degree = tuple(max(ds) for ds in zip(*degrees))
        else:
            degree = max((d for d in degrees if d is not None), default=None)
"""),
    # 24
    ("same", "", EN, """        quad_schemes = [e.quadrature_scheme() for e in elements]
        quad_schemes = [qs for qs in quad_schemes if qs is not None]
        quad_scheme = quad_schemes[0] if quad_schemes else None
        if not all(qs == quad_scheme for qs in quad_schemes):
            raise ValueError("Quadrature scheme mismatch.")
""", """        quad_scheme = None
        for e in elements:
            qs = e.quadrature_scheme()
            if qs is None:
                continue
            if quad_scheme is None:
                quad_scheme = qs
            elif qs != quad_scheme:
                raise ValueError("Quadrature scheme mismatch.")
"""),
    # 25
    ("same", "", EN, """        elements = [e for e in self._elements]
        if all(e.sobolev_space == elements[0].sobolev_space
               for e in elements):
            return elements[0].sobolev_space
        else:
            # Find smallest shared Sobolev space over all sub elements
            spaces = [e.sobolev_space for e in elements]
            superspaces = [{s} | set(s.parents) for s in spaces]
            intersect = set.intersection(*superspaces)
            for s in intersect.copy():
                for parent in s.parents:
                    intersect.discard(parent)

            sobolev_space, = intersect
            return sobolev_space
""", """        spaces = [e.sobolev_space for e in self._elements]
        if all(s == spaces[0] for s in spaces):
            return spaces[0]

        # Find smallest shared Sobolev space over all sub elements
        shared = set.intersection(*[{s, *s.parents} for s in spaces])
        larger = set()
        for s in shared:
            larger.update(s.parents)
        sobolev_space, = shared - larger
        return sobolev_space
"""),
    # 26
    ("same", "", EN, """        try:
            variant, = {e.variant() for e in self._elements}
            return variant
        except ValueError:
            return None
""", """        variants = {e.variant() for e in self._elements}
        return next(iter(variants)) if len(variants) == 1 else None
"""),
    # 27
    ("same", "", EN, """        return all(e.is_cellwise_constant(component) for e in self._elements)
""", """        for e in self._elements:
            if not e.is_cellwise_constant(component):
                return False
        return True
"""),
    # 28
    ("same", "", EN, """        return type(self)(*[e.reconstruct(**kwargs) for e in self._elements])
""", """        cls = self.__class__
        return cls(*tuple(e.reconstruct(**kwargs) for e in self._elements))
"""),
    # 29
    ("same", "", EN, """        class_name = self.__class__.__name__

        # Initialize element data
        FiniteElementBase.__init__(self, class_name, cell, degree,
                                   quad_scheme, reference_value_shape)
""", """        super().__init__(type(self).__name__, cell, degree,
                         quad_scheme, reference_value_shape)
"""),
    # 30
    ("same", "", RE, """        FiniteElementBase.__init__(self, "RestrictedElement", element.cell,
                                   element.degree(),
                                   element.quadrature_scheme(),
                                   element.reference_value_shape)

        self._element = element

        self._restriction_domain = restriction_domain
""", """        self._element = element
        self._restriction_domain = restriction_domain

        super().__init__(family="RestrictedElement", cell=element.cell,
                         degree=element.degree(),
                         quad_scheme=element.quadrature_scheme(),
                         reference_value_shape=element.reference_value_shape)
"""),
    # 31
    ("same", "", RE, """        if self._restriction_domain == "interior":
            return L2
        else:
            return self._element.sobolev_space
""", """        return L2 if self._restriction_domain == "interior" else self._element.sobolev_space
"""),
    # 32
    ("same", "", RE, """        return f"RestrictedElement({repr(self._element)}, {repr(self._restriction_domain)})"
""", """        return "RestrictedElement(%r, %r)" % (self._element, self._restriction_domain)
"""),
    # 33
    ("same", "", BR, """        family = "BrokenElement"
        cell = element.cell
        degree = element.degree()
        quad_scheme = element.quadrature_scheme()
        reference_value_shape = element.reference_value_shape
        FiniteElementBase.__init__(self, family, cell, degree,
                                   quad_scheme, reference_value_shape)
""", """        FiniteElementBase.__init__(self, "BrokenElement", element.cell, element.degree(),
                                   element.quadrature_scheme(), element.reference_value_shape)
"""),
    # 34
    ("same", "", HD, """        gdim = domain.geometric_dimension()
        mapping = self.mapping()
        if mapping in {"covariant Piola", "contravariant Piola"}:
            return (gdim,)
        elif mapping in {"double covariant Piola", "double contravariant Piola",
                         "covariant contravariant Piola"}:
            return (gdim, gdim)
        else:
            return self.wrapee.value_shape(domain)
""", """        rank = self._tensor_rank()
        if rank is None:
            return self.wrapee.value_shape(domain)
        return (domain.geometric_dimension(),) * rank

    def _tensor_rank(self):
        ranks = {"covariant Piola": 1,
                 "contravariant Piola": 1,
                 "double covariant Piola": 2,
                 "double contravariant Piola": 2,
                 "covariant contravariant Piola": 2}
        return ranks.get(self.mapping())
"""),
    # 35
    ("same", "", HD, """        tdim = self.cell.topological_dimension()
        mapping = self.mapping()
        if mapping in {"covariant Piola", "contravariant Piola"}:
            return (tdim,)
        elif mapping in {"double covariant Piola", "double contravariant Piola",
                         "covariant contravariant Piola"}:
            return (tdim, tdim)
        else:
            return self.wrapee.reference_value_shape
""", """        mapping = self._mapping
        if not mapping.endswith("Piola") or mapping == "L2 Piola":
            return self.wrapee.reference_value_shape
        tdim = self.wrapee.cell.topological_dimension()
        if mapping in ("covariant Piola", "contravariant Piola"):
            return (tdim,)
        return (tdim, tdim)
"""),
    # 36
    ("same", "", HD, """        if self.wrapee.mapping() == self.mapping():
            return self.wrapee.sobolev_space
        else:
            return L2
""", """        if self.mapping() != self.wrapee.mapping():
            return L2
        return self.wrapee.sobolev_space
"""),
    # 37
    ("same", "", HD, """        mapping = kwargs.pop("mapping", self._mapping)
        wrapee = self.wrapee.reconstruct(**kwargs)
        return type(self)(wrapee, mapping)
""", """        if "mapping" in kwargs:
            mapping = kwargs.pop("mapping")
        else:
            mapping = self._mapping
        return WithMapping(self.wrapee.reconstruct(**kwargs), mapping)
"""),
    # 38
    ("same", "", HD, """        if self.name == "HDiv":
            return HDivElement(element)
        elif self.name == "HCurl":
            return HCurlElement(element)
        raise NotImplementedError(""", """        element_class = {"HDiv": HDivElement, "HCurl": HCurlElement}.get(self.name)
        if element_class is not None:
            return element_class(element)
        raise NotImplementedError("""),
    # 39
    ("same", "", FE, """                cell_h, cell_v = cell.sub_cells()
                if cell_h.cellname() != "interval":
                    raise ValueError(f"{family} is available on TensorProductCell(interval, interval) only.")
                if cell_v.cellname() != "interval":
                    raise ValueError(f"{family} is available on TensorProductCell(interval, interval) only.")

                C_elt = FiniteElement("CG", "interval", degree, variant=variant)
                D_elt = FiniteElement("DG", "interval", degree - 1, variant=variant)

                CxD_elt = TensorProductElement(C_elt, D_elt, cell=cell)
                DxC_elt = TensorProductElement(D_elt, C_elt, cell=cell)

                if family == "RTCF":
                    return EnrichedElement(HDiv(CxD_elt), HDiv(DxC_elt))
                if family == "RTCE":
                    return EnrichedElement(HCurl(CxD_elt), HCurl(DxC_elt))
""", """                cell_h, cell_v = cell.sub_cells()
                for c in (cell_h, cell_v):
                    if c.cellname() != "interval":
                        raise ValueError(f"{family} is available on TensorProductCell(interval, interval) only.")

                C_elt = FiniteElement("CG", "interval", degree, variant=variant)
                D_elt = FiniteElement("DG", "interval", degree - 1, variant=variant)
                wrap = HDiv if family == "RTCF" else HCurl
                return EnrichedElement(*[wrap(TensorProductElement(*factors, cell=cell))
                                         for factors in ((C_elt, D_elt), (D_elt, C_elt))])
"""),
    # 40
    ("same", "", FE, """            elif family == "DQ":
                def dq_family(cell):
                    \"\"\"Doc.\"\"\"
                    return "DG" if cell.cellname() in simplices else "DQ"
                return TensorProductElement(*[FiniteElement(dq_family(c), c, degree, variant=variant)
                                              for c in cell.sub_cells()],
                                            cell=cell)

            elif family == "DQ L2":
                def dq_family_l2(cell):
                    \"\"\"Doc.\"\"\"
                    return "DG L2" if cell.cellname() in simplices else "DQ L2"
                return TensorProductElement(*[FiniteElement(dq_family_l2(c), c, degree, variant=variant)
                                              for c in cell.sub_cells()],
                                            cell=cell)
""", """            elif family in ("DQ", "DQ L2"):
                simplex_family = family.replace("DQ", "DG")
                factors = []
                for c in cell.sub_cells():
                    f = simplex_family if c.cellname() in simplices else family
                    factors.append(FiniteElement(f, c, degree, variant=variant))
                return TensorProductElement(*factors, cell=cell)
"""),
    # 41
    ("same", "", FE, """        if family is None:
            family = self.family()
        if cell is None:
            cell = self.cell
        if degree is None:
            degree = self.degree()
        if quad_scheme is None:
            quad_scheme = self.quadrature_scheme()
        if variant is None:
            variant = self.variant()
        return FiniteElement(family, cell, degree, quad_scheme=quad_scheme, variant=variant)
""", """        def default(value, current):
            return current if value is None else value

        return FiniteElement(default(family, self._family),
                             default(cell, self._cell),
                             default(degree, self._degree),
                             quad_scheme=default(quad_scheme, self._quad_scheme),
                             variant=default(variant, self._variant))
"""),
    # 42
    ("same", "", FE, """        qs = self.quadrature_scheme()
        if qs is None:
            quad_str = ""
        else:
            quad_str = ", quad_scheme=%s" % repr(qs)
        v = self.variant()
        if v is None:
            var_str = ""
        else:
            var_str = ", variant=%s" % repr(v)
        self._repr = "FiniteElement(%s, %s, %s%s%s)" % (
            repr(self.family()), repr(self.cell), repr(self.degree()), quad_str, var_str)
""", """        args = [repr(self.family()), repr(self.cell), repr(self.degree())]
        if quad_scheme is not None:
            args.append(f"quad_scheme={quad_scheme!r}")
        if variant is not None:
            args.append(f"variant={variant!r}")
        self._repr = "FiniteElement(" + ", ".join(args) + ")"
"""),
    # 43
    ("same", "", FE, """        superdegree = self.degree()
        if superdegree is None:
            return self._embedded_degree
        if not isinstance(superdegree, int):
            superdegree = max(superdegree)
        if isinstance(self._embedded_degree, int):
            superdegree = max(superdegree, self._embedded_degree)
        return superdegree
""", """        degree = self.degree()
        if degree is None:
            return self._embedded_degree
        candidates = [degree] if isinstance(degree, int) else list(degree)
        if isinstance(self._embedded_degree, int):
            candidates.append(self._embedded_degree)
        return max(candidates)
"""),
    # 44
    ("same", "", FB, """        if self.mapping() == "identity":
            return pullback.identity_pullback
        elif self.mapping() == "L2 Piola":
            return pullback.l2_piola
        elif self.mapping() == "covariant Piola":
            return pullback.covariant_piola
        elif self.mapping() == "contravariant Piola":
            return pullback.contravariant_piola
        elif self.mapping() == "double covariant Piola":
            return pullback.double_covariant_piola
        elif self.mapping() == "double contravariant Piola":
            return pullback.double_contravariant_piola
        elif self.mapping() == "covariant contravariant Piola":
            return pullback.covariant_contravariant_piola
        elif self.mapping() == "custom":
            return pullback.custom_pullback
        elif self.mapping() == "physical":
            return pullback.physical_pullback

        raise ValueError(f"Unsupported mapping: {self.mapping()}")
""", """        mapping = self.mapping()
        pullbacks = {
            "identity": pullback.identity_pullback,
            "L2 Piola": pullback.l2_piola,
            "covariant Piola": pullback.covariant_piola,
            "contravariant Piola": pullback.contravariant_piola,
            "double covariant Piola": pullback.double_covariant_piola,
            "double contravariant Piola": pullback.double_contravariant_piola,
            "covariant contravariant Piola": pullback.covariant_contravariant_piola,
            "custom": pullback.custom_pullback,
            "physical": pullback.physical_pullback,
        }
        try:
            return pullbacks[mapping]
        except KeyError:
            raise ValueError(f"Unsupported mapping: {mapping}")
"""),
    # 45
    ("same", "", FB, """        return int.from_bytes(md5(self._ufl_hash_data_().encode()).digest(), byteorder='big')
""", """        digest = md5(self._ufl_hash_data_().encode("utf-8")).digest()
        return int.from_bytes(digest, "big")
"""),
    # 46
    ("same", "", FB, """        return type(self) is type(other) and self._ufl_hash_data_() == other._ufl_hash_data_()
""", """        if type(self) is not type(other):
            return False
        return self._ufl_hash_data_() == other._ufl_hash_data_()
"""),
    # 47
    ("same", "", FB, """        from finat.ufl.restrictedelement import valid_restriction_domains
        if index in valid_restriction_domains:
            from finat.ufl import RestrictedElement
            return RestrictedElement(self, index)
        else:
            raise KeyError(f"Invalid index for restriction: {repr(index)}")
""", """        from finat.ufl.restrictedelement import RestrictedElement, valid_restriction_domains
        if index not in valid_restriction_domains:
            raise KeyError(f"Invalid index for restriction: {index!r}")
        return RestrictedElement(self, index)
"""),
    # 48
    ("same", "", EL, """    if value_rank == 2:
        # Tensor valued fundamental elements in HEin have this shape
        if tdim is None:
            raise ValueError("Cannot infer shape of element without topological and geometric dimensions.")
        reference_value_shape = (tdim, tdim)
    elif value_rank == 1:
        # Vector valued fundamental elements in HDiv and HCurl have a shape
        if tdim is None:
            raise ValueError("Cannot infer shape of element without topological and geometric dimensions.")
        reference_value_shape = (tdim,)
    elif value_rank == 0:
        # All other elements are scalar values
        reference_value_shape = ()
    else:
        raise ValueError(f"Invalid value rank {value_rank}.")
""", """    if value_rank not in (0, 1, 2):
        raise ValueError(f"Invalid value rank {value_rank}.")
    if value_rank > 0 and tdim is None:
        raise ValueError("Cannot infer shape of element without topological and geometric dimensions.")
    reference_value_shape = (tdim,) * value_rank
"""),
    # 49
    ("same", "", EL, """    if cellname in set(cubes) - set(simplices) or isinstance(cell, TensorProductCell):
        if family == "Lagrange":
            family = "Q"
        elif family == "Discontinuous Lagrange":
            if order >= 1:
                warnings.warn("Discontinuous Lagrange element requested on %s, creating DQ element." % cell.cellname())
            family = "DQ"
        elif family == "Discontinuous Lagrange L2":
            if order >= 1:
                warnings.warn(f"Discontinuous Lagrange L2 element requested on {cell.cellname()}, "
                              "creating DQ L2 element.")
            family = "DQ L2"
""", """    on_product = isinstance(cell, TensorProductCell) or (cellname in cubes and cellname not in simplices)
    if on_product:
        product_names = {"Lagrange": "Q",
                         "Discontinuous Lagrange": "DQ",
                         "Discontinuous Lagrange L2": "DQ L2"}
        if family in product_names:
            new_family = product_names[family]
            if family != "Lagrange" and order >= 1:
                warnings.warn(f"{family} element requested on {cell.cellname()}, creating {new_family} element.")
            family = new_family
"""),
    # 50
    ("same", "", EL, """        kmin, kmax = krange
        if not (kmin is None or (asarray(order) >= kmin).all()):
            raise ValueError(f"Order {order} invalid for '{family}' finite element.")
        if not (kmax is None or (asarray(order) <= kmax).all()):
            raise ValueError(f"Order {istr(order)} invalid for '{family}' finite element.")
""", """        kmin, kmax = krange
        orders = asarray(order)
        too_low = kmin is not None and (orders < kmin).any()
        too_high = kmax is not None and (orders > kmax).any()
        if too_low or too_high:
            raise ValueError(f"Order {order} invalid for '{family}' finite element.")
"""),
    # 51
    ("same", "", EL, """    if cell is not None:
        tdim = cell.topological_dimension()
        if isinstance(cell, Cell):
            cellname = cell.cellname()
        else:
            cellname = None
    else:
        tdim = None
        cellname = None
""", """    tdim = None if cell is None else cell.topological_dimension()
    cellname = cell.cellname() if isinstance(cell, Cell) else None
"""),
    # 52
    ("same", "", EL, """    embedded_degree = order
    if any(bubble in family for bubble in ("Guzman-Neilan", "Bernardi-Raugel")):
        embedded_degree = tdim
    return""", """    if "Guzman-Neilan" in family or "Bernardi-Raugel" in family:
        embedded_degree = tdim
    else:
        embedded_degree = order
    return"""),
    # 53
    ("same", "", EL, """    ufl_elements[family] = (family, short_name, value_rank, sobolev_space,
                            mapping, degree_range, cellnames)
    if short_name is not None:
        ufl_elements[short_name] = (family, short_name, value_rank, sobolev_space,
                                    mapping, degree_range, cellnames)
""", """    data = (family, short_name, value_rank, sobolev_space,
            mapping, degree_range, cellnames)
    for name in (family, short_name):
        if name is not None:
            ufl_elements[name] = data
"""),
    # 54
    ("same", "", EL, """    while family in aliases:
        if tdim is None:
            raise ValueError("Need dimension to handle element aliases.")
        (family, order) = aliases[family](family, tdim, order, form_degree)
""", """    while True:
        alias = aliases.get(family)
        if alias is None:
            break
        if tdim is None:
            raise ValueError("Need dimension to handle element aliases.")
        family, order = alias(family, tdim, order, form_degree)
"""),
    # 55
    ("same", "", EL, """    _feec_elements["P- L2"] = _feec_elements["P- Lambda L2"]
    _feec_elements["P L2"] = _feec_elements["P Lambda L2"]
    _feec_elements["Q- L2"] = _feec_elements["Q- Lambda L2"]
    _feec_elements["S L2"] = _feec_elements["S Lambda L2"]
""", """    for name in ("P-", "P", "Q-", "S"):
        _feec_elements[f"{name} L2"] = _feec_elements[f"{name} Lambda L2"]
"""),
]
