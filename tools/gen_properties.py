"""Writes properties.jsonl (single source for ids, titles and statements)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})

I, C, H, PR = "inputs", "configurations", "histories", "programs"

p("C01", "Tensor-product elements are the factorwise product of their factors",
  "For any list of factor elements, a tensor-product element's tabulations are, for each derivative multi-index, the product over the factors, in factor order, of the factor's table for its own slice of the derivative and its own slice of the points and entity, with all basis indices (in factor order) before all value indices. Its cell, degree, form degree, index shape, value shape, space dimension, mapping and dual basis combine the factors' data in that same order.",
  [I, C], "every number and kind of factors, every derivative order, every entity, every point set",
  "The tests only tabulate a few two-factor interval products through zany-mapping and restriction tests; no test tabulates at sub-entities, three factors, or mixed value shapes.",
  ["finat/tensor_product.py"],
  [("factor split and merge", "TensorProductElement._merge_evaluations, _factor_entity"), ("point splitting", "factor_point_set"), ("dual outer product", "TensorProductElement.dual_basis")],
  ["basis_evaluation", "point_evaluation", "dual_basis", "index_shape"])
p("C02", "Tensor-product and flattened DoF tables follow the factor numbering",
  "The entity-to-DoF map and the entity orientation permutations of a tensor-product element are, for each product entity, the row-major product of the factors' entries, with entities numbered in lexicographic order of the factor entities. A quadrilateral or hexahedral element reports exactly its underlying product element's data, with only the entity keys flattened, and tabulates on the product entity that corresponds to the requested one.",
  [I, C], "every factor list, entity and orientation",
  "No test compares product DoF numberings or orientation tables with the factors; only one space-dimension check per cell exists.",
  ["finat/tensor_product.py", "finat/cube.py"],
  [("productise", "finat/tensor_product.py"), ("compose_permutations", "finat/tensor_product.py"), ("flattening", "finat/cube.py")],
  ["entity_dofs", "entity_permutations", "entity_support_dofs"])
p("C03", "Vector/tensor-valued elements are Kronecker products of their base element",
  "A tensor-valued element of shape S over a base element tabulates as the outer product of identity deltas over S with the base table, and its dual basis has the same Kronecker structure; primal table, dual basis and dual evaluation all use one DoF index order: base then component normally, component then base when transposed. Index shape, value shape and space dimension agree with that order and every other attribute is the base element's.",
  [I, C], "every base element, component shape and DoF ordering flag",
  "No test builds a tensor-valued element, so neither ordering is exercised.",
  ["finat/tensorfiniteelement.py"],
  [("_tensorise", "finat/tensorfiniteelement.py"), ("dual_basis and dual_evaluation index orders", "finat/tensorfiniteelement.py")],
  ["basis_evaluation", "dual_basis", "dual_evaluation", "index_shape"])
p("C04", "Vector/tensor-valued DoF numbering matches the declared DoF order",
  "The entity-to-DoF map of a tensor-valued element expands each base DoF into its components at exactly the positions given by the row-major flattening of the declared index shape: packed per base DoF normally, strided by the base space dimension when transposed. Every topological entity of the base element is present and no DoF is lost or repeated.",
  [I, C], "every base DoF table, component shape and DoF ordering flag",
  "No test builds a tensor-valued element.",
  ["finat/tensorfiniteelement.py"],
  [("DoF expansion", "TensorFiniteElement._entity_dofs")], ["entity_dofs", "space_dimension"])
p("C05", "Enriched elements concatenate their sub-elements in one order",
  "An enriched element lists its sub-elements in the given order with nested enrichments flattened and a single sub-element returned unchanged; its tables, DoF maps and orientation permutations are the concatenation of the sub-elements' in that one order, each sub-element's DoFs shifted by the sizes of the ones before it. Its degree is the entrywise maximum, its form degree the maximum or absent if any is absent, its mapping the common one or absent, and its space dimension the sum.",
  [I, C], "every list of sub-elements including nested enrichments and mixtures",
  "Tests build a few enriched elements but never compare offsets, permutations, degrees or flattening order.",
  ["finat/enriched.py"],
  [("concatenation", "EnrichedElement._compose_evaluations, concatenate_entity_dofs, concatenate_entity_permutations"), ("flattening", "EnrichedElement.__new__")],
  ["basis_evaluation", "entity_dofs", "entity_permutations", "degree"])
p("C06", "Mixed elements place each sub-element in its own value slots",
  "A mixed element's value is the concatenation of its sub-elements' flattened values: each sub-element's table is placed, component by component in row-major order, at the offset given by the value sizes of the preceding ones, with zeros elsewhere, for every derivative. All non-value attributes of each part are those of the original sub-element, and any iterable of sub-elements is accepted.",
  [I, C], "every list of sub-elements and value shapes",
  "No test tabulates a mixed element.",
  ["finat/mixed.py"],
  [("offsets", "MixedElement"), ("slot placement", "MixedSubElement._transform")],
  ["basis_evaluation", "value_shape"])
p("C07", "H(div)/H(curl) wrappers apply the right transform, the same for primal and dual",
  "Wrapping a tensor-product element into H(div) or H(curl) applies the transformation fixed by the factors' form degrees and mapping: scalars and vectors are placed, rotated and signed per the globally consistent reference-edge orientation, identically for every derivative table and for the dual weights. Elements whose form degrees do not give an (n-1)-form (respectively a 1-form), or whose form degree is unknown, are refused, and mapping, form degree and value shape are those of the target space.",
  [I, C], "every factor form-degree and mapping combination",
  "Only the zany and restriction tests touch these wrappers, on two configurations, and compare dimensions or ranks rather than signs and slots.",
  ["finat/hdivcurl.py"],
  [("transform selection", "select_hdiv_transformer, select_hcurl_transformer"), ("application", "WrapperElementBase")],
  ["basis_evaluation", "dual_basis", "mapping", "formdegree"])
p("C08", "Delegating wrappers forward every argument and attribute unchanged",
  "Elements that wrap another element without changing its functions (discontinuous, mixed part, H(div)/H(curl), flattened, tensor-valued) return the wrapped element's data for every attribute they do not redefine, and pass order, points, entity and, where it is supported, the coordinate mapping unchanged to the wrapped element. A discontinuous wrapper puts all DoFs on the cell interior, has the top form degree, and exposes orientation permutations only when the wrapped DoFs were already interior.",
  [I, C], "every wrapped element and every call argument",
  "Wrapper attributes are not asserted anywhere; only a hash test and zany tests call into some wrappers.",
  ["finat/discontinuous.py", "finat/mixed.py", "finat/hdivcurl.py", "finat/cube.py", "finat/tensorfiniteelement.py"],
  [("delegation", "DiscontinuousElement, MixedSubElement, WrapperElementBase, FlattenedDimensions")],
  ["all element attributes"])
p("C09", "DoF counts agree between every view of an element",
  "For every element class the number of basis functions reported as space dimension equals the product of the index shape, the number of rows of its transformed tables, and the number of distinct DoFs in the entity map, also for reduced elements whose underlying FIAT element carries extra constraint functions. The closure of an entity contains exactly the DoFs the element's own entity map assigns to the sub-entities of that entity.",
  [I, C], "every element class, degree and cell",
  "Tests compare dimensions on a handful of elements; closure DoFs of reduced elements and higher-order derivative tables are untested.",
  ["finat/fiat_elements.py", "finat/bell.py", "finat/hct.py", "finat/mtw.py", "finat/aw.py", "finat/piola_mapped.py", "finat/finiteelementbase.py", "finat/physically_mapped.py"],
  [("reduced DoF tables", "Bell, ReducedHsiehCloughTocher, MardalTaiWinther, ArnoldWinther*, PiolaBubbleElement"), ("closure", "FiniteElementBase._entity_closure_dofs")],
  ["space_dimension", "index_shape", "entity_dofs", "entity_closure_dofs", "basis_evaluation"])
p("C10", "Restriction keeps structure and reports emptiness honestly",
  "Restricting an element to a kind of sub-entity restricts its parts and rebuilds the same kind of element from the non-empty ones with shape, ordering flags and wrapping preserved; an empty result is reported as an error and an element kind that cannot be restricted is refused by raising. For tensor products the result is the sum over all decompositions of the target codimension (and, with closure, all higher codimensions) into factor codimensions, each admissible for its factor.",
  [I, C], "every element kind, nesting and restriction domain",
  "Restriction tests check counts on a few elements; unknown kinds, mixed elements, the refusal path and the transposed flag are not reached.",
  ["finat/restricted.py"],
  [("dispatch", "restrict and its registrations"), ("decomposition", "restrict_tpe, r_to_codim, codim_to_r")],
  ["RestrictedElement"])
p("C11", "Quadrature construction requests the right degree on every sub-cell",
  "A quadrature rule for degree d is built from a rule of degree d on each factor cell (or the factor's own entry when degrees are given per factor), uses ceil((d+1)/2) Gauss points on plain intervals, passes the scheme through, refuses negative degrees, and records the reference cell and orientation data of the cell it was built for. Product rules combine points, weights and orientation maps of all factors in factor order, for any iterable of factors.",
  [I, C], "every cell kind, degree, degree tuple and scheme",
  "Tests build quadrature rules only as a means to tabulate; orientation maps, schemes and product weights are not asserted.",
  ["finat/quadrature.py"],
  [("make_quadrature", "finat/quadrature.py"), ("TensorProductQuadratureRule", "finat/quadrature.py")],
  ["make_quadrature", "weight_expression", "point_set"])
p("C12", "Point sets keep points, indices and expression mutually consistent",
  "For every point set the free indices have the extents of the point layout, the symbolic expression selects along exactly those indices the coordinates stored in the point array, and repeated accesses return the same indices. A tensor point set orders points, indices and coordinates by factor with the last factor varying fastest, and two point sets are almost equal only when kind, shape and all coordinates agree within tolerance.",
  [I, C, H], "every point set and every sequence of accesses",
  "Point sets are only used indirectly by tests with one set at a time.",
  ["finat/point_set.py"],
  [("point sets", "PointSingleton, UnknownPointSet, PointSet, TensorPointSet")],
  ["points", "indices", "expression", "almost_equal"])
p("C13", "Quadrature elements expose exactly their rule's points",
  "A quadrature element has one DoF per point of its rule, all on the cell interior, tabulates as the identity between point indices and DoF indices only for the rule's own points on the cell with no derivatives, and refuses everything else. Its dual basis is the same identity at the rule's points, and construction refuses a non-rule or a dimension mismatch.",
  [I, C], "every rule, point set, entity and derivative order",
  "Only a hash test constructs a quadrature element.",
  ["finat/quadrature_element.py"],
  [("QuadratureElement", "finat/quadrature_element.py")],
  ["basis_evaluation", "dual_basis", "entity_dofs"])
p("C14", "Collocated spectral tabulation is used only when nodes match points",
  "Spectral elements replace their value table by a Kronecker delta between the point index and the DoF index only for the zeroth derivative, on the cell interior, for a point set of the matching Gauss family with exactly as many points as DoFs; every other table is the ordinary tabulation for the same order, points and entity.",
  [I, C], "every degree, point set, entity and derivative order",
  "No test tabulates a spectral element on its own nodes.",
  ["finat/spectral.py"],
  [("GaussLobattoLegendre", "finat/spectral.py"), ("GaussLegendre", "finat/spectral.py")],
  ["basis_evaluation"])
p("C15", "Run-time tabulated elements name each table uniquely",
  "A run-time tabulated element produces, for every derivative up to the requested order, a variable whose name encodes variant, degree, derivative, axis shift, continuity and facet side, and whose shape is point extents followed by the index and value shapes. Unsupported cells and invalid parameters are refused, and form degree and dimension follow continuity and degree.",
  [I, C], "every parameter combination and derivative order",
  "The class has no test.",
  ["finat/runtime_tabulated.py"],
  [("RuntimeTabulated", "finat/runtime_tabulated.py")], ["basis_evaluation"])
p("C16", "Symbolic translation preserves the operation of every node",
  "Translating a symbolic expression maps each supported node kind to the expression node of the same mathematical operation with operands in the same order, for both symbolic back ends; piecewise expressions keep the first-match-wins order of their branches. Unsupported nodes are refused rather than mistranslated.",
  [I, PR], "every expression tree over the supported node kinds",
  "Tests translate only the polynomials and rationals that occur in two elements.",
  ["finat/sympy2gem.py"], [("dispatch table", "finat/sympy2gem.py")], ["sympy2gem"])
p("C17", "Each FIAT-backed element wraps the FIAT element of the same name and arguments",
  "Every element class backed by FIAT constructs the FIAT element of its own family with the caller's cell, degree and variant forwarded, and its declared value shape, cell, degree, form degree, DoF and orientation tables are those of that FIAT element. Families whose orientation permutations FIAT cannot provide refuse the query.",
  [I, C], "every exported element class and constructor argument",
  "Tests instantiate a subset, mostly with default variant.",
  ["finat/fiat_elements.py", "finat/spectral.py", "finat/trace.py", "finat/nodal_enriched.py", "finat/arnold_qin.py", "finat/guzman_neilan.py"],
  [("constructors", "finat/fiat_elements.py and sibling modules")], ["constructors", "entity_dofs"])
p("C18", "FIAT tables are converted to expressions without reordering",
  "Converting a numerical FIAT table to an expression keeps basis functions, value components and points in FIAT's order, for value-shaped and scalar elements, at known points and at symbolic points; only tables above the polynomial degree become zero and only tables at the polynomial degree on non-macro cells become point-independent. Tabulation failures are carried over as failures of the same shape.",
  [I, C], "every table, derivative order, entity, and point set structure",
  "Tests compare values for a few scalar elements at one point layout.",
  ["finat/fiat_elements.py"], [("FiatElement.basis_evaluation", "finat/fiat_elements.py"), ("point_evaluation", "finat/fiat_elements.py")],
  ["basis_evaluation", "point_evaluation"])
p("C19", "Dual evaluation contracts dual weights with the function at the dual points",
  "The dual basis of a FIAT-backed element lists each distinct point tuple once, and puts every functional's weight in the row of that functional, the column of its point and the slot of its component; the dual evaluation of a function is the contraction of those weights with the function at those points over point and value indices, with free basis indices in DoF order. Functionals involving derivatives are refused.",
  [I, C], "every dual set and function",
  "No test performs a dual evaluation.",
  ["finat/fiat_elements.py", "finat/finiteelementbase.py"],
  [("dual basis", "FiatElement._dual_basis, dual_basis"), ("dual evaluation", "FiniteElementBase.dual_evaluation")],
  ["dual_basis", "dual_evaluation"])
p("C20", "Physically mapped elements scale consistently with the cell size",
  "Under uniform scaling of the physical cell together with the supplied cell sizes, all entries of the basis transformation in the row of one DoF scale with one power of the size. The power is zero for values, gradients and Hessians at vertices, edge normal derivatives, normal and tangential moments on edges, and tensor components at vertices, so the cell size enters exactly to the order of the derivative. Not rescaled, and so with the power of the mapping itself, are edge normal derivative moments the caller asked to be averaged (one), tangential tensor moments on the faces of a tetrahedron (one), components of Piola mapped vectors (dimension minus one) and their divergence (dimension), and pointwise interior tensor values (two).",
  [I, C], "every physical cell geometry and cell-size field",
  "Tests use a few physical cells and mostly cell sizes of one, so a wrong power of the size or of the edge length that is neutral there is not seen.",
  ["finat/argyris.py", "finat/bell.py", "finat/hct.py", "finat/hermite.py", "finat/morley.py", "finat/powell_sabin.py", "finat/aw.py", "finat/hz.py"],
  [("basis_transformation", "zany elements")], ["basis_transformation"])
p("C21", "Physically mapped tables are the transformation applied to the reference table",
  "For every physically mapped element each derivative table is the matrix product of the basis transformation at the given geometry with the reference table of the same derivative, contracted over the reference basis index, with value indices kept last. Tabulation without geometry is refused.",
  [I, C], "every element, geometry, derivative order, entity and point set",
  "Zany tests check values of the zeroth derivative for chosen elements and one geometry.",
  ["finat/physically_mapped.py"], [("PhysicallyMappedElement.basis_evaluation", "finat/physically_mapped.py")], ["basis_evaluation"])
p("C33", "Basis transformations express reference DoFs by physical DoFs",
  "For every physically mapped element the basis transformation is the transpose of the matrix that expresses each reference DoF of a pulled-back function by the DoFs of the function on the physical cell, each carrying its cell-size scaling: values are kept, gradients and Hessians at vertices follow the chain rule, vector and symmetric tensor components follow the inverse Piola map, normal moments are kept and tangential ones split into physical normal and tangential ones, edge normal derivatives split into physical normal derivatives and end-point jets or trace moments, everything else is kept, and functions that only serve constraints have no DoF of their own.",
  [I, C], "every physical cell geometry, cell-size field, degree and variant",
  "Tests compare with a FIAT element on one or a few physical cells, with cell sizes of one, and not for every degree, variant and averaging flag.",
  ["finat/argyris.py", "finat/bell.py", "finat/hct.py", "finat/hermite.py", "finat/morley.py", "finat/powell_sabin.py", "finat/aw.py", "finat/hz.py", "finat/mtw.py", "finat/johnson_mercier.py", "finat/piola_mapped.py", "finat/alfeld_sorokina.py"],
  [("vertex and edge transforms", "finat/argyris.py"), ("facet and evaluation transforms", "finat/aw.py, finat/piola_mapped.py")], ["basis_transformation"])
p("C34", "Default support DoFs are those with a non-zero squared integral",
  "An element without a rule of its own reports, for every entity of every dimension of its cell, as support DoFs exactly those whose basis function has a squared integral over that entity above the tolerance, the integral being taken with the element's own tabulation on that very entity, over all value components, with a rule exact for the square.",
  [I, C], "every element, cell, entity, degree and value shape",
  "No test looks at the support DoFs of a simple element; boundary conditions rely on them.",
  ["finat/finiteelementbase.py"], [("_entity_support_dofs", "finat/finiteelementbase.py")], ["entity_support_dofs"])
p("C35", "Answers do not depend on what was asked before",
  "Every answer of an element, quadrature rule or symbolic element (its data, DoF tables, tabulations for given points, entity, order and physical cell, dual basis, restriction, reconstruction, representation) is the one a newly made object would give as the first one asked anything: asking about one object changes neither it, nor its parts, nor any other object, whatever is kept between queries is kept under all the data it depends on, and arguments given by the user are left as they were.",
  [I, H], "every history of queries on every element, rule and symbolic element, in one process",
  "Tests make an object, ask once and compare; results kept under incomplete data or shared mutable tables only show after a second, different query.",
  ["finat/fiat_elements.py", "finat/enriched.py", "finat/tensor_product.py", "finat/physically_mapped.py", "finat/quadrature.py", "finat/point_set.py", "finat/ufl/finiteelement.py"],
  [("cached properties", "finat/point_set.py, finat/tensorfiniteelement.py, finat/fiat_elements.py"), ("derivative cache", "finat/direct_serendipity.py")], ["every query, repeated"])
p("C22", "Every citation an element registers is one the library has declared",
  "Each element that registers a bibliographic key when constructed uses a key whose entry the library adds when it is loaded, and registration never happens when citation support is absent.",
  [C], "every element class, with citation support present",
  "Citation support is not installed where tests run, so no registration is ever executed.",
  ["finat/physically_mapped.py", "finat/fiat_elements.py"], [("citation table", "finat/physically_mapped.py")], ["constructors"])
p("C23", "Every element class implements the full element interface uniformly",
  "Every exported element class provides all attributes and methods the element interface declares, with attributes readable without a call, methods callable with the interface's parameter names, order and defaults, and no abstract member left unimplemented unless the class documents refusal.",
  [C, PR], "every exported element class and interface member",
  "Tests touch a few members of a few classes; a member that is a method instead of an attribute is only seen when used.",
  ["finat/finiteelementbase.py", "finat/__init__.py"], [("abstract interface", "FiniteElementBase")], ["element interface"])
p("C24", "Symbolic elements are identified by all the data that defines them",
  "For every symbolic (UFL) element class the textual representation is deterministic and contains every constructor input that affects the element, so that elements differing in any of them differ in representation, equality and hash; equality, hash and ordering all derive from that same data and type.",
  [I, C], "every pair of symbolic elements",
  "Tests check hashes of a few finat elements only; no test compares symbolic elements differing in one input.",
  ["finat/ufl"], [("repr/hash/eq", "finat/ufl/finiteelementbase.py and all subclasses")], ["__repr__", "__hash__", "__eq__"])
p("C25", "Reconstructing or copying a symbolic element preserves unspecified data",
  "Reconstructing a symbolic element with some properties replaced yields the same kind of element with exactly those properties replaced throughout its sub-elements and everything else (family, cell, degree, quadrature scheme, variant, shape, symmetry, restriction, mapping) preserved; copying and pickling preserve all of it.",
  [I, C, H], "every symbolic element and subset of replaced properties",
  "No test reconstructs, copies or pickles a symbolic element.",
  ["finat/ufl"], [("reconstruct", "finat/ufl/*.py"), ("__getnewargs__", "finat/ufl/finiteelement.py")], ["reconstruct", "copy", "pickle"])
p("C26", "The family table is coherent and lookups resolve to it",
  "Every registered family carries a value rank, Sobolev space, mapping and degree range that fit together (rank by mapping, space by mapping), short names and aliases resolve to registered families on valid cells, and looking up a family validates cell and degree against its entry, derives the reference value shape from the rank and cell dimension, and switches to the cube family exactly on cube and product cells.",
  [I, C], "every family name, alias, cell and degree",
  "Tests construct no symbolic element from most families.",
  ["finat/ufl/elementlist.py"], [("registry", "register_element"), ("canonical_element_description", "finat/ufl/elementlist.py")], ["FiniteElement"])
p("C27", "Exterior-calculus names resolve to the family of that form degree",
  "For every finite element exterior calculus notation, topological dimension and form degree, the resolved family exists on cells of that dimension, its form degree is the requested one, its polynomial order is the requested one (reduced by one exactly for the top form of the trimmed families), and the long, short and L2 spellings agree except for the top form's pullback.",
  [I, C], "every notation, dimension, order and form degree",
  "No test uses the exterior calculus notation.",
  ["finat/ufl/elementlist.py"], [("feec_element", "finat/ufl/elementlist.py"), ("feec_element_l2", "finat/ufl/elementlist.py")], ["FiniteElement"])
p("C28", "Families on product cells expand to the right tensor products",
  "Requesting a family on a tensor-product cell expands it into the tensor-product, H(div) or H(curl) sum that defines it, with the degree of each one-dimensional factor, the order of factors and of summands, the cell and the variant carried through; RTCE, RTCF, NCE and NCF are refused on other product cells.",
  [I, C], "every family, product cell, degree and variant",
  "No test constructs symbolic elements on product cells.",
  ["finat/ufl/finiteelement.py"], [("expansion", "FiniteElement.__new__")], ["FiniteElement"])
p("C29", "Pullback, mapping and Sobolev space of symbolic elements follow their parts",
  "Each mapping name selects its own pullback and unknown names are refused; composite symbolic elements derive mapping, Sobolev space, cellwise constancy, linearity and pullback from their parts by the documented rule (first, all-equal, wrapper's own, smallest shared space, L2 when broken or interior-restricted).",
  [I, C], "every composition of symbolic elements",
  "No test queries these on composite symbolic elements.",
  ["finat/ufl"], [("pullback", "finat/ufl/finiteelementbase.py"), ("sobolev_space, mapping", "finat/ufl/*.py")], ["pullback", "mapping", "sobolev_space"])
p("C30", "Composite symbolic elements keep sub-elements, shapes and components aligned",
  "Mixed, vector, tensor, enriched, product, restricted and wrapped symbolic elements keep sub-elements in the given order, derive cell, degree and quadrature scheme from them consistently and refuse inconsistent ones, and report the reference value shape implied by them; tensor symmetries map every component to an existing sub-element consistently in the element and its pullback. Looking up a reference component returns the sub-element and local component that occupy it.",
  [I, C], "every nesting of symbolic elements, shape and symmetry",
  "No test builds symbolic composites with symmetry or looks up components.",
  ["finat/ufl/mixedelement.py", "finat/ufl/tensorproductelement.py", "finat/ufl/enrichedelement.py", "finat/ufl/restrictedelement.py", "finat/ufl/hdivcurl.py"],
  [("MixedElement, VectorElement, TensorElement", "finat/ufl/mixedelement.py")], ["sub_elements", "reference_value_shape", "extract_reference_component"])
p("C31", "Embedded degrees bound the polynomial degree of every symbolic element",
  "The embedded sub- and super-degree of every symbolic element are single integers: the lowest and highest of its parts for sums and mixtures, the minimum and the sum of factor degrees for products, and the wrapped element's for wrappers; bubble families use the cell dimension.",
  [I, C], "every symbolic element",
  "No test queries embedded degrees.",
  ["finat/ufl"], [("embedded degrees", "finat/ufl/*.py")], ["embedded_subdegree", "embedded_superdegree"])
p("C32", "Direct serendipity DoFs partition the basis for every degree",
  "For every degree the direct serendipity element assigns each basis function to exactly one vertex, edge or the interior: one per vertex, degree minus one per edge in edge order, the rest interior, in the order in which the basis is listed, with dimension (r+1)(r+2)/2+2 (4 for the lowest degree). Tabulation returns one entry per derivative multi-index up to the requested order.",
  [I, C], "every degree", "Tests run a few low degrees on one cell.",
  ["finat/direct_serendipity.py"], [("entity_dofs", "finat/direct_serendipity.py")], ["entity_dofs", "space_dimension", "basis_evaluation"])
# not decidable statically, listed for completeness
p("C40", "Zany transformations reproduce physical-space nodal bases on every cell",
  "For every non-degenerate physical cell the transformed basis functions are dual to the element's physical degrees of freedom.",
  [I], "every physical cell geometry", "Tests sample one geometry.",
  ["finat/argyris.py", "finat/bell.py", "finat/aw.py", "finat/mtw.py", "finat/hct.py", "finat/morley.py", "finat/piola_mapped.py"], [("basis_transformation", "zany elements")], ["basis_evaluation"])
p("C41", "Quadrature rules integrate polynomials of the requested degree exactly",
  "A rule built for degree d integrates every polynomial of degree at most d on its reference cell to machine precision.",
  [I], "every cell, degree and scheme", "Tests sample none.",
  ["finat/quadrature.py"], [("make_quadrature", "finat/quadrature.py")], ["make_quadrature"])
p("C42", "Direct serendipity functions are nodal and contain all polynomials",
  "For every convex quadrilateral and degree r the direct serendipity functions are nodal at the listed points and span all polynomials of degree r.",
  [I], "every convex quadrilateral and degree", "Tests sample one quadrilateral.",
  ["finat/direct_serendipity.py"], [("ds_sym", "finat/direct_serendipity.py")], ["basis_evaluation"])
p("C43", "Support DoFs are exactly those with non-zero trace",
  "The support DoFs of an entity are exactly the basis functions whose restriction to that entity does not vanish.",
  [I], "every element and entity", "Tests sample none.",
  ["finat/finiteelementbase.py"], [("_entity_support_dofs", "finat/finiteelementbase.py")], ["entity_support_dofs"])
p("C44", "Mapped mass matrices stay well conditioned under refinement",
  "The condition number of mapped mass matrices is bounded independently of the mesh size.",
  [I], "every shape-regular mesh", "One test samples a few sizes.",
  ["finat/argyris.py"], [("cell-size scaling", "zany elements")], ["basis_transformation"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
print(len(P))
