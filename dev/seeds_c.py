CELLS = '''
import FIAT, gem, finat, finat.ufl, numpy as np, ufl
from FIAT.reference_element import TensorProductCell
from finat.point_set import *
from gem.interpreter import evaluate
I, T, K = FIAT.ufc_simplex(1), FIAT.ufc_simplex(2), FIAT.ufc_simplex(3)
def raises(exc, f):
    try:
        f()
    except exc:
        return True
    return False
def ev(x):
    return evaluate([x])[0].arr
'''
SEEDS = [
 dict(id="transposed_tensor_stride", property="C04", needs="a transposed element whose shape has two axes",
  breaks="the components of a transposed tensor element are numbered with the stride of one row of components",
  edits=[("finat/tensorfiniteelement.py", "            dofs = tuple(dofs)\n            if self._transpose:\n                space_dim = self._base_element.space_dimension()\n",
          "            dofs = tuple(dofs)\n            if self._transpose:\n                space_dim = self.space_dimension() // (self._shape[0] ** len(self._shape))\n")],
  demo=CELLS + '''
for shape in ((2,), (2, 2), (2, 3)):
    e = finat.TensorFiniteElement(finat.Lagrange(T, 1), shape, transpose=True)
    n = int(np.prod(shape))
    assert e.entity_dofs()[0] == {v: [v + 3*i for i in range(n)] for v in range(3)}, e.entity_dofs()
'''),
 dict(id="hcurl_rotation_flipped", property="C07", needs="H(curl) of (contravariantly mapped base) x (continuous interval) in 3D",
  breaks="the tangential component is rotated anticlockwise instead of clockwise, so vertical and horizontal degrees of freedom disagree with FIAT's",
  edits=[("finat/hdivcurl.py", '''        return lambda v: [gem.Product(gem.Literal(-1), gem.Indexed(v, (1,))),
                          gem.Indexed(v, (0,)),
                          gem.Zero()]''', '''        return lambda v: [gem.Indexed(v, (1,)),
                          gem.Product(gem.Literal(-1), gem.Indexed(v, (0,))),
                          gem.Zero()]''')],
  demo=CELLS + '''
w = finat.TensorProductElement([finat.RaviartThomas(T, 1), finat.GaussLobattoLegendre(I, 1)])
e = finat.HCurlElement(w)
v = gem.Literal(np.array([2.0, 3.0]))
assert [float(ev(c)) for c in e.transform(v)] == [-3.0, 2.0, 0.0]
'''),
 dict(id="piecewise_order", property="C16", needs="a piecewise expression whose conditions overlap",
  breaks="where the conditions of several pieces hold, the value of the last of them is taken instead of the first",
  edits=[("finat/sympy2gem.py", "    for v, c in reversed(pieces):", "    for v, c in pieces:")],
  demo=CELLS + '''
import sympy
from finat.sympy2gem import sympy2gem
x = sympy.Symbol("x")
p = sympy.Piecewise((1, x < 1), (2, x < 2), (3, True))
for at, val in ((0.5, 1), (1.5, 2), (2.5, 3)):
    m = gem.node.Memoizer(sympy2gem)
    m.bindings = {x: gem.Literal(at)}
    assert float(ev(m(p))) == val, (at, ev(m(p)))
'''),
 dict(id="point_evaluation_entity", property="C18", needs="evaluation at run-time points of a facet other than the first",
  breaks="the basis functions are those of the first facet whichever facet is asked for",
  edits=[("finat/fiat_elements.py", "return point_evaluation(self._element, order, refcoords, (entity_dim, entity_i))",
          "return point_evaluation(self._element, order, refcoords, (entity_dim, entity_i if entity_dim == esd == self.cell.get_dimension() else 0))")],
  demo=CELLS + '''
e = finat.Lagrange(T, 2)
for f in range(3):
    t = e.point_evaluation(0, gem.Literal(np.array([0.25])), (1, f))[(0, 0)]
    r = FIAT.Lagrange(T, 2).tabulate(0, [[0.25]], (1, f))[(0, 0)][:, 0]
    assert np.allclose(ev(t), r), (f, ev(t), r)
'''),
 dict(id="mapped_entity_lost", property="C21", needs="tabulation of a physically mapped element on a facet",
  breaks="the points of a facet are taken for points of the cell",
  edits=[("finat/physically_mapped.py", "result = super().basis_evaluation(order, ps, entity=entity)",
          "result = super().basis_evaluation(order, ps)")],
  demo=CELLS + '''
class Map:
    def cell_size(self):
        return gem.Literal(np.ones(3))
    def jacobian_at(self, p):
        return gem.Literal(np.eye(2))
e = finat.Hermite(T, 3)
for f in range(3):
    try:
        t = e.basis_evaluation(0, PointSingleton([0.25]), (1, f), coordinate_mapping=Map())[(0, 0)]
    except Exception as x:
        raise SystemExit("failed: %r" % x)
    r = FIAT.CubicHermite(T).tabulate(0, [[0.25]], (1, f))[(0, 0)][:, 0]
    assert np.allclose(ev(t), r), (f, ev(t), r)
'''),
 dict(id="citation_misspelt", property="C22", needs="an installation with the citations package",
  breaks="constructing the element fails on an unknown citation key",
  edits=[("finat/hermite.py", 'Citations().register("Ciarlet1972")', 'Citations().register("Ciarlet1978")')],
  demo='''
import sys, types
keys = set()
class Citations:
    def add(self, key, text):
        keys.add(key)
    def register(self, key):
        if key not in keys:
            raise KeyError(key)
m = types.ModuleType("firedrake_citations")
m.Citations = Citations
sys.modules["firedrake_citations"] = m
import FIAT, finat
finat.Hermite(FIAT.ufc_simplex(2), 3)
finat.Morley(FIAT.ufc_simplex(2), 2)
'''),
 dict(id="sminusdiv_hexahedron", property="C26", needs="a trimmed serendipity H(div) element on a hexahedron",
  breaks="the family is refused on one of the cells it is defined on",
  edits=[("finat/ufl/elementlist.py", 'register_element("SminusDiv", "SminusDiv", 1, HDiv, "contravariant Piola", (1, None), cubes[1:3])',
          'register_element("SminusDiv", "SminusDiv", 1, HDiv, "contravariant Piola", (1, None), cubes[1:2])')],
  demo=CELLS + '''
for c in ("quadrilateral", "hexahedron"):
    for f in ("SminusDiv", "SminusCurl"):
        assert finat.ufl.FiniteElement(f, c, 1).cell.cellname() == c
'''),
 dict(id="feec_l2_swapped", property="C27", needs="an exterior-calculus name with L2 pullback for 1- or 2-forms in three dimensions",
  breaks="1-forms and 2-forms in three dimensions resolve to each other's family",
  edits=[("finat/ufl/elementlist.py", '(("P", r), ("N1E", r), ("N1F", r), ("DP L2", r - 1)),', '(("P", r), ("N1F", r), ("N1E", r), ("DP L2", r - 1)),')],
  demo=CELLS + '''
for k, fam in ((0, "Lagrange"), (1, "Nedelec 1st kind H(curl)"), (2, "Raviart-Thomas"), (3, "Discontinuous Lagrange L2")):
    for name in ("P- Lambda L2", "P- L2"):
        e = finat.ufl.FiniteElement(name, "tetrahedron", 2, form_degree=k)
        assert e.family() == fam, (k, e)
'''),
 dict(id="bubble_degree_guzman", property="C31", needs="a Guzman-Neilan H1(div) or second-kind element in three dimensions",
  breaks="the embedded degree of the enriched families other than the first ignores the facet bubbles",
  edits=[("finat/ufl/elementlist.py", 'if any(bubble in family for bubble in ("Guzman-Neilan", "Bernardi-Raugel")):',
          'if any(family.startswith(bubble) for bubble in ("Guzman-Neilan 1st", "Bernardi-Raugel")):')],
  demo=CELLS + '''
for f, d in (("GN", 1), ("GN2", 1), ("GNH1div", 2), ("BR", 1)):
    assert finat.ufl.FiniteElement(f, "tetrahedron", d).embedded_superdegree == 3, f
'''),
 dict(id="serendipity_dimension", property="C32", needs="a direct serendipity element of degree five or more",
  breaks="the interior degrees of freedom are counted as growing linearly with the degree",
  edits=[("finat/direct_serendipity.py", "return 4 if self.degree == 1 else (self.degree+1)*(self.degree+2)//2 + 2",
          "return 4*self.degree + max(0, self.degree - 3)")],
  demo=CELLS + '''
from FIAT.reference_element import UFCQuadrilateral
for d in range(1, 8):
    e = finat.DirectSerendipity(UFCQuadrilateral(), d)
    n = 4 if d == 1 else (d+1)*(d+2)//2 + 2
    assert e.space_dimension() == n
    assert sorted(x for ds in e.entity_dofs().values() for l in ds.values() for x in l) == list(range(n))
'''),
 dict(id="support_degree", property="C34", needs="a basis function that vanishes at the points of the coarser quadrature rule",
  breaks="the squares of the basis functions are under-integrated, so functions with support on an entity are missed",
  edits=[("finat/finiteelementbase.py", "(2*numpy.array(self.degree)).tolist()", "numpy.array(self.degree).tolist()")],
  demo=CELLS + '''
assert finat.Legendre(I, 1).entity_support_dofs()[1][0] == [0, 1]
assert finat.Legendre(I, 3).entity_support_dofs()[1][0] == [0, 1, 2, 3]
assert finat.Lagrange(T, 2).entity_support_dofs()[2][0] == list(range(6))
'''),
 dict(id="discontinuous_point_entity", property="C08", needs="evaluation of a broken element at run-time points of a facet",
  breaks="the facet is not handed on, so facet points are rejected or taken for cell points",
  edits=[("finat/discontinuous.py", "return self.element.point_evaluation(order, refcoords, entity)", "return self.element.point_evaluation(order, refcoords)")],
  demo=CELLS + '''
e = finat.DiscontinuousElement(finat.Lagrange(T, 2))
t = e.point_evaluation(0, gem.Literal(np.array([0.25])), (1, 2))[(0, 0)]
assert np.allclose(ev(t), FIAT.Lagrange(T, 2).tabulate(0, [[0.25]], (1, 2))[(0, 0)][:, 0])
'''),
]
