CELLS = '''
import FIAT, gem, finat, finat.ufl, numpy as np
from FIAT.reference_element import TensorProductCell
from finat.point_set import *
from gem.interpreter import evaluate
I, T, K = FIAT.ufc_simplex(1), FIAT.ufc_simplex(2), FIAT.ufc_simplex(3)
def raises(exc, f):
    try:
        f()
    except exc:
        return True
    return False
'''
SEEDS = [
 dict(id="enriched_formdegree", property="C05", needs="an enriched element of which only some parts have a form degree",
  breaks="an enriched element with a part of unknown form degree claims the form degree of the others",
  edits=[("finat/enriched.py", '''        ks = set(elem.formdegree for elem in self.elements)
        if None in ks:
            return None
        else:
            return max(ks)''', '''        ks = set(elem.formdegree for elem in self.elements) - {None}
        return max(ks, default=None)''')],
  demo=CELLS + '''
a = finat.Lagrange(T, 1)
from finat.quadrature_element import make_quadrature_element
r = make_quadrature_element(T, 2)
assert r.formdegree is None and a.formdegree == 0
assert finat.EnrichedElement([a, finat.Bubble(T, 3)]).formdegree == 0
assert finat.EnrichedElement([a, r]).formdegree is None
'''),
 dict(id="mixed_nonsquare_slots", property="C06", needs="a mixed element with a part whose value shape is a non-square matrix",
  breaks="the components of a matrix-valued part are placed in column order, indexing out of its value shape",
  edits=[("finat/mixed.py", "numpy.ndindex(self.element.value_shape)", "numpy.ndindex(self.element.value_shape[::-1])"),
         ("finat/mixed.py", "u[self.offset + j] = gem.Indexed(v, zeta)", "u[self.offset + j] = gem.Indexed(v, zeta[::-1])")],
  demo=CELLS + '''
e = finat.TensorFiniteElement(finat.DiscontinuousLagrange(I, 0), (2, 3))
m = finat.MixedElement([e, finat.Lagrange(I, 1)])
ps = PointSet([[0.5]])
for sub, n in ((finat.mixed.MixedSubElement(e, 7, 0), 6),):
    t = sub.basis_evaluation(0, ps)[(0,)]
    ix = tuple(gem.Index(extent=s) for s in t.shape)
    b = gem.ComponentTensor(gem.Indexed(t, ix), ix)
    A = evaluate([b])[0].arr.reshape(6, 7)
    assert np.allclose(A[:, :6], np.eye(6)), A
'''),
 dict(id="restrict_transpose_lost", property="C10", needs="restriction of a transposed vector/tensor element",
  breaks="the restricted element orders its degrees of freedom in the default, untransposed way",
  edits=[("finat/restricted.py", "return finat.TensorFiniteElement(restricted, element._shape, element._transpose)", "return finat.TensorFiniteElement(restricted, element._shape)")],
  demo=CELLS + '''
for transpose in (False, True):
    e = finat.TensorFiniteElement(finat.Lagrange(T, 3), (2,), transpose=transpose)
    r = finat.RestrictedElement(e, "facet")
    assert r.index_shape == ((2, 9) if transpose else (9, 2)), r.index_shape
'''),
 dict(id="prism_degree_sorted", property="C11", needs="a quadrature degree given per factor, in increasing order, on a product cell",
  breaks="the degrees are handed to the factor cells in decreasing order instead of the given one",
  edits=[("finat/quadrature.py", "            degree = tuple(degree)\n", "            degree = tuple(sorted(degree, reverse=True))\n")],
  demo=CELLS + '''
c = TensorProductCell(T, I)
for degree in ((4, 1), (1, 7), (2, 2)):
    q = finat.quadrature.make_quadrature(c, degree)
    a, b = q.factors
    assert len(a.weights) == len(finat.quadrature.make_quadrature(T, degree[0]).weights)
    assert len(b.weights) == degree[1] // 2 + 1, (degree, len(b.weights))
'''),
 dict(id="tensor_points_tolerance", property="C12", needs="comparison of tensor product point sets with a tolerance other than the default",
  breaks="the requested tolerance is ignored for the factors, so nearby point sets compare different",
  edits=[("finat/point_set.py", "all(s.almost_equal(o, tolerance=tolerance)", "all(s.almost_equal(o)")],
  demo=CELLS + '''
a = TensorPointSet([PointSet([[0.25], [0.5]]), PointSet([[0.125]])])
b = TensorPointSet([PointSet([[0.25], [0.5]]), PointSet([[0.125 + 1e-7]])])
assert not a.almost_equal(b)
assert a.almost_equal(b, tolerance=1e-6)
assert not a.almost_equal(b, tolerance=1e-8)
'''),
 dict(id="quadrature_element_subentity", property="C13", needs="tabulation of a quadrature element on the first sub-entity of lower dimension",
  breaks="a quadrature element tabulates on entity 0 of any dimension instead of refusing",
  edits=[("finat/quadrature_element.py", "entity != (self.cell.get_dimension(), 0)", "entity[-1] != 0")],
  demo=CELLS + '''
from finat.quadrature_element import make_quadrature_element
e = make_quadrature_element(T, 2)
ps = e._rule.point_set
e.basis_evaluation(0, ps, (2, 0))
e.basis_evaluation(0, ps)
assert raises(ValueError, lambda: e.basis_evaluation(0, ps, (1, 1)))
assert raises(ValueError, lambda: e.basis_evaluation(0, ps, (1, 0)))
assert raises(ValueError, lambda: e.basis_evaluation(0, ps, (0, 0)))
'''),
 dict(id="gl_more_points", property="C14", needs="a Gauss-Legendre element tabulated on more Gauss-Legendre points than it has nodes",
  breaks="over-integrated tabulation is replaced by an identity, although the points are not the nodes",
  edits=[("finat/spectral.py", "isinstance(ps, GaussLegendrePointSet) and len(ps.points) == space_dim", "isinstance(ps, GaussLegendrePointSet) and len(ps.points) >= space_dim")],
  demo=CELLS + '''
from finat.quadrature import make_quadrature
e = finat.GaussLegendre(I, 2)
for degree in (1, 3, 5, 7, 9):
    ps = make_quadrature(I, degree).point_set
    t = e.basis_evaluation(0, ps)[(0,)]
    def nodes(x, seen=()):
        yield x
        for c in x.children:
            yield from nodes(c)
    delta = any(isinstance(n, gem.Delta) for n in nodes(t))
    assert delta == (len(ps.points) == 3), degree
'''),
 dict(id="shared_dual_points", property="C19", needs="the dual basis of the same element object taken twice, as in a tensor product of an element with itself",
  breaks="the second dual basis has the same point set, hence the same free index, as the first",
  edits=[("finat/fiat_elements.py", "    @property\n    def dual_basis(self):\n        # Return Q with", "    @cached_property\n    def dual_basis(self):\n        # Return Q with")],
  demo=CELLS + '''
e = finat.Lagrange(I, 2)
p = finat.TensorProductElement([e, e])
Q, x = p.dual_basis
assert len(set(x.indices)) == len(x.indices) == 2
assert set(Q.free_indices) == set(x.indices)
'''),
 dict(id="quadrature_scheme_repr", property="C24", needs="elements that differ only in the quadrature scheme, one of them named 'default' explicitly",
  breaks="an element with the explicit scheme 'default' is identified with the one whose scheme is left open",
  edits=[("finat/ufl/finiteelement.py", "        qs = self.quadrature_scheme()\n        if qs is None:\n            quad_str = \"\"", "        qs = self.quadrature_scheme()\n        if qs in (None, \"default\"):\n            quad_str = \"\"")],
  demo=CELLS + '''
a = finat.ufl.FiniteElement("Quadrature", "triangle", 2)
b = finat.ufl.FiniteElement("Quadrature", "triangle", 2, quad_scheme="default")
c = finat.ufl.FiniteElement("Quadrature", "triangle", 2, quad_scheme="vertex")
d = {a: 1, b: 2, c: 3}
assert a.quadrature_scheme() is None and b.quadrature_scheme() == "default"
assert len(d) == 3 and a != b and b != c
'''),
 dict(id="reconstruct_degree_zero", property="C25", needs="reconstruction of an element with degree 0 from one of another degree",
  breaks="degree=0 is taken for an unspecified degree and the old degree is kept",
  edits=[("finat/ufl/finiteelement.py", "        if degree is None:\n            degree = self.degree()\n        if quad", "        if not degree:\n            degree = self.degree()\n        if quad")],
  demo=CELLS + '''
e = finat.ufl.FiniteElement("DG", "triangle", 2)
assert e.reconstruct().degree() == 2
assert e.reconstruct(degree=1).degree() == 1
assert e.reconstruct(degree=0).degree() == 0
v = finat.ufl.VectorElement(e)
assert v.reconstruct(degree=0).sub_elements[0].degree() == 0
'''),
 dict(id="nc_divergence_order", property="C28", needs="the N1curl-type family on a hexahedron with its H(div) counterpart compared factor by factor",
  breaks="the discontinuous quadrilateral factor of NCF has at least degree one",
  edits=[("finat/ufl/finiteelement.py", 'Qd_elt = FiniteElement("DQ", "quadrilateral", degree - 1, variant=variant)', 'Qd_elt = FiniteElement("DQ", "quadrilateral", max(degree - 1, 1), variant=variant)')],
  demo=CELLS + '''
import ufl
def degrees(e):
    if isinstance(e, finat.ufl.FiniteElement):
        return [(e.family(), e.degree())]
    return [x for s in (getattr(e, "_elements", None) or e.sub_elements or [e._element]) for x in degrees(s)]
for k in (1, 2, 3):
    e = finat.ufl.FiniteElement("NCF", ufl.TensorProductCell(ufl.quadrilateral, ufl.interval), k)
    assert sorted(d for _, d in degrees(e)) == [k - 1, k - 1, k, k], (k, degrees(e))
'''),
 dict(id="mixed_piola_mapping", property="C29", needs="a mixed element all of whose parts have the same Piola mapping",
  breaks="the mixed element claims the Piola mapping of its parts for the concatenated value",
  edits=[("finat/ufl/mixedelement.py", '        if all(e.mapping() == "identity" for e in self._sub_elements):\n            return "identity"', '        if len({e.mapping() for e in self._sub_elements}) == 1:\n            return self._sub_elements[0].mapping()')],
  demo=CELLS + '''
rt = finat.ufl.FiniteElement("RT", "triangle", 1)
p = finat.ufl.FiniteElement("CG", "triangle", 1)
assert finat.ufl.MixedElement(p, p).mapping() == "identity"
assert finat.ufl.MixedElement(p, rt).mapping() == "undefined"
assert finat.ufl.MixedElement(rt, rt).mapping() == "undefined"
'''),
 dict(id="symmetry_image_sorted", property="C30", needs="a tensor element with a user-given symmetry whose image is not the sorted index",
  breaks="every index of a symmetry is mapped to the sorted index, whatever the given symmetry says",
  edits=[("finat/ufl/mixedelement.py", "sub_element_mapping[index] = sub_element_mapping[symmetry[index]]", "sub_element_mapping[index] = sub_element_mapping[tuple(sorted(index))]")],
  demo=CELLS + '''
e = finat.ufl.TensorElement("CG", "triangle", 1, shape=(2, 2), symmetry={(1, 0): (0, 1)})
m = e._sub_element_mapping
assert m[1, 0] == m[0, 1] and len(set(m.values())) == 3
e = finat.ufl.TensorElement("CG", "triangle", 1, shape=(2, 2), symmetry={(1, 1): (0, 0)})
m = e._sub_element_mapping
assert m[1, 1] == m[0, 0] and len(set(m.values())) == 3, m
'''),
 dict(id="hermite_curved", property="C33", needs="a cell whose Jacobian differs between the vertices",
  breaks="the gradient degrees of freedom of every vertex are transformed with the Jacobian of the first vertex",
  edits=[("finat/hermite.py", "            J = Js[i]\n", "            J = Js[0]\n")],
  demo=CELLS + '''
from finat.physically_mapped import PhysicalGeometry
class Curved(PhysicalGeometry):
    def J(self, p):
        return np.array([[1. + p[0], 2. * p[1]], [p[0], 3. + p[1]]])
    def jacobian_at(self, p):
        return gem.Literal(self.J(p))
    def cell_size(self):
        return np.ones(3)
    detJ_at = reference_normals = physical_normals = physical_tangents = physical_edge_lengths = physical_points = physical_vertices = None
    normalized_reference_edge_tangents = None
Curved.__abstractmethods__ = frozenset()
e = finat.Hermite(T)
g = Curved()
M = evaluate([e.basis_transformation(g)])[0].arr
for i, v in enumerate(T.get_vertices()):
    assert np.allclose(M[3*i+1:3*i+3, 3*i+1:3*i+3], g.J(v)), i
'''),
 dict(id="runtime_name_alpha", property="C15", needs="derivatives beyond the ninth of a run-time tabulated element or several elements whose names differ only in a merged field",
  breaks="the restriction '-' shares the names of the restriction '+'",
  edits=[("finat/runtime_tabulated.py", "'-': \"m\"}[self.restriction])", "'-': \"p\" if self.continuous else \"m\"}[self.restriction])")],
  demo=CELLS + '''
ps = UnknownPointSet(gem.Variable("rt_X", (3, 1)))
names = set()
n = 0
for continuous in (True, False):
    for restriction in (None, "+", "-"):
        e = finat.RuntimeTabulated(I, 1, "x", 0, restriction, continuous=continuous)
        for a, t in e.basis_evaluation(1, ps).items():
            def nodes(x):
                yield x
                for c in x.children:
                    yield from nodes(c)
            names |= {v.name for v in nodes(t) if isinstance(v, gem.Variable)}
            n += 1
assert len(names) == n, (n, names)
'''),
]
