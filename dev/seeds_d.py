CELLS = '''
import FIAT, gem, finat, finat.ufl, numpy as np, ufl
from FIAT.reference_element import TensorProductCell
from finat.point_set import *
from gem.interpreter import evaluate
I, T, K = FIAT.ufc_simplex(1), FIAT.ufc_simplex(2), FIAT.ufc_simplex(3)
def raises(exc, f):
    try:
        f()
    except exc:
        return True
    return False
def ev(x):
    return evaluate([x])[0].arr
'''
SEEDS = [
 dict(id="scheme_forgotten", property="C35", needs="two rules for one cell and degree, the second with another scheme",
  breaks="quadrature rules are kept under cell and degree only, so a later request with another scheme gets the first scheme's points",
  edits=[("finat/quadrature.py", "    fiat_rule = fiat_scheme(ref_el, degree, scheme)\n", "    key = (ref_el, degree)\n    if key not in _schemes:\n        _schemes[key] = fiat_scheme(ref_el, degree, scheme)\n    fiat_rule = _schemes[key]\n"),
         ("finat/quadrature.py", "def make_quadrature(", "_schemes = {}\n\n\ndef make_quadrature(")],
  demo=CELLS + """
from finat.quadrature import make_quadrature
a = make_quadrature(T, 2, "default").point_set.points
b = make_quadrature(T, 2, "KMV").point_set.points
from FIAT.quadrature_schemes import create_quadrature
assert np.allclose(a, create_quadrature(T, 2, "default").get_points())
r = create_quadrature(T, 2, "KMV").get_points()
assert b.shape == np.shape(r) and np.allclose(b, r), (b, r)
"""),
 dict(id="transformation_kept", property="C35", needs="one physically mapped element tabulated on two different physical cells",
  breaks="the basis transformation of the first physical cell is used for every later one",
  edits=[("finat/physically_mapped.py", "        M = self.basis_transformation(coordinate_mapping)\n", "        if not hasattr(self, '_transformation'):\n            self._transformation = self.basis_transformation(coordinate_mapping)\n        M = self._transformation\n")],
  demo=CELLS + """
class Map:
    def __init__(self, s):
        self.s = s
    def cell_size(self):
        return gem.Literal(np.ones(3))
    def jacobian_at(self, p):
        return gem.Literal(self.s*np.eye(2))
e = finat.Hermite(T, 3)
def table(e, s):
    return ev(e.basis_evaluation(0, PointSingleton([0.2, 0.3]), coordinate_mapping=Map(s))[(0, 0)])
first = table(e, 1.0)
assert np.allclose(table(e, 2.0), table(finat.Hermite(T, 3), 2.0))
assert np.allclose(table(e, 1.0), first)
"""),
 dict(id="first_part_extended", property="C35", needs="the DoF table of an enriched element is asked for and then that of its first part, or the same again",
  breaks="the DoF table of the first part of a sum is extended in place, so the part, and every other element made of it, gets the sum's DoFs",
  edits=[("finat/enriched.py", "    for i, d in enumerate(map(method, elements)):\n        for dim", "    entity_dofs.update(method(elements[0]))\n    for i, d in enumerate(map(method, elements)):\n        if i == 0:\n            continue\n        for dim")],
  demo=CELLS + """
p = finat.Lagrange(T, 2)
b = finat.Bubble(T, 3)
before = {d: {k: list(v) for k, v in x.items()} for d, x in p.entity_dofs().items()}
e = finat.EnrichedElement([p, b])
first = {d: {k: list(v) for k, v in x.items()} for d, x in e.entity_dofs().items()}
assert first[2][0] == [6], first
assert p.entity_dofs() == before, p.entity_dofs()
"""),
 dict(id="tables_kept_by_entity", property="C35", needs="one element tabulated at two point sets with the same number of points on the same entity",
  breaks="tables are kept under order, number of points and entity, so other points of the same number get the first points' values",
  edits=[("finat/fiat_elements.py", "        fiat_result = self._element.tabulate(order, ps.points, entity)\n", "        tables = self.__dict__.setdefault('_tables', {})\n        key = (order, len(ps.points), entity)\n        if key not in tables:\n            tables[key] = self._element.tabulate(order, ps.points, entity)\n        fiat_result = tables[key]\n")],
  demo=CELLS + """
e = finat.Lagrange(T, 2)
for x in ([0.25, 0.25], [0.5, 0.125]):
    t = ev(e.basis_evaluation(0, PointSingleton(x))[(0, 0)])
    assert np.allclose(t, FIAT.Lagrange(T, 2).tabulate(0, [x])[(0, 0)][:, 0]), x
"""),
 dict(id="cell_of_first_product", property="C35", needs="two tensor-product elements with factors of the same dimensions on different cells made one after the other",
  breaks="product cells are kept under the dimensions of their factors, so products of other cells of the same dimensions get the first cell",
  edits=[("finat/tensor_product.py", "        return TensorProductCell(*[fe.cell for fe in self.factors])\n", "        key = tuple(fe.cell.get_spatial_dimension() for fe in self.factors)\n        if key not in self._cells:\n            self._cells[key] = TensorProductCell(*[fe.cell for fe in self.factors])\n        return self._cells[key]\n"),
         ("finat/tensor_product.py", "class TensorProductElement(FiniteElementBase):\n", "class TensorProductElement(FiniteElementBase):\n    _cells = {}\n")],
  demo=CELLS + """
S = FIAT.reference_element.default_simplex(1)
a = finat.TensorProductElement([finat.Lagrange(I, 1), finat.Lagrange(I, 1)])
b = finat.TensorProductElement([finat.Lagrange(S, 1), finat.Lagrange(I, 1)])
assert a.cell == TensorProductCell(I, I)
assert b.cell.cells == (S, I) and b.cell.cells[0].get_vertices() == S.get_vertices(), b.cell.cells[0].get_vertices()
"""),
]
