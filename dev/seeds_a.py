SEEDS = [
 dict(id="tp_entity_order", property="C01", needs="tabulation on a facet entity of a product cell whose factors have different numbers of entities in that dimension (triangle x interval), with the entity given by number",
  breaks="the product entity number is split column-major, so factors are tabulated on the wrong facets",
  edits=[("finat/tensor_product.py", "entities = list(zip(entity_dim, numpy.unravel_index(entity_id, shape)))", "entities = list(zip(entity_dim, numpy.unravel_index(entity_id, shape, order=\"F\")))")],
  demo='''
import FIAT, gem, finat, numpy as np
from finat.point_set import PointSet, TensorPointSet
from gem.interpreter import evaluate
T, I = FIAT.ufc_simplex(2), FIAT.ufc_simplex(1)
a, b = finat.Lagrange(T, 1), finat.Lagrange(I, 1)
e = finat.TensorProductElement([a, b])
p = PointSet([[0.25], [0.75]])
q = PointSet([[]])
for n in range(6):
    r = e.basis_evaluation(0, TensorPointSet([p, q]), ((1, 0), n))[(0, 0, 0)]
    i, j = divmod(n, 2)
    ra = a.basis_evaluation(0, p, (1, i))[(0, 0)]
    rb = b.basis_evaluation(0, q, (0, j))[(0,)]
    def arr(x, ps):
        ix = e.get_indices() if x is r else tuple(gem.Index(extent=s) for s in x.shape)
        fi = tuple(k for k in x.free_indices)
        y = gem.ComponentTensor(gem.Indexed(x, ix), fi + ix) if fi else gem.ComponentTensor(gem.Indexed(x, ix), ix)
        return evaluate([y])[0].arr
    R, A, B = arr(r, None), arr(ra, p), arr(rb, q)
    A = A.reshape(2, 3)
    B = B.reshape(2)
    R = R.reshape(2, 3, 2)
    assert np.allclose(R, np.einsum("pi,j->pij", A, B)), n
'''),
 dict(id="tp_perm_sort", property="C02", needs="a product of three or more different factors with entities of mixed dimension, where the last factor has more entities than the first",
  breaks="entity numbers of the orientation permutation table are assigned with the last factor varying slowest",
  edits=[("finat/tensor_product.py", "dict(enumerate(v for k, v in sorted(dim_permutations)))", "dict(enumerate(v for k, v in sorted(dim_permutations, key=lambda kv: kv[0][::-1])))")],
  demo='''
import FIAT, finat
T, I = FIAT.ufc_simplex(2), FIAT.ufc_simplex(1)
a, b = finat.Lagrange(I, 3), finat.DiscontinuousLagrange(I, 2)
e = finat.TensorProductElement([a, finat.TensorProductElement([a, b])]) if 0 else finat.TensorProductElement([finat.GaussLobattoLegendre(I, 3), finat.Lagrange(T, 3)])
dofs = e.entity_dofs()
perms = e.entity_permutations
for dim in dofs:
    for n in dofs[dim]:
        for o, p in perms[dim][n].items():
            assert len(p) == len(dofs[dim][n]), (dim, n)
# asymmetric: distinct permutations per entity
class Tagged:
    def __init__(self, cell, tag):
        self.cell = cell
        self.entity_permutations = {d: {i: {0: list(range(tag + i + 1))} for i in ents} for d, ents in cell.get_topology().items()}
from finat.tensor_product import compose_permutations
r = compose_permutations([Tagged(I, 0), Tagged(T, 0)])
assert [len(v[(0, 0, 0)]) for k, v in sorted(r[(0, 0)].items())] == [i * j for i in (1, 2) for j in (1, 2, 3)]
'''),
 dict(id="tfe_dual_transposed", property="C03", needs="dual basis of a transposed tensor element over a vector-valued base element (both shapes non-trivial, so the order of value axes is visible)",
  breaks="the dual weights of a transposed element keep the component axis after the base DoFs while tables use the transposed order",
  edits=[("finat/tensorfiniteelement.py", '''        if self._transpose:
            index_ordering = tensor_i + scalar_i + tensor_vi + scalar_vi
        else:
            index_ordering = scalar_i + tensor_i + tensor_vi + scalar_vi

        Qi = Q''', '''        if self._transpose and not scalar_vi:
            index_ordering = tensor_i + scalar_i + tensor_vi + scalar_vi
        else:
            index_ordering = scalar_i + tensor_i + tensor_vi + scalar_vi

        Qi = Q''')],
  demo='''
import FIAT, finat
T = FIAT.ufc_simplex(2)
e = finat.TensorFiniteElement(finat.RaviartThomas(T, 1), (2,), transpose=True)
Q, x = e.dual_basis
assert Q.shape == e.index_shape + e.value_shape, Q.shape
'''),
 dict(id="disc_perms", property="C08", needs="a discontinuous wrapper on a cell whose interior dimension differs from the number of spatial dimensions (product cells)",
  breaks="the form degree of a discontinuous element follows the wrapped element instead of being the top form",
  edits=[("finat/discontinuous.py", "return self.element.cell.get_spatial_dimension()", "return self.element.formdegree if len(self.element.value_shape) else self.element.cell.get_spatial_dimension()")],
  demo='''
import FIAT, finat
T = FIAT.ufc_simplex(2)
assert finat.DiscontinuousElement(finat.Lagrange(T, 1)).formdegree == 2
assert finat.DiscontinuousElement(finat.RaviartThomas(T, 1)).formdegree == 2
'''),
]
