"""Elements whose FIAT element carries extra functions, and the closures of
their entities: the space dimension, the index shape, the rows of the basis
transformation (hence of the tables) and the DoFs listed in the entity map are
the same number, and closures list the element's own DoFs."""
import FIAT
import gem

from finat.alfeld_sorokina import AlfeldSorokina
from finat.argyris import Argyris
from finat.arnold_qin import ArnoldQin, ReducedArnoldQin
from finat.aw import ArnoldWinther, ArnoldWintherNC
from finat.bell import Bell
from finat.bernardi_raugel import BernardiRaugel, BernardiRaugelBubble
from finat.christiansen_hu import ChristiansenHu
from finat.cube import FlattenedDimensions
from finat.enriched import EnrichedElement
from finat.fiat_elements import FiatElement, ScalarFiatElement
from finat.guzman_neilan import GuzmanNeilanBubble, GuzmanNeilanFirstKindH1, GuzmanNeilanH1div, GuzmanNeilanSecondKindH1
from finat.hct import HsiehCloughTocher, ReducedHsiehCloughTocher
from finat.hermite import Hermite
from finat.hz import HuZhang
from finat.johnson_mercier import JohnsonMercier
from finat.mixed import MixedElement
from finat.morley import Morley
from finat.mtw import MardalTaiWinther
from finat.piola_mapped import PiolaBubbleElement
from finat.powell_sabin import QuadraticPowellSabin12, QuadraticPowellSabin6
from finat.tensor_product import TensorProductElement
from finat.tensorfiniteelement import TensorFiniteElement

from geometry import Geometry, Layout, Tetrahedron, Triangle

NONE3 = {0: [], 1: [], 2: []}
NONE4 = {0: [], 1: [], 2: [], 3: []}
NONE6 = {0: [], 1: [], 2: [], 3: [], 4: [], 5: []}


def blocks(entities, n, start=0, step=None):
    """n consecutive DoFs for each entity"""
    step = n if step is None else step
    return {e: list(range(start + step*e, start + step*e + n)) for e in range(entities)}


def closure(cell, dofs):
    return {dim: {e: sorted([i for d, k in subs for i in dofs[d][k]]) for e, subs in ents.items()} for dim, ents in cell.sub_entities.items()}


def counts(e, dofs, dim):
    cell = e.cell
    cm = Geometry(cell.get_spatial_dimension())
    return {
        "entity dofs": (lambda: e.entity_dofs(), lambda: dofs),
        "closure": (lambda: e.entity_closure_dofs(), lambda: closure(cell, dofs)),
        "space dimension": (lambda: e.space_dimension(), lambda: dim),
        "index shape": (lambda: e.index_shape, lambda: (dim,)),
        "indices": (lambda: [i.extent for i in e.get_indices()], lambda: [dim]),
        "transformation": (lambda: e.basis_transformation(cm).shape, lambda: (dim, e.fiat_equivalent.space_dimension())),
    }


def case_bell():
    cell = Triangle()
    bind(FIAT.Bell, lambda cell: Layout(cell, {0: blocks(3, 6), 1: blocks(3, 1, 18), 2: {0: []}}, 21, 5))
    return counts(Bell(cell), {0: blocks(3, 6), 1: NONE3, 2: {0: []}}, 18)


def case_hct():
    cell = Triangle()
    bind(FIAT.HsiehCloughTocher, lambda cell, *a, **k: Layout(cell, {0: blocks(3, 3), 1: blocks(3, 1, 9), 2: {0: []}}, 12, 3))
    return counts(HsiehCloughTocher(cell, 3), {0: blocks(3, 3), 1: blocks(3, 1, 9), 2: {0: []}}, 12)


def case_hct_degree_4():
    cell = Triangle()
    bind(FIAT.HsiehCloughTocher, lambda cell, *a, **k: Layout(cell, {0: blocks(3, 3), 1: blocks(3, 3, 9), 2: {0: [18]}}, 19, 4))
    return counts(HsiehCloughTocher(cell, 4), {0: blocks(3, 3), 1: blocks(3, 3, 9), 2: {0: [18]}}, 19)


def case_reduced_hct():
    cell = Triangle()
    bind(FIAT.HsiehCloughTocher, lambda cell, *a, **k: Layout(cell, {0: blocks(3, 3), 1: blocks(3, 1, 9), 2: {0: []}}, 12, 3))
    return counts(ReducedHsiehCloughTocher(cell, 3), {0: blocks(3, 3), 1: NONE3, 2: {0: []}}, 9)


def case_mtw():
    cell = Triangle()
    bind(FIAT.MardalTaiWinther, lambda cell, *a, **k: Layout(
        cell, {0: NONE3, 1: {0: [0, 1, 2, 9, 10], 1: [3, 4, 5, 11, 12], 2: [6, 7, 8, 13, 14]}, 2: {0: [15, 16, 17, 18, 19]}}, 20, 3, "contravariant piola"))
    return counts(MardalTaiWinther(cell, 3), {0: NONE3, 1: blocks(3, 3), 2: {0: []}}, 9)


def case_awnc():
    cell = Triangle()
    bind(FIAT.ArnoldWintherNC, lambda cell, *a, **k: Layout(
        cell, {0: NONE3, 1: {0: [0, 1, 2, 3, 15], 1: [4, 5, 6, 7, 16], 2: [8, 9, 10, 11, 17]}, 2: {0: [12, 13, 14]}}, 18, 2, "double contravariant piola"))
    bind(FIAT.expansions.polynomial_dimension, lambda cell, degree: degree + 1)
    return counts(ArnoldWintherNC(cell, 2), {0: NONE3, 1: blocks(3, 4), 2: {0: [12, 13, 14]}}, 15)


def case_aw():
    cell = Triangle()
    bind(FIAT.ArnoldWinther, lambda cell, *a, **k: Layout(
        cell, {0: blocks(3, 3), 1: blocks(3, 4, 9), 2: {0: list(range(17, 30))}}, 30, 4, "double contravariant piola"))
    bind(FIAT.expansions.polynomial_dimension, lambda cell, degree: degree + 1)
    return counts(ArnoldWinther(cell, 3), {0: blocks(3, 3), 1: blocks(3, 4, 9), 2: {0: [21, 22, 23]}}, 24)


def facets(k, n, start, first=0):
    """FIAT numbers the normal functions of all k facets first, then the tangential ones"""
    return {f: [start + f + k*i for i in range(n)] for f in range(k)}


def case_bubbles_2d():
    """Bernardi-Raugel, Guzman-Neilan, Arnold-Qin and Christiansen-Hu on triangles"""
    cell = Triangle()
    p1 = lambda cell, *a, **k: Layout(cell, {0: blocks(3, 2), 1: facets(3, 2, 6), 2: {0: []}}, 12, 2, "contravariant piola")
    p0 = lambda cell, order=None: Layout(cell, {0: NONE3, 1: facets(3, 2, 0), 2: {0: []}}, 6, 2, "contravariant piola") if order == 0 else p1(cell)
    bind(FIAT.BernardiRaugel, p0)
    bind(FIAT.GuzmanNeilanFirstKindH1, p0)
    bind(FIAT.ArnoldQin, p1)
    bind(FIAT.ChristiansenHu, p1)
    res = {}
    for name, e in (("BernardiRaugel", BernardiRaugel(cell)), ("GuzmanNeilan", GuzmanNeilanFirstKindH1(cell)),
                    ("ReducedArnoldQin", ReducedArnoldQin(cell)), ("ChristiansenHu", ChristiansenHu(cell))):
        for k, v in counts(e, {0: blocks(3, 2), 1: blocks(3, 1, 6), 2: {0: []}}, 9).items():
            res[name + " " + k] = v
    for name, e in (("BernardiRaugelBubble", BernardiRaugelBubble(cell)), ("GuzmanNeilanBubble", GuzmanNeilanBubble(cell))):
        for k, v in counts(e, {0: NONE3, 1: blocks(3, 1), 2: {0: []}}, 3).items():
            res[name + " " + k] = v
    return res


def case_interior_2d():
    """facet bubbles numbered after interior functions"""
    cell = Triangle()
    bind(FIAT.GuzmanNeilanSecondKindH1, lambda cell, *a, **k: Layout(
        cell, {0: blocks(3, 2), 1: facets(3, 2, 8), 2: {0: [6, 7]}}, 14, 2, "contravariant piola"))
    return counts(GuzmanNeilanSecondKindH1(cell), {0: blocks(3, 2), 1: blocks(3, 1, 8), 2: {0: [6, 7]}}, 11)


def case_divergence_2d():
    """divergence DoFs at the vertices"""
    cell = Triangle()
    dofs = {0: {0: [0, 3, 4], 1: [1, 5, 6], 2: [2, 7, 8]}, 1: facets(3, 2, 9), 2: {0: []}}
    bind(FIAT.GuzmanNeilanH1div, lambda cell, *a, **k: Layout(cell, dofs, 15, 2, "contravariant piola", (0, 1, 2)))
    return counts(GuzmanNeilanH1div(cell), {0: dofs[0], 1: blocks(3, 1, 9), 2: {0: []}}, 12)


def case_bubbles_3d():
    cell = Tetrahedron()
    bind(FIAT.BernardiRaugel, lambda cell, order=None: Layout(
        cell, {0: blocks(4, 3), 1: blocks(6, 3, 12), 2: facets(4, 3, 30), 3: {0: []}}, 42, 3, "contravariant piola"))
    return counts(BernardiRaugel(cell, 2), {0: blocks(4, 3), 1: blocks(6, 3, 12), 2: blocks(4, 1, 30), 3: {0: []}}, 34)


def case_divergence_3d():
    cell = Tetrahedron()
    bind(FIAT.GuzmanNeilanH1div, lambda cell, *a, **k: Layout(
        cell, {0: blocks(4, 4), 1: blocks(6, 3, 16), 2: facets(4, 3, 34), 3: {0: []}}, 46, 3, "contravariant piola", (0, 4, 8, 12)))
    return counts(GuzmanNeilanH1div(cell), {0: blocks(4, 4), 1: blocks(6, 3, 16), 2: blocks(4, 1, 34), 3: {0: []}}, 38)


def case_not_piola():
    cell = Triangle()
    f = Layout(cell, {0: blocks(3, 2), 1: facets(3, 2, 6), 2: {0: []}}, 12, 2, "affine")
    return {"refused": (lambda: PiolaBubbleElement(f), lambda: raises("ValueError"))}


def case_unreduced():
    """elements with as many functions as FIAT's"""
    tri, tet = Triangle(), Tetrahedron()
    argyris = lambda cell, degree, variant: (
        Layout(cell, {0: blocks(3, 6), 1: blocks(3, 1, 18), 2: {0: []}}, 21, 5) if degree == 5 else
        Layout(cell, {0: blocks(3, 6), 1: blocks(3, 3, 18), 2: {0: [27]}}, 28, 6))
    bind(FIAT.Argyris, argyris)
    bind(FIAT.CubicHermite, lambda cell: Layout(cell, {0: blocks(3, 3), 1: NONE3, 2: {0: [9]}}, 10, 3) if cell.get_dimension() == 2 else
         Layout(cell, {0: blocks(4, 4), 1: NONE6, 2: blocks(4, 1, 16), 3: {0: []}}, 20, 3))
    bind(FIAT.Morley, lambda cell: Layout(cell, {0: blocks(3, 1), 1: blocks(3, 1, 3), 2: {0: []}}, 6, 2))
    bind(FIAT.QuadraticPowellSabin6, lambda cell: Layout(cell, {0: blocks(3, 3), 1: NONE3, 2: {0: []}}, 9, 2))
    bind(FIAT.QuadraticPowellSabin12, lambda cell: Layout(cell, {0: blocks(3, 3), 1: blocks(3, 1, 9), 2: {0: []}}, 12, 2))
    bind(FIAT.AlfeldSorokina, lambda cell, *a: Layout(cell, {0: blocks(3, 3), 1: blocks(3, 2, 9), 2: {0: []}}, 15, 2, "contravariant piola", (0, 3, 6)))
    bind(FIAT.JohnsonMercier, lambda cell, *a, **k: Layout(cell, {0: NONE3, 1: blocks(3, 4), 2: {0: [12, 13, 14]}}, 15, 1, "double contravariant piola"))
    bind(FIAT.HuZhang, lambda cell, *a, **k: Layout(cell, {0: blocks(3, 3), 1: blocks(3, 4, 9), 2: {0: list(range(21, 30))}}, 30, 3, "double contravariant piola"))
    bind(FIAT.expansions.polynomial_dimension, lambda cell, degree: degree + 1)
    res = {}
    for name, e, n in (("Argyris", Argyris(tri, 5), 21), ("Argyris point", Argyris(tri, 5, variant="point"), 21), ("Argyris 6", Argyris(tri, 6), 28),
                       ("Hermite", Hermite(tri), 10), ("Hermite 3d", Hermite(tet), 20), ("Morley", Morley(tri), 6),
                       ("PS6", QuadraticPowellSabin6(tri), 9), ("PS12", QuadraticPowellSabin12(tri), 12), ("AlfeldSorokina", AlfeldSorokina(tri), 15),
                       ("JohnsonMercier", JohnsonMercier(tri), 15), ("HuZhang", HuZhang(tri, 3), 30), ("HuZhang point", HuZhang(tri, 3, "point"), 30)):
        for k, v in counts(e, e.fiat_equivalent.entity_dofs(), n).items():
            res[name + " " + k] = v
    return res


def case_wrappers():
    """sums, mixtures and tensor-valued elements of elements with a reduced map"""
    cell = Triangle()
    bind(FIAT.Bell, lambda cell: Layout(cell, {0: blocks(3, 6), 1: blocks(3, 1, 18), 2: {0: []}}, 21, 5))
    b = Bell(cell)
    f = ScalarFiatElement(Layout(cell, {0: blocks(3, 1), 1: blocks(3, 1, 3), 2: {0: []}}, 6, 2))
    res = {}
    dofs = {0: {v: list(range(6*v, 6*v+6)) + [18 + v] for v in range(3)}, 1: {k: [21 + k] for k in range(3)}, 2: {0: []}}
    for name, e, d, shape in (("sum", EnrichedElement([b, f]), dofs, (24,)), ("mixture", MixedElement([b, f]), dofs, (24,)),
                       ("vector", TensorFiniteElement(f, (2,)), {0: blocks(3, 2), 1: blocks(3, 2, 6), 2: {0: []}}, (6, 2)),
                       ("vector, transposed", TensorFiniteElement(f, (2,), transpose=True),
                        {0: {v: [v, v+6] for v in range(3)}, 1: {k: [k+3, k+9] for k in range(3)}, 2: {0: []}}, (2, 6))):
        res[name + ": entity dofs"] = (lambda e=e: e.entity_dofs(), lambda d=d: d)
        res[name + ": closure"] = (lambda e=e: e.entity_closure_dofs(), lambda d=d: closure(cell, d))
        res[name + ": dimension"] = (lambda e=e: e.space_dimension(), lambda shape=shape: shape[0] if len(shape) == 1 else shape[0] * shape[1])
        res[name + ": index shape"] = (lambda e=e: e.index_shape, lambda shape=shape: shape)
    return res


def case_closure_3d():
    cell = Tetrahedron()
    e = FiatElement(Layout(cell, {0: blocks(4, 2), 1: blocks(6, 1, 8), 2: blocks(4, 3, 14), 3: {0: [26, 27]}}, 28, 3))
    return {"closure": (lambda: e.entity_closure_dofs(), lambda: closure(cell, e.entity_dofs())),
            "cached": (lambda: [e.entity_closure_dofs(), e.entity_closure_dofs()], lambda: [closure(cell, e.entity_dofs())] * 2)}
