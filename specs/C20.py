"""Basis transformations computed entry by entry for a physical cell of unknown
geometry, and their degrees under scaling of that geometry: the Jacobian, the
edge lengths and the cell sizes have degree one, the determinant its own,
normals, tangents and everything of the reference cell degree zero. All
entries of one DoF must have one degree, and the specified one."""
from finat.alfeld_sorokina import AlfeldSorokina
from finat.argyris import Argyris
from finat.arnold_qin import ReducedArnoldQin
from finat.aw import ArnoldWinther, ArnoldWintherNC
from finat.bell import Bell
from finat.bernardi_raugel import BernardiRaugel, BernardiRaugelBubble
from finat.christiansen_hu import ChristiansenHu
from finat.guzman_neilan import GuzmanNeilanBubble, GuzmanNeilanFirstKindH1, GuzmanNeilanH1div, GuzmanNeilanSecondKindH1
from finat.hct import HsiehCloughTocher, ReducedHsiehCloughTocher
from finat.hermite import Hermite
from finat.hz import HuZhang
from finat.johnson_mercier import JohnsonMercier
from finat.morley import Morley
from finat.mtw import MardalTaiWinther
from finat.powell_sabin import QuadraticPowellSabin12, QuadraticPowellSabin6

from geometry import Geometry, Tetrahedron, Triangle
from layouts import bind_all

WEIGHTS = {"J": 1, "h": 1, "pel": 1, "rn": 0, "pn": 0, "pt": 0, "t": 0}


def obligation(e, degrees):
    """degrees: the expected degree of every DoF"""
    cm = Geometry(e.cell.get_spatial_dimension())
    return (lambda: scalings(e.basis_transformation(cm), WEIGHTS), lambda: [(d,) for d in degrees])


def at(n, special):
    """degree zero but for the listed DoFs"""
    return [special[i] if i in special else 0 for i in range(n)]


def case_scalar():
    bind_all()
    cell, tet = Triangle(), Tetrahedron()
    return {
        "Argyris": obligation(Argyris(cell, 5), at(21, {})),
        "Argyris, point": obligation(Argyris(cell, 5, variant="point"), at(21, {})),
        "Argyris, degree 6": obligation(Argyris(cell, 6), at(28, {})),
        "Argyris, averaged": obligation(Argyris(cell, 5, avg=True), at(21, {18: 1, 19: 1, 20: 1})),
        "Argyris, degree 6, averaged": obligation(Argyris(cell, 6, avg=True), at(28, {18: 1, 19: 1, 21: 1, 22: 1, 24: 1, 25: 1})),
        "Bell": obligation(Bell(cell), at(18, {})),
        "HCT": obligation(HsiehCloughTocher(cell, 3), at(12, {})),
        "HCT, degree 4": obligation(HsiehCloughTocher(cell, 4), at(19, {})),
        "HCT, averaged": obligation(HsiehCloughTocher(cell, 3, avg=True), at(12, {9: 1, 10: 1, 11: 1})),
        "reduced HCT": obligation(ReducedHsiehCloughTocher(cell), at(9, {})),
        "Hermite": obligation(Hermite(cell), at(10, {})),
        "Hermite, 3d": obligation(Hermite(tet), at(20, {})),
        "Morley": obligation(Morley(cell), at(6, {})),
        "PS6": obligation(QuadraticPowellSabin6(cell), at(9, {})),
        "PS12": obligation(QuadraticPowellSabin12(cell), at(12, {})),
        "PS12, averaged": obligation(QuadraticPowellSabin12(cell, avg=True), at(12, {9: 1, 10: 1, 11: 1})),
    }


def case_scalar_thorough():
    bind_all()
    cell = Triangle()
    return {
        "Argyris, degree 8": obligation(Argyris(cell, 8), at(18 + 21 + 6, {})),
        "HCT, degree 6": obligation(HsiehCloughTocher(cell, 6), at(9 + 21 + 6, {})),
    }


def case_tensor():
    bind_all()
    cell, tet = Triangle(), Tetrahedron()
    return {
        "MardalTaiWinther": obligation(MardalTaiWinther(cell, 3), at(9, {})),
        "ArnoldWintherNC": obligation(ArnoldWintherNC(cell, 2), at(15, {})),
        "ArnoldWinther": obligation(ArnoldWinther(cell, 3), at(24, {})),
        "JohnsonMercier": obligation(JohnsonMercier(cell, 1), at(15, {})),
        "JohnsonMercier, 3d": obligation(JohnsonMercier(tet, 1), [0, 1, 1]*12 + [0]*6),
        "HuZhang": obligation(HuZhang(cell, 3, "integral"), at(30, {})),
        "HuZhang, point": obligation(HuZhang(cell, 3, "point"), at(30, {i: 2 for i in range(21, 30)})),
        "HuZhang, degree 4": obligation(HuZhang(cell, 4, "integral"), at(45, {})),
    }


def case_piola():
    """components of vectors scale like the adjugate of the Jacobian, their
    divergence like its determinant, facet moments not at all"""
    bind_all()
    cell, tet = Triangle(), Tetrahedron()
    return {
        "AlfeldSorokina": obligation(AlfeldSorokina(cell, 2), [2, 1, 1] * 3 + [1] * 6),
        "AlfeldSorokina, 3d": obligation(AlfeldSorokina(tet, 2), [3, 2, 2, 2] * 4 + [2] * 18),
        "BernardiRaugel": obligation(BernardiRaugel(cell), [1] * 6 + [0] * 3),
        "BernardiRaugel, 3d": obligation(BernardiRaugel(tet), [2] * 12 + [0] * 4),
        "BernardiRaugel, 3d, order 2": obligation(BernardiRaugel(tet, 2), [2] * 30 + [0] * 4),
        "BernardiRaugelBubble": obligation(BernardiRaugelBubble(cell), [0] * 3),
        "GuzmanNeilanFirstKindH1": obligation(GuzmanNeilanFirstKindH1(cell), [1] * 6 + [0] * 3),
        "GuzmanNeilanBubble": obligation(GuzmanNeilanBubble(tet), [0] * 4),
        "GuzmanNeilanSecondKindH1": obligation(GuzmanNeilanSecondKindH1(cell), [1] * 8 + [0] * 3),
        "GuzmanNeilanH1div": obligation(GuzmanNeilanH1div(cell), [2] * 3 + [1] * 6 + [0] * 3),
        "GuzmanNeilanH1div, 3d": obligation(GuzmanNeilanH1div(tet), [3, 2, 2, 2] * 4 + [2] * 18 + [0] * 4),
        "ReducedArnoldQin": obligation(ReducedArnoldQin(cell), [1] * 6 + [0] * 3),
        "ChristiansenHu": obligation(ChristiansenHu(cell), [1] * 6 + [0] * 3),
    }
