"""The DoF layouts of the FIAT elements behind the physically mapped elements."""
import FIAT

from geometry import Layout


def blocks(entities, n, start=0, step=None):
    """n consecutive DoFs for each entity"""
    step = n if step is None else step
    return {e: list(range(start + step*e, start + step*e + n)) for e in range(entities)}


def facets(k, n, start):
    """the normal functions of all k facets first, then the tangential ones"""
    return {f: [start + f + k*i for i in range(n)] for f in range(k)}


def none(k):
    return {e: [] for e in range(k)}


def argyris(cell, degree, variant=None):
    k = degree - 5
    edge = 2*k + 1
    inner = (k*(k + 1))//2
    n = 18 + 3*edge
    return Layout(cell, {0: blocks(3, 6), 1: blocks(3, edge, 18), 2: {0: list(range(n, n + inner))}}, n + inner, degree)


def bell(cell):
    return Layout(cell, {0: blocks(3, 6), 1: blocks(3, 1, 18), 2: {0: []}}, 21, 5)


def hct(cell, degree=3, reduced=False):
    if reduced:
        degree = 3
    k = degree - 3
    edge = 2*k + 1
    inner = (k*(k + 1))//2
    n = 9 + 3*edge
    return Layout(cell, {0: blocks(3, 3), 1: blocks(3, edge, 9), 2: {0: list(range(n, n + inner))}}, n + inner, degree)


def hermite(cell):
    if cell.get_dimension() == 2:
        return Layout(cell, {0: blocks(3, 3), 1: none(3), 2: {0: [9]}}, 10, 3)
    return Layout(cell, {0: blocks(4, 4), 1: none(6), 2: blocks(4, 1, 16), 3: {0: []}}, 20, 3)


def morley(cell):
    return Layout(cell, {0: blocks(3, 1), 1: blocks(3, 1, 3), 2: {0: []}}, 6, 2)


def ps6(cell):
    return Layout(cell, {0: blocks(3, 3), 1: none(3), 2: {0: []}}, 9, 2)


def ps12(cell):
    return Layout(cell, {0: blocks(3, 3), 1: blocks(3, 1, 9), 2: {0: []}}, 12, 2)


def mtw(cell, degree=3):
    return Layout(cell, {0: none(3), 1: {0: [0, 1, 2, 9, 10], 1: [3, 4, 5, 11, 12], 2: [6, 7, 8, 13, 14]}, 2: {0: [15, 16, 17, 18, 19]}},
                  20, 3, "contravariant piola")


def awnc(cell, degree=2):
    return Layout(cell, {0: none(3), 1: {0: [0, 1, 2, 3, 15], 1: [4, 5, 6, 7, 16], 2: [8, 9, 10, 11, 17]}, 2: {0: [12, 13, 14]}},
                  18, 2, "double contravariant piola")


def aw(cell, degree=3):
    return Layout(cell, {0: blocks(3, 3), 1: blocks(3, 4, 9), 2: {0: list(range(17, 30))}}, 30, 4, "double contravariant piola")


def johnson_mercier(cell, degree=1, variant=None):
    if cell.get_dimension() == 2:
        return Layout(cell, {0: none(3), 1: blocks(3, 4), 2: {0: [12, 13, 14]}}, 15, 1, "double contravariant piola")
    return Layout(cell, {0: none(4), 1: none(6), 2: blocks(4, 9), 3: {0: list(range(36, 42))}}, 42, 1, "double contravariant piola")


def hu_zhang(cell, degree=3, variant=None):
    edge = 2*(degree - 1)
    n = 9 + 3*edge
    total = (3*(degree + 1)*(degree + 2))//2
    return Layout(cell, {0: blocks(3, 3), 1: blocks(3, edge, 9), 2: {0: list(range(n, total))}}, total, degree, "double contravariant piola")


def alfeld_sorokina(cell, degree=2):
    if cell.get_dimension() == 2:
        return Layout(cell, {0: blocks(3, 3), 1: blocks(3, 2, 9), 2: {0: []}}, 15, 2, "contravariant piola", (0, 3, 6))
    return Layout(cell, {0: blocks(4, 4), 1: blocks(6, 3, 16), 2: none(4), 3: {0: []}}, 34, 2, "contravariant piola", (0, 4, 8, 12))


def bubbles(cell, order=1, *args, **kwargs):
    """facet bubbles enriching nothing, or vertex values"""
    if cell.get_dimension() == 2:
        if order == 0:
            return Layout(cell, {0: none(3), 1: facets(3, 2, 0), 2: {0: []}}, 6, 2, "contravariant piola")
        return Layout(cell, {0: blocks(3, 2), 1: facets(3, 2, 6), 2: {0: []}}, 12, 2, "contravariant piola")
    if order == 0:
        return Layout(cell, {0: none(4), 1: none(6), 2: facets(4, 3, 0), 3: {0: []}}, 12, 3, "contravariant piola")
    if order == 1:
        return Layout(cell, {0: blocks(4, 3), 1: none(6), 2: facets(4, 3, 12), 3: {0: []}}, 24, 3, "contravariant piola")
    return Layout(cell, {0: blocks(4, 3), 1: blocks(6, 3, 12), 2: facets(4, 3, 30), 3: {0: []}}, 42, 3, "contravariant piola")


def second_kind(cell, order=1):
    return Layout(cell, {0: blocks(3, 2), 1: facets(3, 2, 8), 2: {0: [6, 7]}}, 14, 2, "contravariant piola")


def divergence(cell, degree=None):
    if cell.get_dimension() == 2:
        return Layout(cell, {0: {0: [0, 3, 4], 1: [1, 5, 6], 2: [2, 7, 8]}, 1: facets(3, 2, 9), 2: {0: []}}, 15, 2, "contravariant piola", (0, 1, 2))
    return Layout(cell, {0: blocks(4, 4), 1: blocks(6, 3, 16), 2: facets(4, 3, 34), 3: {0: []}}, 46, 3, "contravariant piola", (0, 4, 8, 12))


def polynomial_dimension(cell, degree):
    return degree + 1 if cell == "edge" else ((degree + 1)*(degree + 2))//2


def bind_all():
    bind(FIAT.Argyris, argyris)
    bind(FIAT.Bell, bell)
    bind(FIAT.HsiehCloughTocher, hct)
    bind(FIAT.CubicHermite, hermite)
    bind(FIAT.Morley, morley)
    bind(FIAT.QuadraticPowellSabin6, ps6)
    bind(FIAT.QuadraticPowellSabin12, ps12)
    bind(FIAT.MardalTaiWinther, mtw)
    bind(FIAT.ArnoldWintherNC, awnc)
    bind(FIAT.ArnoldWinther, aw)
    bind(FIAT.JohnsonMercier, johnson_mercier)
    bind(FIAT.HuZhang, hu_zhang)
    bind(FIAT.AlfeldSorokina, alfeld_sorokina)
    bind(FIAT.BernardiRaugel, bubbles)
    bind(FIAT.GuzmanNeilanFirstKindH1, bubbles)
    bind(FIAT.ArnoldQin, lambda cell, degree=2, reduced=False: bubbles(cell))
    bind(FIAT.ChristiansenHu, lambda cell, degree=1: bubbles(cell))
    bind(FIAT.GuzmanNeilanSecondKindH1, second_kind)
    bind(FIAT.GuzmanNeilanH1div, divergence)
    bind(FIAT.expansions.polynomial_dimension, polynomial_dimension)
