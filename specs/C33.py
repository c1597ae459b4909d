"""The basis transformations are the ones implied by the degrees of freedom.
A row of V expresses one reference DoF of the pulled-back function by the DoFs
of the function on the physical cell: derivatives at vertices by the chain
rule, normal and tangential moments by splitting the transformed direction,
moments of tangential derivatives by the end points of the edge. The matrix is
its transpose. Every entry is compared, for unknown geometry."""
from finat.alfeld_sorokina import AlfeldSorokina
from finat.argyris import Argyris
from finat.arnold_qin import ReducedArnoldQin
from finat.aw import ArnoldWinther, ArnoldWintherNC
from finat.bell import Bell
from finat.bernardi_raugel import BernardiRaugel, BernardiRaugelBubble
from finat.christiansen_hu import ChristiansenHu
from finat.guzman_neilan import GuzmanNeilanBubble, GuzmanNeilanFirstKindH1, GuzmanNeilanH1div, GuzmanNeilanSecondKindH1
from finat.hct import HsiehCloughTocher, ReducedHsiehCloughTocher
from finat.hermite import Hermite
from finat.hz import HuZhang
from finat.johnson_mercier import JohnsonMercier
from finat.morley import Morley
from finat.mtw import MardalTaiWinther
from finat.piola_mapped import adjugate as adjugate_of, determinant
from finat.powell_sabin import QuadraticPowellSabin12, QuadraticPowellSabin6
from math import comb
import numpy

from geometry import Geometry, Tetrahedron, Triangle, matrix
from layouts import bind_all

EDGES = {0: (1, 2), 1: (0, 2), 2: (0, 1)}


def obligation(e, build, *args):
    """build(V, geometry, ...) fills in the rows of V that are not unit rows"""
    sd = e.cell.get_spatial_dimension()
    cm = Geometry(sd)
    m, n = e._element.space_dimension(), e.space_dimension()

    def expected():
        V = {}
        build(V, cm, *args)
        return [[V.get((i, j), 1 if i == j else 0) for i in range(m)] for j in range(n)]

    def found():
        M = e.basis_transformation(cm)
        return [[M[j, i] for i in range(M.shape[1])] for j in range(M.shape[0])]
    return (found, expected)


def jacobian(cm):
    J = cm.jacobian_at(None)
    return [[J[i, j] for j in range(cm.sd)] for i in range(cm.sd)]


def unscaled_jets(V, cm, order, offset):
    """the chain rule for gradients and Hessians at vertices"""
    J = jacobian(cm)
    sd = cm.sd
    pairs = [(i, j) for i in range(sd) for j in range(i, sd)]
    for v in range(sd + 1):
        s = v*offset + 1
        for i in range(sd):
            for k in range(sd):
                V[s + i, s + k] = J[k][i]
        if order == 2:
            s += sd
            for p, (i, j) in enumerate(pairs):
                for q, (k, l) in enumerate(pairs):
                    V[s + p, s + q] = J[k][i]*J[l][j] if k == l else J[k][i]*J[l][j] + J[l][i]*J[k][j]


def scale(V, cm, order, offset):
    """physical DoFs at vertices carry the cell size to the order of the derivative"""
    h = cm.cell_size()
    sd = cm.sd
    for row, col in list(V):
        v, k = col//offset, col % offset
        if v <= sd and k > 0:
            V[row, col] = V[row, col]/h[v] if k <= sd else V[row, col]/(h[v]*h[v])


def edge_geometry(cm, e):
    """coefficients of the physical normal and tangential derivative in the
    reference normal derivative, and the physical tangent"""
    J = jacobian(cm)
    t = Triangle().compute_edge_tangent(e)
    t0, t1 = t[0], t[1]
    g00 = J[0][0]*J[0][0] + J[1][0]*J[1][0]
    g01 = J[0][0]*J[0][1] + J[1][0]*J[1][1]
    g11 = J[0][1]*J[0][1] + J[1][1]*J[1][1]
    tGt = t0*t0*g00 + 2*t0*t1*g01 + t1*t1*g11
    nGt = t1*t0*g00 + (t1*t1 - t0*t0)*g01 - t0*t1*g11
    length = numpy.linalg.norm(t)
    return cm.detJ_at(None)*length/tGt, nGt/tGt/length, [J[0][0]*t0 + J[0][1]*t1, J[1][0]*t0 + J[1][1]*t1]


def end_points(V, cm, s, e, offset, coefficients):
    """a moment of the tangential derivative by the jets at both end points"""
    Bnn, Bnt, t = edge_geometry(cm, e)
    a, b = EDGES[e]
    value, gradient, hessian = coefficients
    V[s, a*offset] = -value*Bnt
    V[s, b*offset] = value*Bnt
    for i in range(2):
        V[s, a*offset + 1 + i] = gradient*Bnt*t[i]
        V[s, b*offset + 1 + i] = gradient*Bnt*t[i]
    if hessian is not None:
        for k, tt in enumerate([t[0]*t[0], 2*t[0]*t[1], t[1]*t[1]]):
            V[s, a*offset + 3 + k] = -hessian*Bnt*tt
            V[s, b*offset + 3 + k] = hessian*Bnt*tt
    return Bnn


def edge_moments(V, cm, order, degree, offset, averaged):
    """moments of the normal derivative against Jacobi polynomials; those of
    the tangential derivative are integrated by parts"""
    pel = cm.physical_edge_lengths()
    for e in range(3):
        s0 = 3*offset + e*(2*degree + 1)
        a, b = EDGES[e]
        Bnn, Bnt, t = edge_geometry(cm, e)
        for k in range(degree + 1):
            end = comb(k + order, k)
            V[s0 + k, s0 + k] = Bnn*pel[e] if averaged else Bnn
            V[s0 + k, b*offset] = end*Bnt
            V[s0 + k, a*offset] = -Bnt*end if k % 2 == 0 else Bnt*end
            if k > 0:
                V[s0 + k, s0 + degree + k] = -Bnt


def argyris(V, cm, degree, averaged):
    unscaled_jets(V, cm, 2, 6)
    edge_moments(V, cm, 2, degree - 5, 6, averaged)
    scale(V, cm, 2, 6)


def argyris_point(V, cm):
    """midpoint derivative of a quintic by the jets at its ends"""
    pel = cm.physical_edge_lengths()
    h = cm.cell_size()
    unscaled_jets(V, cm, 2, 6)
    for e in range(3):
        a, b = EDGES[e]
        Bnn = end_points(V, cm, 18 + e, e, 6, (15/8, -7/16, 1/32))
        V[18 + e, 18 + e] = 2*Bnn*pel[e]/(h[a] + h[b])
    scale(V, cm, 2, 6)


def bell(V, cm):
    """moment of the derivative of a quintic against the fourth Legendre polynomial"""
    unscaled_jets(V, cm, 2, 6)
    for e in range(3):
        end_points(V, cm, 18 + e, e, 6, (1/21, -1/42, 1/252))
    scale(V, cm, 2, 6)


def hct(V, cm, degree, averaged):
    unscaled_jets(V, cm, 1, 3)
    edge_moments(V, cm, 1, degree - 3, 3, averaged)
    scale(V, cm, 1, 3)


def reduced_hct(V, cm):
    """moment of the derivative of a cubic against the second Legendre polynomial"""
    unscaled_jets(V, cm, 1, 3)
    for e in range(3):
        end_points(V, cm, 9 + e, e, 3, (-1/5, 1/10, None))
    scale(V, cm, 1, 3)


def jets(V, cm):
    unscaled_jets(V, cm, 1, cm.sd + 1)
    scale(V, cm, 1, cm.sd + 1)


def morley(V, cm):
    J = jacobian(cm)
    rn, pn, pt = cm.reference_normals(), cm.physical_normals(), cm.physical_tangents()
    pel = cm.physical_edge_lengths()
    h = cm.cell_size()
    for e in range(3):
        a, b = EDGES[e]
        Jn = [J[0][0]*rn[e, 0] + J[0][1]*rn[e, 1], J[1][0]*rn[e, 0] + J[1][1]*rn[e, 1]]
        Bnn = Jn[0]*pn[e, 0] + Jn[1]*pn[e, 1]
        Bnt = Jn[0]*pt[e, 0] + Jn[1]*pt[e, 1]
        V[3 + e, 3 + e] = 2*Bnn/(h[a] + h[b])
        V[3 + e, a] = -Bnt/pel[e]
        V[3 + e, b] = Bnt/pel[e]


def case_scalar():
    bind_all()
    cell, tet = Triangle(), Tetrahedron()
    return {
        "Argyris": obligation(Argyris(cell, 5), argyris, 5, False),
        "Argyris, point": obligation(Argyris(cell, 5, variant="point"), argyris_point),
        "Argyris, degree 6": obligation(Argyris(cell, 6), argyris, 6, False),
        "Argyris, averaged": obligation(Argyris(cell, 5, avg=True), argyris, 5, True),
        "Argyris, degree 8, averaged": obligation(Argyris(cell, 8, avg=True), argyris, 8, True),
        "Bell": obligation(Bell(cell), bell),
        "HCT": obligation(HsiehCloughTocher(cell, 3), hct, 3, False),
        "HCT, degree 4": obligation(HsiehCloughTocher(cell, 4), hct, 4, False),
        "HCT, degree 6, averaged": obligation(HsiehCloughTocher(cell, 6, avg=True), hct, 6, True),
        "HCT, averaged": obligation(HsiehCloughTocher(cell, 3, avg=True), hct, 3, True),
        "reduced HCT": obligation(ReducedHsiehCloughTocher(cell), reduced_hct),
        "Hermite": obligation(Hermite(cell), jets),
        "Hermite, 3d": obligation(Hermite(tet), jets),
        "Morley": obligation(Morley(cell), morley),
        "PS6": obligation(QuadraticPowellSabin6(cell), jets),
        "PS12": obligation(QuadraticPowellSabin12(cell), hct, 3, False),
        "PS12, averaged": obligation(QuadraticPowellSabin12(cell, avg=True), hct, 3, True),
    }


class Curved(Geometry):
    """a cell that is not affine, known at its vertices"""

    def __init__(self, cell):
        super().__init__(cell.get_spatial_dimension())
        self.vertices = [tuple(v) for v in cell.get_vertices()]

    def jacobian_at(self, point):
        return matrix("J%d_" % self.vertices.index(tuple(point)), self.sd, self.sd)


def case_curved():
    """gradients at vertices transform by the Jacobian at that vertex"""
    bind_all()

    def at_vertices(e):
        cell = e.cell
        sd = cell.get_spatial_dimension()
        cm = Curved(cell)
        n = (sd + 1)*(sd + 1)

        def expected():
            h = cm.cell_size()
            V = {}
            for v, x in enumerate(cell.get_vertices()):
                J = cm.jacobian_at(x)
                for i in range(sd):
                    for j in range(sd):
                        V[v*(sd + 1) + 1 + i, v*(sd + 1) + 1 + j] = J[i, j]/h[v]
            return [[V.get((i, j), 1 if i == j else 0) for j in range(n)] for i in range(n)]

        def found():
            M = e.basis_transformation(cm)
            return [[M[i, j] for j in range(n)] for i in range(n)]
        return (found, expected)
    return {
        "Hermite": at_vertices(Hermite(Triangle())),
        "PS6": at_vertices(QuadraticPowellSabin6(Triangle())),
    }


def case_adjugate():
    a = [[sym("a%d%d" % (i, j), "num") for j in range(4)] for i in range(4)]

    def top(n):
        return numpy.array([[a[i][j] for j in range(n)] for i in range(n)])

    def det(rows, cols):
        if not rows:
            return 1
        return sum((-1)**k*a[rows[0]][cols[k]]*det(rows[1:], cols[:k] + cols[k + 1:]) for k in range(len(cols)))

    def adj(n):
        others = [[j for j in range(n) if j != i] for i in range(n)]
        return [[(-1)**(i + j)*det(others[j], others[i]) for j in range(n)] for i in range(n)]

    def rows(M, n):
        return [[M[i, j] for j in range(n)] for i in range(n)]
    r = {}
    for n in (1, 2, 3, 4):
        r["determinant, %d" % n] = (lambda n=n: determinant(top(n)), lambda n=n: det(list(range(n)), list(range(n))))
    for n in (2, 3):
        r["adjugate, %d" % n] = (lambda n=n: rows(adjugate_of(top(n)), n), lambda n=n: adj(n))
    return r


def case_scalar_thorough():
    bind_all()
    cell = Triangle()
    return {
        "Argyris, degree 9": obligation(Argyris(cell, 9), argyris, 9, False),
        "Argyris, degree 7": obligation(Argyris(cell, 7), argyris, 7, False),
        "HCT, degree 7": obligation(HsiehCloughTocher(cell, 7, avg=True), hct, 7, True),
    }


def adjugate(cm):
    """the matrix of the inverse Piola map of vectors"""
    J = jacobian(cm)
    if cm.sd == 2:
        return [[J[1][1], -J[0][1]], [-J[1][0], J[0][0]]]
    return [[J[(j + 1) % 3][(i + 1) % 3]*J[(j + 2) % 3][(i + 2) % 3] - J[(j + 1) % 3][(i + 2) % 3]*J[(j + 2) % 3][(i + 1) % 3]
             for j in range(3)] for i in range(3)]


def vector_at(V, cm, s):
    K = adjugate(cm)
    for i in range(cm.sd):
        for j in range(cm.sd):
            V[s + i, s + j] = K[i][j]


def tensor_at(V, cm, s, scaled):
    """the inverse double Piola map of the components of a symmetric tensor"""
    K = adjugate(cm)
    pairs = [(0, 0), (0, 1), (1, 1)]
    for p, (i, j) in enumerate(pairs):
        for q, (k, l) in enumerate(pairs):
            x = K[i][k]*K[j][l] if k == l else K[i][k]*K[j][l] + K[i][l]*K[j][k]
            V[s + p, s + q] = x/(scaled*scaled) if scaled is not None else x


def metric(cm):
    J = jacobian(cm)
    return [[sum(J[k][i]*J[k][j] for k in range(cm.sd)) for j in range(cm.sd)] for i in range(cm.sd)]


def quadratic(x, G, y):
    n = len(G)
    return sum(x[i]*G[i][j]*y[j] for i in range(n) for j in range(n))


def dot(x, y):
    return sum(a*b for a, b in zip(x, y))


def tangential(cm, f):
    """a reference tangential moment of the mapped function by the physical
    normal and tangential moments: the tangential coefficients are fixed by the
    Gram matrices of the tangents, the normal one by orthogonality"""
    G = metric(cm)
    det = cm.detJ_at(None)
    if cm.sd == 2:
        t = Triangle().compute_edge_tangent(f)
        t = [t[0], t[1]]
        n = [t[1], -t[0]]
        tt = quadratic(t, G, t)
        return [[-quadratic(n, G, t)/tt, det*dot(t, t)/tt]]
    t = Tetrahedron().compute_tangents(2, f)
    x, y = [[t[i][k] for k in range(3)] for i in range(2)]
    n = [x[1]*y[2] - x[2]*y[1], x[2]*y[0] - x[0]*y[2], x[0]*y[1] - x[1]*y[0]]
    xx, xy, yy = quadratic(x, G, x), quadratic(x, G, y), quadratic(y, G, y)
    gram = xx*yy - xy*xy
    nx, ny = quadratic(n, G, x), quadratic(n, G, y)
    rows = []
    for s in (x, y):
        a, b = dot(s, x), dot(s, y)
        c1 = (a*yy - b*xy)/gram
        c2 = (b*xx - a*xy)/gram
        rows.append([-(c1*nx + c2*ny)/dot(n, n), det*c1, det*c2])
    return rows


def moments(V, cm, start, per_facet, count, step=None):
    """count times a normal moment followed by tangential ones on each facet"""
    sd = cm.sd
    for f in range(sd + 1):
        rows = tangential(cm, f)
        for k in range(count):
            s = start + f*per_facet + k*(sd if step is None else step)
            for i, row in enumerate(rows):
                for j, x in enumerate(row):
                    V[s + 1 + i, s + j] = x


def mtw(V, cm):
    """the functions beyond the DoFs of an edge only serve the constraints"""
    for e in range(3):
        a, b = tangential(cm, e)[0]
        V[3*e + 1, 3*e] = a
        V[3*e + 1, 3*e + 1] = b


def arnold_winther(V, cm):
    h = cm.cell_size()
    for v in range(3):
        tensor_at(V, cm, 3*v, h[v])
    moments(V, cm, 9, 4, 2)


def hu_zhang(V, cm, degree, point):
    h = cm.cell_size()
    for v in range(3):
        tensor_at(V, cm, 3*v, h[v])
    moments(V, cm, 9, 2*(degree - 1), degree - 1)
    if point:
        n = (3*(degree + 1)*(degree + 2))//2
        for s in range(9 + 6*(degree - 1), n, 3):
            tensor_at(V, cm, s, None)


def case_tensor():
    bind_all()
    cell, tet = Triangle(), Tetrahedron()
    return {
        "MardalTaiWinther": obligation(MardalTaiWinther(cell, 3), mtw),
        "ArnoldWintherNC": obligation(ArnoldWintherNC(cell, 2), moments, 0, 4, 2),
        "ArnoldWinther": obligation(ArnoldWinther(cell, 3), arnold_winther),
        "JohnsonMercier": obligation(JohnsonMercier(cell, 1), moments, 0, 4, 2),
        "JohnsonMercier, 3d": obligation(JohnsonMercier(tet, 1), moments, 0, 9, 3),
        "HuZhang": obligation(HuZhang(cell, 3, "integral"), hu_zhang, 3, False),
        "HuZhang, point": obligation(HuZhang(cell, 3, "point"), hu_zhang, 3, True),
        "HuZhang, degree 4": obligation(HuZhang(cell, 4, "integral"), hu_zhang, 4, False),
    }


def alfeld_sorokina(V, cm):
    if cm.sd == 2:
        vertices, edges, n, start = 3, 3, 3, 9
    else:
        vertices, edges, n, start = 4, 6, 4, 16
    for v in range(vertices):
        V[n*v, n*v] = cm.detJ_at(None)
        vector_at(V, cm, n*v + 1)
    for e in range(edges):
        vector_at(V, cm, start + cm.sd*e)


def bubbles(V, cm, start):
    """vector values, then facet bubbles: the tangential ones serve to unpick
    the normal component and are not DoFs"""
    sd = cm.sd
    for s in range(0, start, sd):
        vector_at(V, cm, s)
    facet_bubbles(V, cm, start)


def facet_bubbles(V, cm, start):
    for f in range(cm.sd + 1):
        for k, row in enumerate(tangential(cm, f)):
            V[start + f + (cm.sd + 1)*(k + 1), start + f] = row[0]


def divergence(V, cm):
    if cm.sd == 3:
        alfeld_sorokina(V, cm)
        facet_bubbles(V, cm, 34)
        return
    for v in range(3):
        V[v, v] = cm.detJ_at(None)
        vector_at(V, cm, 3 + 2*v)
    facet_bubbles(V, cm, 9)


def case_piola():
    bind_all()
    cell, tet = Triangle(), Tetrahedron()
    return {
        "AlfeldSorokina": obligation(AlfeldSorokina(cell, 2), alfeld_sorokina),
        "AlfeldSorokina, 3d": obligation(AlfeldSorokina(tet, 2), alfeld_sorokina),
        "BernardiRaugel": obligation(BernardiRaugel(cell), bubbles, 6),
        "BernardiRaugel, 3d": obligation(BernardiRaugel(tet), bubbles, 12),
        "BernardiRaugel, 3d, order 2": obligation(BernardiRaugel(tet, 2), bubbles, 30),
        "BernardiRaugelBubble": obligation(BernardiRaugelBubble(cell), bubbles, 0),
        "GuzmanNeilanFirstKindH1": obligation(GuzmanNeilanFirstKindH1(cell), bubbles, 6),
        "GuzmanNeilanBubble": obligation(GuzmanNeilanBubble(tet), bubbles, 0),
        "GuzmanNeilanSecondKindH1": obligation(GuzmanNeilanSecondKindH1(cell), bubbles, 8),
        "GuzmanNeilanH1div": obligation(GuzmanNeilanH1div(cell), divergence),
        "GuzmanNeilanH1div, 3d": obligation(GuzmanNeilanH1div(tet), divergence),
        "ReducedArnoldQin": obligation(ReducedArnoldQin(cell), bubbles, 6),
        "ChristiansenHu": obligation(ChristiansenHu(cell), bubbles, 6),
    }
