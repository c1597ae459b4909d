"""Dual bases of FIAT elements whose functionals have known points, shared and
overlapping quadrature rules and unknown weights: the weights of every
functional are in its own row, against each of its points, in the slot of each
component.  Dual evaluation of an unknown element, for any dual basis and any
function value: the contraction over all points and value indices."""
import gem
import numpy

from finat.fiat_elements import FiatElement
from finat.finiteelementbase import FiniteElementBase


class Functional:
    def __init__(self, points, derivatives=()):
        self.pt_dict = dict(points)
        self.deriv_dict = dict(derivatives)

    def get_point_dict(self):
        return self.pt_dict


class Dual:
    """a FIAT element with a known dual set"""

    def __init__(self, f, functionals):
        self.f = f
        self.functionals = functionals

    def get_reference_element(self):
        return self.f.get_reference_element()

    def get_reference_complex(self):
        return self.f.get_reference_complex()

    def degree(self):
        return self.f.degree()

    def space_dimension(self):
        return len(self.functionals)

    def value_shape(self):
        return self.f.value_shape()

    def dual_basis(self):
        return self.functionals


def weights_found(f, duals, points, components):
    """weight of every functional at every point, for every component"""
    Q, x = FiatElement(Dual(f, duals)).dual_basis
    out = []
    for i in range(len(duals)):
        for c in components:
            table = gem.ComponentTensor(gem.Indexed(Q, (i,) + c), x.indices)
            out.append([sum([gem.Indexed(table, (k,)) for k in range(len(x.points)) if tuple(x.points[k]) == p]) for p in points])
    return out, len(x.points)


def weights_given(duals, points, components):
    out = []
    for d in duals:
        for c in components:
            out.append([sum([w for w, slot in d.get_point_dict().get(p, ()) if slot == c]) for p in points])
    return out


def check(f, duals, points, components, columns):
    return (lambda: weights_found(f, duals, points, components), lambda: (weights_given(duals, points, components), columns))


A, B, C, D = (0, 0), (1, 0), (0, 1), (1, 1)


def case_dual_sets(f: "FiatElement", p: "num", q: "num", r: "num", s: "num"):
    one = Functional
    scalar = [()]
    vector = [(0,), (1,)]
    matrix = [(0, 0), (0, 1), (1, 0), (1, 1)]
    return {
        "points": check(f, [one({A: [(1, ())]}), one({B: [(1, ())]}), one({C: [(1, ())]})], [A, B, C], scalar, 3),
        "points out of order": check(f, [one({C: [(1, ())]}), one({A: [(1, ())]}), one({B: [(1, ())]})], [A, B, C], scalar, 3),
        "points of repeated use": check(f, [one({C: [(1, ())]}), one({A: [(1, ())]}), one({C: [(1, ())]})], [A, C], scalar, 2),
        "weighted points": check(f, [one({A: [(2, ())]}), one({B: [(2, ())]})], [A, B], scalar, 2),
        "points, one of them weighted": check(f, [one({A: [(1, ())]}), one({B: [(2, ())]})], [A, B], scalar, 2),
        "points of negative weight": check(f, [one({A: [(-1, ())]}), one({B: [(-1, ())]})], [A, B], scalar, 2),
        "points, one of negative weight": check(f, [one({A: [(1, ())]}), one({B: [(-1, ())]})], [A, B], scalar, 2),
        "a point": check(f, [one({A: [(1, ())]})], [A], scalar, 1),
        "a point of weight two": check(f, [one({B: [(2, ())]})], [B], scalar, 1),
        "a component at a point": check(f, [one({A: [(2, (1,))]})], [A], vector, 1),
        "a component of weight one at a point": check(f, [one({A: [(1, (0,))]})], [A], vector[:1], 1),
        "scaled points": check(f, [one({A: [(p, ())]}), one({B: [(q, ())]}), one({A: [(r, ())], B: [(s, ())]})], [A, B], scalar, 4),
        "shared rule": check(f, [one({A: [(p, ())], B: [(q, ())]}), one({A: [(r, ())], B: [(s, ())]})], [A, B], scalar, 2),
        "shared rule, points in different order": check(f, [one({A: [(p, ())], B: [(q, ())]}), one({B: [(r, ())], A: [(s, ())]})], [A, B], scalar, 2),
        "rule and a point of it": check(f, [one({A: [(p, ())], B: [(q, ())]}), one({B: [(r, ())]}), one({C: [(s, ())], A: [(p, ())]})], [A, B, C], scalar, 5),
        "overlapping rules": check(f, [one({A: [(p, ())], B: [(q, ())], C: [(r, ())]}), one({B: [(s, ())], C: [(p, ())]}), one({B: [(q, ())], C: [(r, ())], A: [(s, ())]})],
                                   [A, B, C], scalar, 5),
        "components": check(f, [one({A: [(p, (0,))]}), one({A: [(q, (1,))]}), one({B: [(r, (0,)), (s, (1,))]})], [A, B], vector, 2),
        "normal moments": check(f, [one({A: [(p, (0,)), (q, (1,))], B: [(r, (0,)), (s, (1,))]}), one({A: [(r, (1,)), (s, (0,))], B: [(p, (1,))]})], [A, B], vector, 2),
        "identity with components": check(f, [one({A: [(1, (0,))]}), one({A: [(1, (1,))]})], [A], vector, 1),
        "matrices": check(f, [one({A: [(p, (0, 0)), (q, (1, 1))]}), one({A: [(r, (0, 1)), (s, (1, 0))]}), one({B: [(s, (1, 1))]})], [A, B], matrix, 2),
        "derivatives": (lambda: FiatElement(Dual(f, [one({A: [(1, ())]}), one({B: [(1, ())]}, {A: [(1, (1, 0), ())]})])).dual_basis, lambda: raises("NotImplementedError")),
        "only derivatives": (lambda: FiatElement(Dual(f, [one({}, {A: [(1, (1, 0), ())]})])).dual_basis, lambda: raises("NotImplementedError")),
    }


def case_used_twice(f: "FiatElement", p: "num", q: "num"):
    """a product of an element with itself is that of two equal elements: each use has its own points"""
    def identity():
        return FiatElement(Dual(f, [Functional({A: [(1, ())]}), Functional({B: [(1, ())]})]))

    def dense():
        return FiatElement(Dual(f, [Functional({A: [(p, ())], B: [(q, ())]})]))

    def table(a, b):
        (Q, x), (R, y) = a.dual_basis, b.dual_basis
        i, j = gem.indices(1), gem.indices(1)
        return gem.ComponentTensor(gem.Indexed(Q, i) * gem.Indexed(R, j), i + j + x.indices + y.indices)

    def twice(e):
        return table(e, e)
    return {"identity": (lambda: twice(identity()), lambda: table(identity(), identity())),
            "weights": (lambda: twice(dense()), lambda: table(dense(), dense()))}


class Elem(FiniteElementBase):
    """an element with a given dual basis"""

    def __init__(self, Q, x):
        self.Q = Q
        self.x = x

    @property
    def dual_basis(self):
        return self.Q, self.x


class NoDual(FiniteElementBase):
    pass


def case_evaluation(Q: "gem", x: "PointSet", fn: "fn", v: "gem", w: "gem", a: "Index"):
    """v(x): value of the function, of unknown shape, possibly with further free indices"""
    assert len(v.shape) <= len(Q.shape)
    assert v.shape == Q.shape[len(Q.shape) - len(v.shape):]

    def got(f):
        e, idx = Elem(Q, x).dual_evaluation(f)
        return gem.ComponentTensor(e, idx)

    def want(value):
        b = tuple(gem.Index(extent=n) for n in Q.shape[:len(Q.shape) - len(value.shape)])
        s = tuple(gem.Index(extent=n) for n in value.shape)
        return gem.ComponentTensor(gem.IndexSum(gem.Indexed(Q, b + s) * gem.Indexed(value, s), x.indices + s), b)
    table = gem.ComponentTensor(v, x.indices)
    return {"value": (lambda: got(lambda pts: v), lambda: want(v)),
            "points passed on": (lambda: got(lambda pts: gem.Indexed(pts.expression, (0,))), lambda: want(gem.Indexed(x.expression, (0,)))),
            "value with an argument": (lambda: got(lambda pts: gem.Indexed(gem.Variable("w", (7,)), (a,)) * gem.Indexed(pts.expression, (0,))),
                                       lambda: want(gem.Indexed(gem.Variable("w", (7,)), (a,)) * gem.Indexed(x.expression, (0,)))),
            "no dual basis": (lambda: NoDual().dual_evaluation(fn), lambda: raises("NotImplementedError"))}
