"""Point sets: the free indices have the extents of the layout, the symbolic
expression selects the stored coordinates along exactly those indices, product
point sets run through their factors with the last factor fastest, and almost
equality means same kind, same shape and all coordinates within tolerance."""
import gem
import numpy

from finat.point_set import (AbstractPointSet, GaussLegendrePointSet, GaussLobattoLegendrePointSet, PointSet, PointSingleton,
                             TensorPointSet, UnknownPointSet)


def extents(ps):
    return tuple(i.extent for i in ps.indices)


def case_point_set(pts: "array", n: "int", d: "int"):
    assert numpy.asarray(pts).shape == (n, d)
    assert len(numpy.asarray(pts)) == n
    ps = PointSet(pts)
    return {
        "points": (lambda: ps.points, lambda: numpy.asarray(pts)),
        "dimension": (lambda: ps.dimension, lambda: d),
        "extents": (lambda: extents(ps), lambda: (n,)),
        "same indices": (lambda: ps.indices == ps.indices, lambda: True),
        "expression": (lambda: ps.expression, lambda: gem.partial_indexed(gem.Literal(numpy.asarray(pts)), ps.indices)),
    }


def case_singleton(pt: "array", d: "int"):
    assert numpy.asarray(pt).shape == (d,)
    ps = PointSingleton(pt)
    return {
        "points": (lambda: ps.points, lambda: numpy.asarray(pt).reshape(1, -1)),
        "indices": (lambda: ps.indices, lambda: ()),
        "expression": (lambda: ps.expression, lambda: gem.Literal(numpy.asarray(pt))),
    }


def case_unknown(n: "int", d: "int"):
    ps = UnknownPointSet(gem.Variable("rt_X", (n, d)))
    return {
        "dimension": (lambda: ps.dimension, lambda: d),
        "number": (lambda: len(ps.points), lambda: n),
        "shape": (lambda: ps.points.shape, lambda: (n, d)),
        "extents": (lambda: extents(ps), lambda: (n,)),
        "same indices": (lambda: ps.indices == ps.indices, lambda: True),
        "expression": (lambda: ps.expression, lambda: gem.partial_indexed(gem.Variable("rt_X", (n, d)), ps.indices)),
    }


class Points(AbstractPointSet):
    """a factor with known layout and unknown coordinates"""
    points = None
    indices = ()
    expression = None

    def __init__(self, points, indices, expression):
        self.points = points
        self.indices = indices
        self.expression = expression
        self.dim = len(points[0])

    @property
    def dimension(self):
        return self.dim


def case_tensor(x: "tuple[num]*2", y: "tuple[num]*6", z: "tuple[num]*3", i: "tuple[Index]*3", ex: "gem", ey: "gem", ez: "gem"):
    p = Points([[x[0]], [x[1]]], (i[0],), ex)
    q = Points([[y[0], y[1]], [y[2], y[3]], [y[4], y[5]]], (i[1], i[2]), ey)
    r = Points([[z[0], z[1], z[2]]], (), ez)
    t = TensorPointSet(f for f in [p, q, r])
    return {
        "points": (lambda: t.points, lambda: numpy.array([[a, y[2 * k], y[2 * k + 1], z[0], z[1], z[2]] for a in x for k in range(3)])),
        "indices": (lambda: t.indices, lambda: i),
        "expression": (lambda: t.expression, lambda: gem.ListTensor([gem.Indexed(ex, (0,)), gem.Indexed(ey, (0,)), gem.Indexed(ey, (1,)),
                                                                      gem.Indexed(ez, (0,)), gem.Indexed(ez, (1,)), gem.Indexed(ez, (2,))])),
        "factors": (lambda: t.factors, lambda: (p, q, r)),
        "one factor": (lambda: TensorPointSet([q]).indices, lambda: (i[1], i[2])),
    }


def case_tensor_any(fs: "tuple[PointSet]"):
    t = TensorPointSet(f for f in fs)
    return {
        "indices": (lambda: t.indices, lambda: tuple(i for f in fs for i in f.indices)),
        "factors": (lambda: t.factors, lambda: fs),
        "expression": (lambda: t.expression, lambda: gem.ListTensor([gem.Indexed(f.expression, (k,)) for f in fs for k in range(f.dimension)])),
    }


def case_almost_equal_tensor(pa: "array", pb: "array", pc: "array", pd: "array", tol: "num"):
    assert all(len(p.shape) == 2 for p in (pa, pb, pc, pd))
    close = lambda u, v, t: u.points.shape == v.points.shape and numpy.allclose(u.points, v.points, rtol=0, atol=t)
    a, b, c, d = PointSet(pa), PointSet(pb), PointSet(pc), PointSet(pd)
    s, t = TensorPointSet([a, b]), TensorPointSet([c, d])
    return {
        "default": (lambda: s.almost_equal(t), lambda: close(a, c, 1e-12) and close(b, d, 1e-12)),
        "tolerance": (lambda: s.almost_equal(t, tol), lambda: close(a, c, tol) and close(b, d, tol)),
        "nested": (lambda: TensorPointSet([s, d]).almost_equal(TensorPointSet([t, b]), tolerance=tol), lambda: close(a, c, tol) and close(b, d, tol) and close(d, b, tol)),
        "fewer factors": (lambda: s.almost_equal(TensorPointSet([c])), lambda: False),
        "more factors": (lambda: TensorPointSet([a]).almost_equal(t), lambda: False),
        "first factors agree": (lambda: TensorPointSet([a]).almost_equal(s), lambda: False),
        "only first factors": (lambda: s.almost_equal(TensorPointSet([a])), lambda: False),
        "same": (lambda: s.almost_equal(s, tol), lambda: True),
        "renamed": (lambda: TensorPointSet([a, c]).almost_equal(TensorPointSet([PointSet(pa), PointSet(pc)])), lambda: True),
    }


def case_almost_equal_points():
    near = lambda p, q: PointSet(p).almost_equal(PointSet(q))
    return {
        "same": (lambda: near([[0.0, 1.0], [0.5, 0.5]], [[0.0, 1.0], [0.5, 0.5]]), lambda: True),
        "rounded": (lambda: near([[0.0, 1.0], [0.5, 0.5]], [[0.0, 1.0 - 1e-13], [0.5 + 1e-13, 0.5]]), lambda: True),
        "large and rounded": (lambda: near([[1000.0], [2.0]], [[1000.0 + 1e-10], [2.0]]), lambda: False),
        "other order": (lambda: near([[0.0, 1.0], [1.0, 0.0]], [[1.0, 0.0], [0.0, 1.0]]), lambda: False),
        "other pairing": (lambda: near([[0.0, 0.0], [1.0, 1.0]], [[0.0, 1.0], [1.0, 0.0]]), lambda: False),
        "one point moved": (lambda: near([[0.0, 0.0], [1.0, 1.0]], [[0.0, 0.0], [1.0, 0.9]]), lambda: False),
        "far side": (lambda: near([[1.0], [0.0]], [[0.5], [0.0]]), lambda: False),
        "prefix": (lambda: near([[0.0], [0.5]], [[0.0]]), lambda: False),
        "one point repeated": (lambda: near([[0.5]], [[0.5], [0.5]]), lambda: False),
        "coordinate repeated": (lambda: near([[0.5]], [[0.5, 0.5]]), lambda: False),
    }


def case_almost_equal(pa: "array", pb: "array", tol: "num"):
    assert len(pa.shape) == 2 and len(pb.shape) == 2 and pa.shape[1] == 1
    a, b = PointSet(pa), PointSet(pb)
    g = GaussLegendrePointSet(pa)
    close = lambda u, v, t: numpy.allclose(u, v, rtol=0, atol=t)
    return {
        "default": (lambda: a.almost_equal(b), lambda: a.points.shape == b.points.shape and close(a.points, b.points, 1e-12)),
        "tolerance": (lambda: a.almost_equal(b, tolerance=tol), lambda: a.points.shape == b.points.shape and close(a.points, b.points, tol)),
        "other kind": (lambda: a.almost_equal(g), lambda: False),
        "other kind reversed": (lambda: g.almost_equal(a), lambda: False),
        "tensor": (lambda: TensorPointSet([a, b]).almost_equal(TensorPointSet([b, a]), tolerance=tol),
                   lambda: a.points.shape == b.points.shape and close(a.points, b.points, tol) and close(b.points, a.points, tol)),
        "tensor with tensor of other arity": (lambda: TensorPointSet([a, b]).almost_equal(TensorPointSet([a])), lambda: False),
        "tensor with plain": (lambda: TensorPointSet([a]).almost_equal(a), lambda: False),
        "plain with tensor": (lambda: a.almost_equal(TensorPointSet([a])), lambda: False),
        "tensor of other kind": (lambda: TensorPointSet([a, g]).almost_equal(TensorPointSet([a, a])), lambda: False),
    }
