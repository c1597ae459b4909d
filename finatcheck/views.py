"""Strided views of arrays of unknown size.

sview(base, shape, strides, offset)   rearrangement of the entries of `base`
flat(base, k)                         entry number k of `base` in row-major order

`shape` is a tuple term whose segments are single extents or runs of unknown
length; `strides` has one entry per segment (for a run: the stride of its last
axis, the others being row-major).  Reshaping and transposing only changes the
polynomial position, so rearrangements of a table are compared exactly.
"""
from . import terms as tm
from .models import model
from .terms import mk, c, ZERO, ONE, isc, add, sub, mul, seq, seq_of, sp, el, length, lift, leaves, ty, fresh, at, NONE

def group(g):
    return seq("tuple", [g])


def size(g):
    return g.a[0] if g.h == "el" else tm.prod_seq(group(g))


def total(segs):
    r = ONE
    for g in segs:
        r = mul(r, size(g))
    return r


def row_major(segs, inner=ONE):
    out, acc = [], inner
    for g in reversed(segs):
        out.append(acc)
        acc = mul(acc, size(g))
    return tuple(reversed(out))


def sview(base, shape, strides, offset):
    segs = shape.a[1]
    if not segs:
        return flat(base, offset)
    # an axis of extent one carries no position
    return mk("sview", base, shape, tuple(ZERO if g.h == "el" and g.a[0] is ONE else x for g, x in zip(segs, strides)), offset)


def flat(base, k):
    if base.h == "ite" or k.h == "ite":
        return lift(flat, base, k)
    if base.h == "seq":
        return at(base, k)
    if base.h == "arr" and tm.is_int_const(k):
        return base.a[1][k.a[0]]
    return mk("flat", base, k)


@tm.rebuilds("sview")
def _rb_sview(h, base, shape, strides, offset):
    return sview(base, shape, strides, offset)


@tm.rebuilds("flat")
def _rb_flat(h, base, k):
    return flat(base, k)


def tuple_of(shape):
    """a shape argument as a tuple term with segments, or None"""
    if shape.h == "seq":
        return seq("tuple", shape.a[1])
    if ty(shape) in tm.NUMERIC:
        return seq_of("tuple", [shape])
    if tm.is_seq_ty(ty(shape)):
        n = length(shape)
        if tm.is_int_const(n):
            return seq_of("tuple", [at(shape, c(k)) for k in range(n.a[0])])
        return seq("tuple", [sp(shape)])
    return None


def is_view(t):
    return t.h == "sview"


def known(t):
    """(base, segs, strides, offset) of an array; contiguous and of unknown shape when opaque"""
    if is_view(t):
        return t.a[0], list(t.a[1].a[1]), list(t.a[2]), t.a[3]
    return t, None, None, ZERO


def reshape(t, shape):
    if t.h == "ite" or shape.h == "ite":
        return lift(reshape, t, shape)
    s = tuple_of(shape)
    if s is None:
        return None
    new = list(s.a[1])
    base, old, strides, off = known(t)
    free = [k for k, g in enumerate(new) if g.h == "el" and isc(g.a[0]) and g.a[0].a[0] == -1]
    if old is None:
        if free:
            k, = free if len(free) == 1 else (None,)
            if k is not None and total(new[:k] + new[k + 1:]) is ONE:
                new[k] = el(tm.attr(base, "size"))
                return sview(base, seq("tuple", new), row_major(new), off)
            return None
        return sview(base, s, row_major(new), off)
    if free:
        if len(free) > 1:
            return None
        k, = free
        rest = total(new[:k] + new[k + 1:])
        n = exact_quotient(total(old), rest)
        if n is None:
            return None
        new[k] = el(n)
        s = seq("tuple", new)
        new = list(s.a[1])
    # equal axes at either end keep their strides; the rest must be contiguous
    lead, trail = [], []
    o, st, nw = old[:], strides[:], new[:]
    while o and nw and len(o) > 0 and o[0] is nw[0] and (len(o) > 1 and len(nw) > 1 or len(o) == len(nw) == 1):
        lead.append(st.pop(0))
        o.pop(0)
        nw.pop(0)
    while o and nw and o[-1] is nw[-1] and (len(o) > 1 and len(nw) > 1 or len(o) == len(nw) == 1):
        trail.append(st.pop())
        o.pop()
        nw.pop()
    if not o and not nw:
        return sview(base, s, lead + trail[::-1], off)
    if not o or not nw:
        if all(size(g) is ONE for g in o + nw):
            return sview(base, s, lead + [ZERO] * len(nw) + trail[::-1], off)
        return None
    # axes of extent one carry no position
    pairs = [(g, x) for g, x in zip(o, st) if size(g) is not ONE]
    inner = pairs[-1][1] if pairs else ONE
    want = row_major([g for g, x in pairs], inner)
    if all(x is y for (g, x), y in zip(pairs, want)):
        return sview(base, s, lead + list(row_major(nw, inner)) + trail[::-1], off)
    # split into independent contiguous groups of equal size
    r = match_groups(o, st, nw)
    if r is not None:
        return sview(base, s, lead + r + trail[::-1], off)
    if all(g.h == "el" for g in o):
        # general case: positions by division with remainder
        v = fresh("int")
        tm.RANGE_OF[v] = total(o)
        pos, rest = ZERO, v
        for k, (g, x) in enumerate(zip(reversed(o), reversed(st))):
            pos = add(pos, mul(tm.mod(rest, g.a[0]) if k < len(o) - 1 else rest, x))
            rest = tm.floordiv(rest, g.a[0])
        if not lead and not trail:
            entries = seq("list", [tm.fm_seg(total(o), v, seq_of("list", [flat(base, add(off, pos))]))])
            return sview(entries, s, row_major(nw), ZERO)
    return None


def match_groups(o, st, nw):
    out = []
    i = j = 0
    while i < len(o) and j < len(nw):
        p, q = i + 1, j + 1
        while True:
            x, y = total(o[i:p]), total(nw[j:q])
            if x is y:
                break
            if len(o) - p == 0 and len(nw) - q == 0:
                break
            if p - i <= q - j and p < len(o) and (p - i == 1 or q == len(nw)):
                p += 1
            elif q < len(nw):
                q += 1
            else:
                return None
        inner = st[p - 1]
        if any(a is not b for a, b in zip(st[i:p], row_major(o[i:p], inner))):
            return None
        out += list(row_major(nw[j:q], inner))
        i, j = p, q
    if i < len(o) or j < len(nw):
        return None
    return out


def exact_quotient(n, d):
    if d is ONE:
        return n
    if tm.is_int_const(n) and tm.is_int_const(d):
        return c(n.a[0] // d.a[0]) if d.a[0] and n.a[0] % d.a[0] == 0 else None
    q = tm.div(n, d)
    if mul(q, d) is not n:
        return None
    if q.h == "poly" and any(e < 0 for co, mono in q.a[0] for x, e in mono):
        return None
    return q


def transpose(t, axes):
    base, old, strides, off = known(t)
    if old is None or any(g.h != "el" for g in old):
        return None
    if axes is None:
        axes = list(range(len(old)))[::-1]
    axes = [a + len(old) if a < 0 else a for a in axes]
    if sorted(axes) != list(range(len(old))):
        return None
    return sview(base, seq("tuple", [old[a] for a in axes]), [strides[a] for a in axes], off)


def index(t, ks):
    """ks: terms of the key (tuple already split)"""
    base, old, strides, off = known(t)
    if old is None:
        return None
    ell = [i for i, k in enumerate(ks) if domain.is_ellipsis(k)]
    new = sum(1 for k in ks if k is NONE)
    if ell:
        if len(ell) > 1 or any(g.h != "el" for g in old):
            return None
        i, = ell
        ks = ks[:i] + [mk("slc", NONE, NONE, NONE)] * (len(old) + new - len(ks) + 1) + ks[i + 1:]
    used = len(ks) - new
    if used > len(old):
        return None
    segs, st = [], []
    rest = list(zip(old, strides))
    for k in ks:
        if k is NONE:
            segs.append(el(ONE))
            st.append(ZERO)
            continue
        g, x = rest.pop(0)
        if g.h != "el":
            return None
        if k.h == "slc":
            if any(b is not NONE for b in k.a):
                return None
            segs.append(g)
            st.append(x)
        elif ty(k) in ("int", "num") or k.h == "ix":
            if tm.is_int_const(k) and k.a[0] < 0:
                k = add(g.a[0], k)
            off = add(off, mul(k, x))
        else:
            return None
    return sview(base, seq("tuple", segs + old[used:]), st + strides[used:], off)


def with_new_axes(I, t, k):
    """indexing of a vector by full slices and new axes"""
    ks = [g.a[0] for g in k.a[1]] if k.h == "seq" and all(g.h == "el" for g in k.a[1]) else [k]
    if not any(x is NONE for x in ks):
        return None
    if not is_view(t):
        if I.simp(length(tm.attr(t, "shape"))) is not ONE:
            return None
        t = sview(t, seq_of("tuple", [tm.attr(t, "size")]), (ONE,), ZERO)
    return index(t, ks)


def gem_index(t, idx):
    """indexing by a sequence of indices that may contain runs; None if it does not line up"""
    base, old, strides, off = known(t)
    if old is None:
        return None
    segs = list(idx.a[1])
    while segs and old:
        g, x = old[0], strides[0]
        i = segs[0]
        if g.h == "el":
            if i.h != "el":
                n = length(group(i))
                if n is ZERO:
                    segs.pop(0)
                    continue
                return None
            off = add(off, mul(i.a[0], x))
            segs.pop(0)
        else:
            n = length(group(g))
            take = []
            while segs and length(seq("tuple", take)) is not n:
                take.append(segs.pop(0))
            if length(seq("tuple", take)) is not n:
                return None
            off = add(off, mul(domain.ravel(seq("tuple", take), group(g)), x))
        old.pop(0)
        strides.pop(0)
    if segs:
        return None
    return sview(base, seq("tuple", old), strides, off)


# ------------------------------------------------------------- hooks

def _len(t):
    if is_view(t):
        g = t.a[1].a[1][0]
        if g.h == "el":
            return g.a[0]
    return None


def _at(t, k):
    if is_view(t):
        ks = [g.a[0] for g in k.a[1]] if k.h == "seq" and all(g.h == "el" for g in k.a[1]) else [k]
        return index(t, ks)
    return None


def _attr(o, name):
    if is_view(o):
        if name == "shape":
            return o.a[1]
        if name == "T":
            return transpose(o, None)
        if name == "ndim":
            return length(o.a[1])
        if name == "size":
            return tm.prod_seq(o.a[1])
    elif name == "ndim" and ty(o) == "array":
        return length(tm.attr(o, "shape"))
    elif name == "shape" and o.h == "attr" and o.a[1] == "expression" and ty(o.a[0]) == "PointSet":
        return seq_of("tuple", [tm.attr(o.a[0], "dimension")])
    return None


def _shape_entry(s, k):
    """the first extent is the length; the second one of points their dimension"""
    if s.h == "attr" and s.a[1] == "shape" and ty(s.a[0]) == "array":
        if k is ZERO:
            return length(s.a[0])
        o = s.a[0]
        if k is ONE and o.h == "attr" and o.a[1] == "points" and ty(o.a[0]) == "PointSet":
            return tm.attr(o.a[0], "dimension")
    return None


def ints(xs):
    return [x.a[0] for x in xs] if all(tm.is_int_const(x) for x in xs) else None


def _method(f, args, kw):
    if f.h != "attr" or ty(f.a[0]) != "array":
        return None
    o, name = f.a
    if any(a.h == "sp" for a in args):
        if name != "reshape":
            return None
        args = (seq("tuple", [a if a.h == "sp" else el(a) for a in args]),)
    if name == "reshape" and args and not (set(dict(kw)) - {"order"}):
        if dict(kw).get("order", c("C")) is not c("C"):
            return None
        return reshape(o, args[0] if len(args) == 1 else seq_of("tuple", list(args)))
    if name == "reshape" and not args and set(dict(kw)) == {"shape"}:
        return reshape(o, dict(kw)["shape"])
    if name in ("flatten", "ravel") and not args and not kw and is_view(o):
        return reshape(o, seq_of("tuple", [tm.prod_seq(o.a[1])]))
    if name == "copy" and is_view(o) and not args:
        return o
    if name == "transpose" and not kw and is_view(o):
        if len(args) == 1 and args[0].h == "seq":
            args = tuple(g.a[0] for g in args[0].a[1])
        ax = ints(args)
        return transpose(o, ax or None) if ax is not None else None
    return None


def _len_sliced(t):
    """slices keep the number of axes"""
    if t.h == "attr" and t.a[1] == "shape" and t.a[0].h == "at" and ty(t.a[0]) == "array" and not is_view(t.a[0]):
        return length(tm.attr(t.a[0].a[0], "shape"))
    return None


tm.LEN_RULES.append(_len)
tm.LEN_RULES.append(_len_sliced)
tm.AT_RULES.append(_at)
tm.AT_RULES.append(_shape_entry)
tm.ATTR_RULES.append(_attr)
tm.APP_RULES.append(_method)


@model("numpy.transpose")
def _np_transpose(I, args, kw):
    x = I.freeze(args[0]) if len(args) == 1 and not kw else None
    if x is None or ty(x) != "array":
        return None
    return tm.attr(x, "T")


@model("numpy.reshape")
def _np_reshape(I, args, kw):
    if len(args) != 2 or kw:
        return None
    x = I.freeze(args[0])
    if ty(x) != "array":
        return None
    return reshape(x, I.freeze(I.as_seq(args[1])) if ty(I.freeze(args[1])) not in tm.NUMERIC else I.freeze(args[1]))


def np_moveaxis(I, args, kw):
    if len(args) != 3 or kw:
        return None
    x = I.freeze(args[0])
    a, b = I.freeze(args[1]), I.freeze(args[2])
    if not is_view(x) or not tm.is_int_const(a) or not tm.is_int_const(b):
        return None
    n = len(x.a[1].a[1])
    order = list(range(n))
    order.insert(b.a[0] if b.a[0] >= 0 else b.a[0] + n, order.pop(a.a[0]))
    return transpose(x, order)


def np_array_seq(x):
    """an array made from a list of scalars of unknown number"""
    if x.h == "ite":
        r = [np_array_seq(y) for y in leaves(x)]
        return lift(np_array_seq, x) if all(y is not None for y in r) else None
    if x.h == "seq" and x.a[1] and any(g.h != "el" for g in x.a[1]):
        t = ty(x)
        e = t[1] if isinstance(t, tuple) else None
        if e in tm.NUMERIC or e == "gem":
            return sview(seq("list", x.a[1]), seq_of("tuple", [length(x)]), (ONE,), ZERO)
    return None


def entries(x):
    """the entries of an array in row-major order, and its shape"""
    v = fresh("int")
    n = tm.attr(x, "size")
    tm.RANGE_OF[v] = n
    if is_view(x):
        segs, st = list(x.a[1].a[1]), list(x.a[2])
        if st and all(a is b for a, b in zip(st, row_major(segs, st[-1]))):
            return seq("list", [tm.fm_seg(n, v, seq_of("list", [flat(x.a[0], add(x.a[3], mul(v, st[-1])))]))]), x.a[1]
        return None, None
    return seq("list", [tm.fm_seg(n, v, seq_of("list", [flat(x, v)]))]), tuple_of(tm.attr(x, "shape"))


def map_entries(I, args, kw):
    """f applied to every entry of an array"""
    f, x = args[0], I.freeze(args[1])
    if x.h == "ite":
        return tm.top("entries of a conditional array")
    if ty(x) != "array":
        a = domain.to_arr(I, x)
        if a is None:
            return tm.top("entries of an unknown array")
        return I.alloc(("arr", a[1], tuple(I.call(f, [v], {}) for v in a[2])))
    s, shape = entries(x)
    if s is None:
        return tm.top("entries of a rearranged array")
    r = I.freeze(I.as_seq(models.map_loop(I, s, lambda v: I.call(f, [v], {}))))
    return lift(lambda y: sview(y, shape, row_major(list(shape.a[1])), ZERO), r)


from . import domain, models  # noqa: E402
