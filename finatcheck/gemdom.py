"""Abstract domain for GEM tensor expressions.

ix(F, args)           free index (member `args` of the index family F)
gi(t, idx)            (partial) indexing
gct(body, idx)        component tensor (binder over index families), eta/beta normalised
gsum(body, idx)       index sum (binder), flattened, delta-eliminated, split into components
gdelta(i, j)          Kronecker delta
gzero(shape)          zero tensor
garr(a)               literal / list tensor of an array value
Scalar arithmetic is done in the polynomial normal form of terms.py.
"""
from . import terms as tm
from .terms import (mk, c, NONE, TRUE, FALSE, ZERO, ONE, isc, fresh, ty, ite, lift, eq, add, sub, mul, seq, seq_of, el, sp,
                    length, at, subst, depends, map_leaves, leaves)

EXTENT = {}     # index family variable -> (loop variables, extent term)
UNKNOWN_EXTENT = mk("anyextent", 0)


def new_index(I, extent=None):
    F = fresh("ixf")
    EXTENT[F] = (tuple(I.loopvars), extent)
    return mk("ix", F, tuple(I.loopvars))


def new_indices(I, n):
    F = fresh("ixf")
    u = fresh("int")
    tm.RANGE_OF[u] = n
    EXTENT[F] = (tuple(I.loopvars) + (u,), None)
    body = seq_of("list", [mk("ix", F, tuple(I.loopvars) + (u,))])
    return seq("tuple", [tm.fm_seg(n, u, body)])


def extent_of(i):
    if i.h == "ite":
        return lift(extent_of, i)
    if i.h == "ix":
        r = EXTENT.get(i.a[0])
        if r is None or r[1] is None or r[1] is NONE or len(r[0]) != len(i.a[1]):
            return UNKNOWN_EXTENT
        return subst(r[1], dict(zip(r[0], i.a[1])))
    if tm.is_int_const(i):
        return ONE
    return tm.attr(i, "extent")


def extents(idx):
    return tm.map_leaves(tm.map_seq("tuple", idx, lambda x, k: seq_of("list", [extent_of(x)])), lambda x: x)


# ------------------------------------------------------------- rewriting of index families

def rewrite(t, Fs, f):
    """Replace ix(F, args), F in Fs, by f(term)."""
    memo = {}

    def has(x):
        return any(depends(x, F) for F in Fs)

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if not has(x):
            r = x
        elif x.h == "ix" and x.a[0] in Fs:
            args = tm._mapargs(x.a[1], go)
            r = f(mk("ix", x.a[0], args))
        elif x.h in tm.BINDERS:
            outer, n, ht, tys, bodies = x.a
            outer2 = tm._mapargs(outer, go)
            fvars, bodies = tm.open_(x)
            bodies2 = tuple(rewrite(b, Fs, f) for b in bodies)
            r = tm.REBUILD.get(x.h, tm._rebuild_binder)(x.h, outer2, fvars, bodies2)
        else:
            args = tm._mapargs(x.a, go)
            g = tm.REBUILD.get(x.h)
            r = g(x.h, *args) if g else mk(x.h, *args)
        memo[x] = r
        return r
    return go(t)


def patterns(segs, vs=()):
    """(family, args, family variables) for every bound index pattern; opaque sequences as ('seq', S)."""
    out = []
    for g in segs:
        if g.h == "el":
            x = g.a[0]
            if x.h == "ix":
                out.append((x.a[0], x.a[1], vs))
            elif isc(x):
                out.append(("const", x, vs))
            else:
                out.append(("term", x, vs))
        elif g.h == "sp":
            out.append(("seq", g.a[0], vs))
        elif g.h == "fm":
            (v,), (b,) = tm.open_(g)
            tm.RANGE_OF[v] = g.a[0][0]
            if b.h != "seq":
                out.append(("bad", b, vs))
            else:
                out.extend(patterns(b.a[1], vs + (v,)))
    return out


def match(args, pat, vs):
    """bind family variables vs so that pat == args"""
    if len(args) != len(pat):
        return None
    env = {}
    for a, p in zip(args, pat):
        if p in vs:
            if p in env and env[p] is not a:
                return None
            env[p] = a
        elif p is not a:
            return None
    if len(env) != len(vs):
        return None
    return env


class Rules:
    def __init__(self):
        self.by_f = {}
        self.terms = {}

    def add(self, F, pat, vs, rep):
        self.by_f.setdefault(F, []).append((pat, vs, rep))

    def apply(self, t):
        if self.by_f:
            Fs = frozenset(self.by_f)

            def f(x):
                for pat, vs, rep in self.by_f[x.a[0]]:
                    env = match(x.a[1], pat, vs)
                    if env is not None:
                        return subst(rep, env) if env else rep
                return x
            t = rewrite(t, Fs, f)
        if self.terms:
            t = subst(t, self.terms)
        return t


def align(bs, xs, rules, vs=()):
    """Match binder segments bs against argument segments xs.  Returns the
    unconsumed binder segments or None when the alignment is unknown."""
    bs, xs = list(bs), list(xs)
    while xs:
        if not bs:
            return None
        b, x = bs[0], xs[0]
        if x.h == "sp":
            n = length(x.a[0])
            if n is ZERO:
                xs.pop(0)
                continue
        if b.h == "sp" and length(b.a[0]) is ZERO:
            bs.pop(0)
            continue
        if b.h == "el":
            if x.h == "el":
                if not bind_el(b.a[0], x.a[0], vs, rules):
                    return None
                bs.pop(0)
                xs.pop(0)
                continue
            if x.h == "sp" and tm.is_int_const(length(x.a[0])):
                k = length(x.a[0]).a[0]
                xs[0:1] = [el(at(x.a[0], c(j))) for j in range(k)]
                continue
            return None
        if b.h == "fm":
            if x.h == "fm" and x.a[0][0] is b.a[0][0]:
                (v,), (bb,) = tm.open_(b)
                (xb,) = tm.inst_binder(x, [v])
                tm.RANGE_OF[v] = b.a[0][0]
                if bb.h != "seq" or xb.h != "seq":
                    return None
                r = align(bb.a[1], xb.a[1], rules, vs + (v,))
                if r is None or r:
                    return None
                bs.pop(0)
                xs.pop(0)
                continue
            if x.h == "sp" and length(x.a[0]) is tm.seg_len(b):
                if not bind_pos(b, x.a[0], ZERO, vs, rules):
                    return None
                bs.pop(0)
                xs.pop(0)
                continue
            return None
        if b.h == "sp":
            S = b.a[0]
            if x.h == "sp" and (x.a[0] is S or length(x.a[0]) is length(S)):
                if x.a[0] is not S:
                    if vs:
                        return None
                    rules.terms[S] = x.a[0]
                bs.pop(0)
                xs.pop(0)
                continue
            if x.h == "fm" and tm.seg_len(x) is length(S) and not vs:
                rules.terms[S] = seq("tuple", [x])
                bs.pop(0)
                xs.pop(0)
                continue
            if tm.is_int_const(length(S)):
                bs[0:1] = [el(at(S, c(j))) for j in range(length(S).a[0])]
                continue
            return None
        return None
    return bs


def bind_el(b, x, vs, rules):
    if b.h == "ix":
        rules.add(b.a[0], b.a[1], vs, x)
        return True
    if b.h in ("at", "attr", "sym", "app") and not vs:
        rules.terms[b] = x
        return True
    return b is x


def bind_pos(b, R, off, vs, rules):
    """bind all indices of binder segment b to R[off], R[off+1], ..."""
    if b.h == "el":
        return bind_el(b.a[0], at(R, off), vs, rules)
    if b.h == "sp":
        if vs:
            return False
        rules.terms[b.a[0]] = tm.slice_seq(R, off, add(off, length(b.a[0])))
        return True
    (v,), (bb,) = tm.open_(b)
    tm.RANGE_OF[v] = b.a[0][0]
    if bb.h != "seq":
        return False
    w = fresh("int")
    o = add(off, tm.sum_(v, w, subst(tm.seq_len(bb), {v: w})))
    for g in bb.a[1]:
        if not bind_pos(g, R, o, vs + (v,), rules):
            return False
        o = add(o, tm.seg_len(g))
    return True


def bind_all(bs, idx, rules):
    """positional binding of all binder segments against a sequence of the same length"""
    off = ZERO
    for b in bs:
        if not bind_pos(b, idx, off, (), rules):
            return False
        off = add(off, tm.seg_len(b))
    return True


# ------------------------------------------------------------- constructors

def as_idx(x):
    if x.h == "seq":
        return x if x.a[0] == "tuple" else mk("seq", "tuple", x.a[1])
    return seq("tuple", [sp(x)])


def gi(t, idx):
    if t.h == "ite" or idx.h == "ite":
        return lift(gi, t, idx)
    if t.hastop:
        for x in (t, idx):
            if x.h == "top":
                return x
    idx = as_idx(idx)
    segs = idx.a[1]
    if not segs:
        return t
    if all(s.h == "sp" and length(s.a[0]) is ZERO for s in segs):
        return t
    if t.h == "gi":
        return gi(t.a[0], seq("tuple", t.a[1].a[1] + segs))
    if t.h == "c" and t is ZERO:
        return ZERO
    if t.h == "gzero":
        n = length(idx)
        sh = t.a[0]
        rest = sub(length(sh), n)
        if rest is ZERO:
            return ZERO
        return gzero(tm.slice_seq(sh, n, length(sh)))
    if t.h == "poly":
        items = t.a[0]
        r = ZERO
        ok = all(len(mono) == 1 and mono[0][1] == 1 for co, mono in items)
        if ok:
            for co, mono in items:
                r = add(r, mul(c(co), gi(mono[0][0], idx)))
            return r
    if t.h == "gct":
        ext = t.a[0][0]
        fvars, (body, bidx) = tm.open_(t)
        rules = Rules()
        rest = align(bidx.a[1], segs, rules)
        if rest is None and length(bidx) is length(idx):
            rules = Rules()
            if bind_all(bidx.a[1], idx, rules):
                rest = []
        if rest is not None:
            b2 = rules.apply(body)
            if not rest:
                return b2
            rx = rules.apply(mk("seq", "tuple", tuple(rest)))
            return gct(b2, rx, tm.slice_seq(ext, length(idx), length(ext)))
    if t.h == "garr":
        r = arr_index(t.a[0], idx)
        if r is not None:
            return r
    return mk("gi", t, idx)


def arr_index(a, idx):
    if a.h == "arr" and all(s.h == "el" for s in idx.a[1]):
        ks = [s.a[0] for s in idx.a[1]]
        if all(tm.is_int_const(k) for k in ks) and len(ks) == len(a.a[0]):
            pos = 0
            for k, n in zip(ks, a.a[0]):
                if not 0 <= k.a[0] < n:
                    return tm.top("index out of range")
                pos = pos * n + k.a[0]
            return a.a[1][pos]
    if a.h == "sview":
        r = views.gem_index(a, idx)
        return None if r is None else r if r.h != "sview" else garr(r)
    if a.h == "seq":
        first = idx.a[1][0]
        if first.h == "el" and tm.is_int_const(first.a[0]):
            x = at(a, first.a[0])
            if len(idx.a[1]) == 1:
                return x if x.h != "seq" else garr(x)
            return arr_index(x, mk("seq", "tuple", idx.a[1][1:]))
        if first.h == "el" and len(idx.a[1]) == 1 and len(a.a[1]) == 1 and a.a[1][0].h in ("fm", "sp"):
            x = at(a, first.a[0])
            if x.h != "seq" and first.a[0].h != "ix":
                return x
    return None


def gzero(shape):
    if shape.h == "ite":
        return lift(gzero, shape)
    if length(shape) is ZERO:
        return ZERO
    return mk("gzero", as_idx(shape))


def garr(a):
    if a.h == "ite":
        return lift(garr, a)
    if a.h == "c" or ty(a) in tm.NUMERIC:
        return a
    if a.h == "arr" and not a.a[0]:
        return a.a[1][0]
    if a.h in ("arr",) and all(x is ZERO for x in a.a[1]):
        return gzero(seq_of("tuple", [c(n) for n in a.a[0]]))
    if a.h == "app" and a.a[0] is mk("ext", "numpy.zeros") and a.a[1]:
        s = views.tuple_of(a.a[1][0])
        if s is not None:
            return gzero(s)
    if a.h == "sview":
        idx = []
        for g in a.a[1].a[1]:
            F = fresh("ixf")
            if g.h == "el":
                EXTENT[F] = ((), g.a[0])
                idx.append(el(mk("ix", F, ())))
            else:
                n = length(mk("seq", "tuple", (g,)))
                u = fresh("int")
                tm.RANGE_OF[u] = n
                EXTENT[F] = ((u,), at(mk("seq", "tuple", (g,)), u))
                idx.append(tm.fm_seg(n, u, seq_of("list", [mk("ix", F, (u,))])))
        idx = mk("seq", "tuple", tuple(idx))
        r = views.gem_index(a, idx)
        if r is not None and r.h != "sview":
            return gct(r, idx, a.a[1])
    return mk("garr", a)


def bound_dep(t, pats):
    for p in pats:
        F = p[0]
        if F in ("seq", "term"):
            if tm.occurs_any(t, {p[1]}):
                return True
        elif not isinstance(F, str) and depends(t, F):
            return True
    return False


def canon(body, idx, pats):
    """Rename the bound families to fresh variables whose arguments are just the family variables."""
    rules = Rules()
    fv = []
    seen = {}
    for F, pat, vs in pats:
        if isinstance(F, str):
            continue
        key = (F, tuple(p if p not in vs else None for p in pat))
        if F in seen and seen[F][0] != key:
            # two families of one allocation: keep apart
            G = fresh("ixf")
            fv.append(G)
        elif F in seen:
            G = seen[F][1]
        else:
            G = fresh("ixf")
            fv.append(G)
            seen[F] = (key, G)
        rules.add(F, pat, vs, mk("ix", G, vs))
    return fv, rules.apply(body), rules.apply(idx)


def gct(body, idx, ext=None):
    if body.h == "ite" or idx.h == "ite":
        return lift(lambda b, i: gct(b, i, ext), body, idx)
    for x in (body, idx):
        if x.h == "top":
            return x
    idx = as_idx(idx)
    segs = tuple(s for s in idx.a[1] if not (s.h == "sp" and length(s.a[0]) is ZERO))
    if not segs:
        return body
    if segs != idx.a[1]:
        idx = mk("seq", "tuple", segs)
    if ext is None:
        ext = as_idx(extents(idx))
    if body is ZERO:
        return gzero(ext)
    if body.h == "poly":
        items = body.a[0]
        if len(items) > 1 or items[0][0] != 1:
            r = ZERO
            for co, mono in items:
                r = add(r, mul(c(co), gct(tm._from_items([(tm.Fraction(1), mono)]), idx, ext)))
            return r
    pats = patterns(segs)
    if body.h == "gi":
        t, idx2 = body.a
        k = len(segs)
        if len(idx2.a[1]) >= k and idx2.a[1][len(idx2.a[1]) - k:] == segs:
            pre = mk("seq", "tuple", idx2.a[1][:len(idx2.a[1]) - k])
            if not bound_dep(t, pats) and not bound_dep(pre, pats) and not any(p[0] in ("const", "bad") for p in pats if isinstance(p[0], str)):
                return gi(t, pre)
    fv, b2, i2 = canon(body, idx, pats)
    return tm.close("gct", (ext,), fv, [b2, i2])


def gdelta(i, j):
    if i.h == "ite" or j.h == "ite":
        return lift(gdelta, i, j)
    if i is j:
        return ONE
    if ty(i) == "int" and ty(j) == "int":
        return ite(eq(i, j), ONE, ZERO)
    if j < i:
        i, j = j, i
    return mk("gdelta", i, j)


def gsum(body, idx):
    if body.h == "ite" or idx.h == "ite":
        return lift(gsum, body, idx)
    for x in (body, idx):
        if x.h == "top":
            return x
    idx = as_idx(idx)
    segs = [s for s in idx.a[1] if not (s.h == "sp" and length(s.a[0]) is ZERO)]
    if not segs:
        return body
    items = tm._poly_items(body)
    if items is None:
        items = [(tm.Fraction(1), ((body, 1),))]
    r = ZERO
    for co, mono in items:
        r = add(r, mul(c(co), gsum_mono(mono, segs)))
    return r


def gsum_mono(mono, segs):
    segs = list(segs)
    fac = []
    work = list(mono)
    while work:
        x, e = work.pop()
        if x.h == "gsum" and e == 1:
            fvars, (b, i) = tm.open_(x)
            segs.extend(i.a[1])
            its = tm._poly_items(b)
            if its is not None and len(its) == 1 and its[0][0] == 1:
                work.extend(its[0][1])
            else:
                fac.append((b, 1))
        else:
            fac.append((x, e))
    # delta elimination
    changed = True
    while changed:
        changed = False
        for k, (x, e) in enumerate(fac):
            if e != 1:
                continue
            r = delta_rule(x, segs)
            if r is None:
                continue
            s, rules = r
            segs.remove(s)
            rest = fac[:k] + fac[k + 1:]
            val = ONE
            for y, f in rest:
                val = mul(val, tm.power(rules.apply(y), c(f)) if f != 1 else rules.apply(y))
            if not segs:
                return val
            return gsum(val, mk("seq", "tuple", tuple(segs)))
    # connected components
    groups = []     # (list of segs, list of factors)
    loose = []
    pats = [(s, patterns((s,))) for s in segs]
    for x, e in fac:
        mine = [s for s, p in pats if bound_dep(x, p)]
        if not mine:
            loose.append((x, e))
            continue
        merged = ([], [(x, e)])
        keep = []
        for g in groups:
            if any(s in g[0] for s in mine):
                merged[0].extend(g[0])
                merged[1].extend(g[1])
            else:
                keep.append(g)
        for s in mine:
            if s not in merged[0]:
                merged[0].append(s)
        groups = keep + [merged]
    used = [s for g in groups for s in g[0]]
    r = tm._from_items([(tm.Fraction(1), tuple(sorted(loose, key=lambda xe: xe[0].dig)))]) if loose else ONE
    for s in segs:
        if s not in used:
            groups.append(([s], []))
    for ss, fs in groups:
        r = mul(r, gsum_atom(ss, fs))
    return r


def gsum_atom(segs, fac):
    body = ONE
    for x, e in fac:
        body = mul(body, tm.power(x, c(e)) if e != 1 else x)
    if len(segs) > 1:
        segs = order_segs(segs, body)
    idx = mk("seq", "tuple", tuple(segs))
    pats = patterns(segs)
    fv, b2, i2 = canon(body, idx, pats)
    return tm.close("gsum", (), fv, [b2, i2])


def order_segs(segs, body):
    sig = {s: b"" for s in segs}
    fams = {s: [p for p in patterns((s,))] for s in segs}
    for _ in range(2):
        new = {}
        for s in segs:
            m = {}
            for t in segs:
                for k, p in enumerate(fams[t]):
                    if not isinstance(p[0], str):
                        m[p[0]] = mk("mark", "self" if t is s else sig[t], k)
            b = subst(body, m) if m else body
            shape = subst(mk("box", s), m) if m else mk("box", s)
            new[s] = b.dig + shape.dig
        sig = new
    return sorted(segs, key=lambda s: sig[s])


def delta_rule(x, segs):
    if x.h == "gdelta":
        for i, j in ((x.a[0], x.a[1]), (x.a[1], x.a[0])):
            for s in segs:
                if s.h == "el" and s.a[0] is i and i.h == "ix":
                    rules = Rules()
                    rules.add(i.a[0], i.a[1], (), j)
                    return s, rules
    if x.h == "prod":
        n = x.a[0][0]
        (v,), (b,) = tm.open_(x)
        if b.h == "gdelta":
            for i, j in ((b.a[0], b.a[1]), (b.a[1], b.a[0])):
                if i.h != "ix":
                    continue
                for s in segs:
                    if s.h == "fm" and s.a[0][0] is n:
                        y = tm._single(tm.inst_binder(s, [v])[0])
                        if y is i and not depends(j, i.a[0]):
                            rules = Rules()
                            rules.add(i.a[0], i.a[1], (v,), j)
                            return s, rules
    return None


@tm.rebuilds("gi")
def _rb_gi(h, t, idx):
    return gi(t, idx)


@tm.rebuilds("gct")
def _rb_gct(h, outer, fvars, bodies):
    return gct(bodies[0], bodies[1], outer[0])


@tm.rebuilds("gsum")
def _rb_gsum(h, outer, fvars, bodies):
    return gsum(bodies[0], bodies[1])


@tm.rebuilds("gdelta")
def _rb_gdelta(h, i, j):
    return gdelta(i, j)


@tm.rebuilds("gzero")
def _rb_gzero(h, s):
    return gzero(s)


@tm.rebuilds("garr")
def _rb_garr(h, s):
    return garr(s)


def shape_of(t):
    if t.h == "ite":
        return lift(shape_of, t)
    if t.h == "gct":
        return t.a[0][0]
    if t.h == "gzero":
        return t.a[0]
    if t.h in ("gsum", "gdelta") or t.h == "c" or ty(t) in ("int", "num"):
        return mk("seq", "tuple", ())
    if t.h == "gi":
        sh = shape_of(t.a[0])
        n = length(t.a[1])
        return tm.slice_seq(sh, n, length(sh))
    if t.h == "poly":
        for co, mono in t.a[0]:
            if len(mono) == 1 and mono[0][1] == 1:
                return shape_of(mono[0][0])
        return mk("seq", "tuple", ())
    if t.h == "prod":
        return mk("seq", "tuple", ())
    if t.h == "garr":
        a = t.a[0]
        if a.h == "arr":
            return seq_of("tuple", [c(n) for n in a.a[0]])
        return tm.attr(a, "shape")
    if is_variable(t):
        return t.a[1][1]
    return tm.attr(t, "shape")


def is_variable(t):
    return t.h == "app" and t.a[0] is mk("ext", "gem.Variable") and len(t.a[1]) == 2 and not any(x.h == "sp" for x in t.a[1])


from . import views  # noqa: E402
