"""Abstract transfer functions of Python built-ins and the standard library."""
from . import terms as tm
from . import interp as ip
from .interp import Interp, AnalysisError, EMPTY_DICT, EMPTY_LIST, EMPTY_TUPLE, UNBOUND, CLASSES, FUNCS, PYF
from .extern import subclass as _subclass
from .terms import (mk, c, NONE, TRUE, FALSE, ZERO, ONE, isc, ext, top, fresh, ty, ite, lift, and_, or_, not_, as_bool,
                    eq, add, sub, mul, seq, seq_of, el, sp, length, at, dict_, en, sel, subst, depends, map_leaves,
                    leaves, atom)

MODELS = {}


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


def B(n):
    return "builtins." + n


# ------------------------------------------------------------ helpers

def seqarg(I, x):
    """sequence term of an iterable argument"""
    return I.as_seq(x)


def new_list(I, s):
    return I.alloc(("list", I.seqval(s)))


def as_tuple(s):
    return map_leaves(s, lambda a: mk("seq", "tuple", a.a[1]) if a.h == "seq" else seq("tuple", [sp(a)]))


def map_loop(I, it, f):
    """[f(x) for x in it] as a list contents term; runs f abstractly"""
    acc = I.new_list()
    loc = ("c", acc.a[0])

    def body(x):
        v = f(x)
        cell = I.cell(acc)
        I.setcell(acc, ("list", lift(lambda s: seq("list", [sp(s), el(v)]), cell[1])))
    I.run_loop(it, body, (), (loc,))
    return I.cell(acc)[1]


def zip_segs(I, seqs):
    """sequence of tuples"""
    for i, s in enumerate(seqs):
        if s.h == "ite":
            g, x, y = s.a
            return ite(atom(g), zip_segs(I, seqs[:i] + [x] + seqs[i + 1:]), zip_segs(I, seqs[:i] + [y] + seqs[i + 1:]))
    if not seqs:
        return EMPTY_LIST
    lens = [I.simp(length(s)) for s in seqs]
    concrete = [n.a[0] for n in lens if tm.is_int_const(n)]
    if concrete:
        n = min(concrete)
        # sequences of unknown length are assumed to match
        return seq_of("list", [seq_of("tuple", [at(s, c(k)) for s in seqs]) for k in range(n)])
    best = 0
    for i in range(1, len(seqs)):
        d = sub(lens[i], lens[best])
        if tm.is_int_const(d):
            if d.a[0] < 0:
                best = i
            elif d.a[0] == 0 and len(tm.segs_of(seqs[i])) > len(tm.segs_of(seqs[best])):
                best = i
    for i in range(len(seqs)):
        if i != best and lens[i].h == "len" and lens[best].h == "len" and lens[i] is not lens[best]:
            tm.uf_union(lens[i], lens[best])
    drv = seqs[best]

    def f(x, pos):
        return seq_of("list", [seq_of("tuple", [x if i == best else at(s, pos) for i, s in enumerate(seqs)])])
    return tm.map_seq("list", drv, f)


# ------------------------------------------------------------ builtins

@model(B("len"))
def _len(I, args, kw):
    return I.builtin_len(args[0])


@model(B("range"))
def _range(I, args, kw):
    a = [I.simp(I.freeze(x)) for x in args]
    if len(a) == 1:
        lo, hi, st = ZERO, a[0], ONE
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], ONE
    else:
        lo, hi, st = a
    return lift(_range3, lo, hi, st)


def _range3(lo, hi, st):
    if tm.is_int_const(st) and st.a[0] == 1:
        n = sub(hi, lo)
        if tm.is_int_const(n):
            if tm.is_int_const(lo):
                return seq_of("list", [c(i) for i in range(lo.a[0], hi.a[0])])
            return seq_of("list", [add(lo, c(i)) for i in range(max(0, n.a[0]))])
        if n.h == "ite":
            return lift(lambda m: _range3(lo, add(lo, m), st), n)
        v = fresh("int")
        tm.RANGE_OF[v] = n
        return seq("list", [tm.fm_seg(n, v, seq_of("list", [add(lo, v)]))])
    if tm.is_int_const(lo) and tm.is_int_const(hi) and tm.is_int_const(st):
        return seq_of("list", [c(i) for i in range(lo.a[0], hi.a[0], st.a[0])])
    if st is c(-1):
        n = sub(lo, hi)
        v = fresh("int")
        tm.RANGE_OF[v] = n
        return seq("list", [tm.fm_seg(n, v, seq_of("list", [sub(lo, v)]))])
    # positive stride dividing the interval is assumed
    n = tm.floordiv(add(sub(hi, lo), sub(st, ONE)), st)
    v = fresh("int")
    tm.RANGE_OF[v] = n
    return seq("list", [tm.fm_seg(n, v, seq_of("list", [add(lo, mul(st, v))]))])


@model(B("enumerate"))
def _enumerate(I, args, kw):
    s = seqarg(I, args[0])
    start = kw.get("start", args[1] if len(args) > 1 else ZERO)
    r = lift(lambda t: tm.map_seq("list", t, lambda x, i: seq_of("list", [seq_of("tuple", [add(start, i), x])])), s)
    return I.alloc(("iter", r, ZERO))


@model(B("zip"))
def _zip(I, args, kw):
    if any(a.h == "sp" for a in args):
        return _zip_star(I, args)
    r = zip_segs(I, [seqarg(I, a) for a in args])
    return I.alloc(("iter", r, ZERO))


def _zip_star(I, args):
    """zip(*S): transpose of a sequence of sequences of unknown number"""
    if len(args) == 1 and args[0].h == "sp":
        s = I.freeze(args[0].a[0])
        return mk("zipstar", s)
    return mk("zipstar", seq("tuple", [a if a.h == "sp" else el(I.freeze(a)) for a in args]))


@model("itertools.product")
def _product(I, args, kw):
    rep = kw.get("repeat")
    seqs = []
    for a in args:
        if a.h == "sp":
            return _cart(I, args, rep)
        seqs.append(seqarg(I, a))
    if rep is not None:
        rep = I.simp(rep)
        if tm.is_int_const(rep):
            seqs = seqs * rep.a[0]
        else:
            return I.alloc(("iter", seq("list", [sp(mk("cart", mk("rep", I.freeze(seq_of("tuple", seqs)), rep)))]), ZERO))
    r = _prod_segs(I, seqs)
    return I.alloc(("iter", r, ZERO))


def _prod_segs(I, seqs):
    r = seq_of("list", [EMPTY_TUPLE])
    for s in seqs:
        def step(p, s=s):
            return tm.map_seq("list", p, lambda x, i: tm.map_seq("list", s, lambda y, j: seq_of("list", [
                seq("tuple", [sp(x), el(y)])])))
        r = lift(lambda p, q: tm.map_seq("list", p, lambda x, i: tm.map_seq(
            "list", q, lambda y, j: seq_of("list", [seq("tuple", [sp(x), el(y)])]))), r, s)
    return r


def _cart(I, args, rep):
    """cartesian product of an unknown number of sequences"""
    t = seq("tuple", [sp(I.freeze(a.a[0])) if a.h == "sp" else el(I.freeze(I.as_seq(a))) for a in args])
    # sets, dict keys and lists with the same members in the same order
    t = _norm_factors(t)
    return I.alloc(("iter", seq("list", [sp(mk("cart", t))]), ZERO))


def _norm_factors(t):
    def f(x):
        if x.h == "sp" and False:
            return x
        return x
    return t


@model(B("map"))
def _map(I, args, kw):
    f = args[0]
    if len(args) == 2:
        s = seqarg(I, args[1])
        r = map_loop(I, s, lambda x: I.call(f, [x], {}))
    else:
        s = zip_segs(I, [seqarg(I, a) for a in args[1:]])
        r = map_loop(I, s, lambda x: I.call(f, [at(x, c(k)) for k in range(len(args) - 1)], {}))
    return I.alloc(("iter", r, ZERO))


@model(B("filter"))
def _filter(I, args, kw):
    f = args[0]
    s = seqarg(I, args[1])
    acc = I.new_list()

    def body(x):
        cond = I.known(I.truth(x if f is NONE else I.call(f, [x], {})))

        def add_():
            cell = I.cell(acc)
            I.setcell(acc, ("list", lift(lambda t: seq("list", [sp(t), el(x)]), cell[1])))
        I.fork(cond, add_, lambda: None)
    I.run_loop(s, body, (), (("c", acc.a[0]),))
    return I.alloc(("iter", I.cell(acc)[1], ZERO))


@model(B("sum"))
def _sum(I, args, kw):
    s = seqarg(I, args[0])
    start = kw.get("start", args[1] if len(args) > 1 else ZERO)
    return lift_ref(I, s, lambda t: sum_terms(I, t, start))


def lift_ref(I, s, f):
    if s.h == "ite":
        g, x, y = s.a
        return I.fork(atom(g), lambda: lift_ref(I, x, f), lambda: lift_ref(I, y, f))
    return f(s)


def sum_terms(I, s, start):
    fs = I.freeze(s)
    if fs.h == "ite":
        return lift(lambda t: sum_terms(I, t, start), fs)
    st = I.contents(start) if start.h == "ref" else start
    if st.h == "seq":
        segs = [sp(st)]
        for g in tm.segs_of(fs):
            if g.h == "el":
                segs.append(sp(I._as_seq_pure(g.a[0])))
            elif g.h == "sp":
                n = length(g.a[0])
                v = fresh("int")
                tm.RANGE_OF[v] = n
                segs.append(tm.fm_seg(n, v, seq("list", [sp(at(g.a[0], v))])))
            else:
                (v,), (b,) = tm.open_(g)
                n = g.a[0][0]
                tm.RANGE_OF[v] = n
                b2 = map_leaves(b, lambda x: tm.map_seq("list", x, lambda y, i: I._as_seq_pure(y)))
                segs.append(tm.fm_seg(n, v, map_leaves(b2, lambda x: mk("seq", "list", x.a[1]) if x.h == "seq" else x)))
        r = seq(st.a[0], segs)
        if start.h == "ref":
            return I.alloc(("list", r))
        return r
    # numeric (or gem scalar) accumulation
    ets = tm.ty(fs)
    if all(g.h == "el" for g in tm.segs_of(s)):
        r = start
        for g in tm.segs_of(s):
            r = I.binop("+", r, g.a[0])
        return r
    return tm.sum_seq(fs, start)


@model(B("all"))
def _all(I, args, kw):
    s = seqarg(I, args[0])
    return lift(lambda t: tm.all_seq(t, I.truth), s)


@model(B("any"))
def _any(I, args, kw):
    s = seqarg(I, args[0])
    return lift(lambda t: tm.any_seq(t, I.truth), s)


def _minmax(which):
    def f(I, args, kw):
        if len(args) == 1 and args[0].h != "sp":
            s = I.freeze(seqarg(I, args[0]))
        else:
            s = seq("list", [sp(I.freeze(a.a[0])) if a.h == "sp" else el(I.freeze(a)) for a in args])
        if not kw and s.h == "seq" and len(s.a[1]) > 1 and all(g.h == "el" for g in s.a[1]):
            how = "__gt__" if which == "max" else "__lt__"
            if any(q is not None and I.class_lookup(q, how) is not None for q in (I.inst_class(g.a[0]) for g in s.a[1])):
                return I.call(I.frame_get(I.prelude.frame, which + "_by_comparison"), [s], {})
        if "key" in kw and kw["key"] is not NONE:
            if s.h == "seq" and s.a[1] and all(g.h == "el" for g in s.a[1]):
                if len(s.a[1]) == 1:
                    return s.a[1][0].a[0]
                ks = [I.freeze(I.call(kw["key"], [g.a[0]], {})) for g in s.a[1]]
                if all(tm._constlike(k) for k in ks):
                    try:
                        # the first of the extreme ones
                        pick = (max if which == "max" else min)(range(len(ks)), key=lambda i: tm._pyval(ks[i]))
                        return s.a[1][pick].a[0]
                    except TypeError:
                        pass
            k = I.freeze(kw["key"])
            return mk("maxk", which, s, k)
        r = tm.minmax(which, s)
        if "default" in kw:
            return lift(lambda t: ite(eq(length(t), ZERO), kw["default"], tm.minmax(which, t)), s)
        return r
    return f


MODELS[B("max")] = _minmax("max")
MODELS[B("min")] = _minmax("min")


@model(B("sorted"))
def _sorted(I, args, kw):
    s = I.freeze(seqarg(I, args[0]))
    key = kw.get("key")
    rev = kw.get("reverse", FALSE)
    if key is not None and key is not NONE:
        if s.h == "ite":
            a, x, y = I.simp(s).a if I.simp(s).h == "ite" else (None, I.simp(s), None)
            if a is None:
                return _sorted(I, [x], kw)
            return I.fork(atom(a), lambda: _sorted(I, [x], kw), lambda: _sorted(I, [y], kw))
        if s.h == "seq" and all(g.h == "el" for g in s.a[1]):
            ks = [I.freeze(I.call(key, [g.a[0]], {})) for g in s.a[1]]
            if all(tm._constlike(k) for k in ks):
                try:
                    order = sorted(range(len(ks)), key=lambda i: tm._pyval(ks[i]), reverse=rev is TRUE)
                    return new_list(I, seq_of("list", [s.a[1][i].a[0] for i in order]))
                except TypeError:
                    pass
            if len(ks) <= 1:
                return new_list(I, s)
            if len(ks) <= 3 and rev in (TRUE, FALSE) and all(ty(k) in ("int", "num", "str") for k in ks):
                return I.call(I.frame_get(I.prelude.frame, "sorted_by_key"), [s, seq_of("list", ks), rev], {})
        return new_list(I, seq("list", [sp(mk("sortedk", s, I.freeze(key), rev))]))
    items = tm.set_order(s) if s.h == "set" else s
    if rev is FALSE and items.h == "seq" and 2 <= len(items.a[1]) <= 4 and all(g.h == "el" for g in items.a[1]):
        qs = [I.inst_class(g.a[0]) for g in items.a[1]]
        if all(q is not None and I.class_lookup(q, "__lt__") is not None for q in qs):
            return I.call(I.frame_get(I.prelude.frame, "sorted_by_comparison"), [items], {})
    r = lift(lambda t: tm.sorted_(t.a[0] if t.h == "set" else t), s)
    r = map_leaves(r, lambda t: t if t.h == "seq" else seq("list", [sp(t)]))
    if rev is TRUE:
        r = I.reverse(r)
    return new_list(I, r)


@model(B("reversed"))
def _reversed(I, args, kw):
    return I.alloc(("iter", I.reverse(seqarg(I, args[0])), ZERO))


@model(B("tuple"))
def _tuple(I, args, kw):
    if not args:
        return EMPTY_TUPLE
    x = args[0]
    if x.h == "seq" and x.a[0] == "tuple":
        return x
    s = seqarg(I, x)
    return as_tuple(s)


@model(B("list"))
def _list(I, args, kw):
    if not args:
        return I.new_list()
    return new_list(I, seqarg(I, args[0]))


@model(B("set"), B("frozenset"))
def _set(I, args, kw):
    if not args:
        return I.alloc(("set", tm.set_(EMPTY_LIST)))
    return I.alloc(("set", tm.set_(I.freeze(seqarg(I, args[0])))))


@model("builtins.dict.fromkeys")
def _fromkeys(I, args, kw):
    return I.call(I.frame_get(I.prelude.frame, "dict_fromkeys"), args, {})


@model(B("dict"), "collections.OrderedDict")
def _dict(I, args, kw):
    d = EMPTY_DICT
    if args:
        x = args[0]
        if x.h == "ref" and I.cell(x)[0] == "dict":
            d = I.cell(x)[1]
        elif x.h == "dict" or (isinstance(ty(x), tuple) and ty(x)[0] == "dict"):
            d = x if x.h == "dict" else dict_([sp(x)])
        else:
            s = seqarg(I, x)
            ref = I.new_dict()

            def body(kv):
                k = I.freeze(at(kv, ZERO)) if kv.h != "ref" else I.freeze(I.getitem(kv, ZERO))
                v = at(kv, ONE) if kv.h != "ref" else I.getitem(kv, ONE)
                I.setcell(ref, ("dict", I.dict_set(I.cell(ref)[1], k, v)))
            I.run_loop(s, body, (), (("c", ref.a[0]),))
            d = I.cell(ref)[1]
    for k, v in kw.items():
        if k == "**":
            d = dict_([sp(d), sp(v)])
        else:
            d = I.dict_set(d, c(k), v)
    return I.new_dict(d)


def _own(I, o, name):
    """the conversion an instance of an analysed class defines"""
    if o.h == "ref" and I.cell(o)[0] == "inst":
        q = I.cell(o)[1]
    elif o.h == "inst":
        q = o.a[0].a[0]
    else:
        return None
    return I.call_method(o, name, []) if I.class_lookup(q, name) is not None else None


@model(B("int"))
def _int(I, args, kw):
    if not args:
        return ZERO
    r = _own(I, args[0], "__int__")
    if r is not None:
        return r

    def f(x):
        if ty(x) in ("int", "bool"):
            return tm._nb(x)
        if isc(x):
            try:
                return c(int(x.a[0]))
            except Exception:
                pass
        return tm_app("builtins.int", x)
    return lift(f, I.freeze(args[0]))


def tm_app(name, *args):
    return mk("app", mk("ext", name), tuple(args), ())


@model(B("float"))
def _float(I, args, kw):
    r = _own(I, args[0], "__float__") if args else None
    if r is not None:
        return r

    def f(x):
        if ty(x) in ("int", "num"):
            return x
        if tm.is_str_const(x) and x.a[0] in ("inf", "-inf", "nan"):
            return tm_app("builtins.float", x)
        if tm.is_str_const(x):
            try:
                return c(float(x.a[0]))
            except ValueError:
                pass
        return tm_app("builtins.float", x)
    return lift(f, I.freeze(args[0])) if args else ZERO


@model(B("bool"))
def _bool(I, args, kw):
    return I.truth(args[0]) if args else FALSE


@model(B("str"))
def _str(I, args, kw):
    return I.to_str(args[0], "") if args else c("")


@model(B("repr"))
def _repr(I, args, kw):
    return I.to_str(args[0], "r")


@model(B("format"))
def _format(I, args, kw):
    if len(args) == 1:
        return I.to_str(args[0], "")
    return tm.fmt(I.freeze(args[0]), args[1].a[0] if isc(args[1]) else "?")


@model(B("hash"))
def _hash(I, args, kw):
    q = I.inst_class(args[0])
    if q is not None and I.class_lookup(q, "__hash__") is not None:
        return I.call_method(args[0], "__hash__", [])
    return tm_app("builtins.hash", I.freeze(args[0]))


@model(B("id"))
def _id(I, args, kw):
    if args[0].h == "ref":
        return mk("ident", args[0].a[0])
    return tm_app("builtins.id", I.freeze(args[0]))


@model(B("type"))
def _type(I, args, kw):
    if len(args) == 1:
        return I.type_of(args[0])
    return None


@model(B("isinstance"))
def _isinstance(I, args, kw):
    return I.isinstance(args[0], args[1])


@model(B("issubclass"))
def _issubclass(I, args, kw):
    a, b = args

    def one(x, y):
        if y.h == "seq":
            return or_(*[one(x, s.a[0]) for s in y.a[1]])
        if x.h == "cls":
            return TRUE if y in CLASSES[x.a[0]].mro else FALSE
        return atom(mk("issub", x, y))
    return one(a, b)


@model(B("hasattr"))
def _hasattr(I, args, kw):
    x, n = args
    q = I.inst_class(x)
    if q is not None and tm.is_str_const(n):
        attrs = I.cell(x)[2] if x.h == "ref" else dict(x.a[1])
        if n.a[0] in attrs or I.class_lookup(q, n.a[0]) is not None:
            return TRUE
        if I.known_bases(q):
            return FALSE
    return atom(mk("hasattr", I.freeze(x), n.a[0] if isc(n) else n))


@model(B("getattr"))
def _getattr(I, args, kw):
    x, n = args[0], args[1]
    if not tm.is_str_const(n):
        return top("getattr with computed name")
    if len(args) > 2:
        return I.getattr(x, n.a[0], None, args[2])
    return I.getattr(x, n.a[0])


@model(B("setattr"))
def _setattr(I, args, kw):
    if tm.is_str_const(args[1]):
        I.setattr(args[0], args[1].a[0], args[2])
        return NONE
    raise AnalysisError("setattr with computed name")


@model(B("callable"))
def _callable(I, args, kw):
    x = args[0]
    if x.h in ("fn", "bound", "cls", "lam", "partial", "bm"):
        return TRUE
    if isc(x) or x.h in ("seq", "poly"):
        return FALSE
    return atom(mk("callable", I.freeze(x)))


@model(B("abs"))
def _abs(I, args, kw):
    def f(x):
        if tm.is_num_const(x):
            return c(abs(x.a[0]))
        return mk("abs", tm.norm_sign(x) if ty(x) in tm.NUMERIC and x.h == "poly" and False else x)
    return lift(f, I.freeze(args[0]))


@model(B("round"))
def _round(I, args, kw):
    return tm_app("builtins.round", *[I.freeze(a) for a in args])


@model(B("divmod"))
def _divmod(I, args, kw):
    a, b = I.freeze(args[0]), I.freeze(args[1])
    return seq_of("tuple", [tm.floordiv(a, b), tm.mod(a, b)])


@model(B("pow"))
def _pow(I, args, kw):
    return tm.power(I.freeze(args[0]), I.freeze(args[1]))


@model(B("slice"))
def _slice(I, args, kw):
    a = [I.freeze(x) for x in args]
    if len(a) == 1:
        a = [NONE, a[0]]
    if len(a) == 2:
        a = a + [NONE]
    return mk("slc", *a)


@model(B("iter"))
def _iter(I, args, kw):
    x = args[0]
    if x.h == "ref" and I.cell(x)[0] == "iter":
        return x
    return I.alloc(("iter", seqarg(I, x), ZERO))


@model(B("next"))
def _next(I, args, kw):
    x = args[0]
    if x.h != "ref" or I.cell(x)[0] != "iter":
        if ty(x) is not None and ty(x)[0] == "iter":
            raise AnalysisError("next() on a symbolic iterator")
        return top("next on unknown")
    cell = I.cell(x)
    s, pos = cell[1], cell[2]
    if s.h == "ite":
        s = I.simp(s)
    n = length(s)
    r = lift(at, s, pos)
    if tm.is_int_const(n) and tm.is_int_const(pos) and pos.a[0] >= n.a[0]:
        if len(args) > 1:
            return args[1]
        I.raise_(mk("exc", "StopIteration", ()))
    if len(args) > 1:
        # next(it, default)
        have = I.known(tm.lt(pos, n))

        def more():
            I.setcell(x, ("iter", s, add(pos, ONE)))
            return r
        return I.fork(have, more, lambda: args[1])
    I.setcell(x, ("iter", s, add(pos, ONE)))
    return r


@model(B("print"), "warnings.warn", "logging.warning")
def _print(I, args, kw):
    return NONE


@model(B("object"))
def _object(I, args, kw):
    ip._uid[0] += 1
    return mk("obj", ip._uid[0])


@model("ufl.sobolevspace.SobolevSpace.__init__")
def _sobolev_space(I, args, kw):
    kw = dict(zip(("self", "name", "parents"), args), **kw)
    I.setattr(kw["self"], "name", kw["name"])
    I.setattr(kw["self"], "parents", kw.get("parents", NONE))
    return NONE


@model("builtins.object.__new__")
def _object_new(I, args, kw):
    cls = args[0]
    if cls.h != "cls":
        return top("object.__new__")
    return I.alloc(("inst", cls.a[0], {}))


@model(B("vars"))
def _vars(I, args, kw):
    return I.getattr(args[0], "__dict__")


for _e in ("Exception", "ValueError", "TypeError", "NotImplementedError", "KeyError", "IndexError", "RuntimeError", "AssertionError",
           "AttributeError", "ImportError", "RecursionError", "StopIteration", "ZeroDivisionError", "NameError", "ArithmeticError", "DeprecationWarning",
           "UserWarning"):
    def _mk(n):
        def f(I, args, kw):
            return mk("exc", n, tuple(I.freeze(a) for a in args if a.h != "sp"))
        return f
    MODELS[B(_e)] = _mk(_e)


# ------------------------------------------------------------ itertools / functools / operator

@model("itertools.chain")
def _chain(I, args, kw):
    segs = []
    for a in args:
        if a.h == "sp":
            # chain(*S)
            segs.append(sp(_flatten(I, a.a[0])))
        else:
            segs.append(sp(I.as_seq(a)))
    return I.alloc(("iter", seq("list", segs), ZERO))


def _flatten(I, s):
    """concatenation of the sequences in s"""
    s = I.as_seq(s) if s.h == "ref" else s
    if s.h == "ite":
        return lift(lambda t: _flatten(I, t), s)
    fs = I.freeze(s) if s.h != "seq" or not all(g.h == "el" for g in s.a[1]) else s
    if fs.h == "ite":
        return lift(lambda t: _flatten(I, t), fs)
    return tm.map_seq("list", fs, lambda x, i: map_leaves(I.seqval(I.as_seq(x) if x.h == "ref" else I._as_seq_pure(x)), lambda y: y))


@model("itertools.chain.from_iterable")
def _chain_fi(I, args, kw):
    return I.alloc(("iter", _flatten(I, args[0]), ZERO))


@model("itertools.repeat")
def _repeat(I, args, kw):
    if len(args) > 1 or "times" in kw:
        n = I.freeze(args[1] if len(args) > 1 else kw["times"])
        x = args[0]
        return I.alloc(("iter", lift(lambda m: I.repeat(seq_of("list", [x]), m), n), ZERO))
    return mk("repeat_forever", I.freeze(args[0]))


@model("itertools.count")
def _count(I, args, kw):
    return mk("count", args[0] if args else ZERO)


@model("itertools.accumulate")
def _accumulate(I, args, kw):
    s = I.freeze(seqarg(I, args[0]))
    if len(args) == 1:
        pre = [] if "initial" not in kw else [el(kw["initial"])]
        start = kw.get("initial", ZERO)
        r = lift(lambda t: seq("list", pre + [sp(prefix_sums(t, start))]), s)
        return I.alloc(("iter", r, ZERO))
    return None


def prefix_sums(s, start=ZERO):
    """[start+s0, start+s0+s1, ...]"""
    segs = []
    tot = start
    for g in tm.segs_of(s):
        if g.h == "el":
            tot = add(tot, g.a[0])
            segs.append(el(tot))
        else:
            if g.h == "sp":
                n = length(g.a[0])
                elem = (lambda w, x=g.a[0]: at(x, w))
            else:
                n = g.a[0][0]
                elem = (lambda w, g=g: tm._single(tm.inst_binder(g, [w])[0]))
            v = fresh("int")
            u = fresh("int")
            tm.RANGE_OF[v] = n
            body = elem(u)
            if body is None:
                return seq("list", [sp(mk("cumsum", s, start))])
            segs.append(tm.fm_seg(n, v, seq_of("list", [add(tot, tm.sum_(add(v, ONE), u, body))])))
            u2 = fresh("int")
            tot = add(tot, tm.sum_(n, u2, elem(u2)))
    return seq("list", segs)


@model("functools.partial")
def _partial(I, args, kw):
    return mk("partial", args[0], tuple(args[1:]), tuple(sorted(kw.items())))


@model("functools.reduce")
def _reduce(I, args, kw):
    f, it = args[0], seqarg(I, args[1])
    if len(args) > 2:
        acc = args[2]
        return fold(I, f, it, acc)
    return lift_ref(I, it, lambda t: _reduce1(I, f, t))


def _reduce1(I, f, t):
    segs = tm.segs_of(t)
    if segs and segs[0].h == "el":
        rest = seq("list", segs[1:])
        if not segs[1:]:
            return segs[0].a[0]
        if all(g.h == "el" for g in segs):
            return fold(I, f, rest, segs[0].a[0])
    if not segs:
        I.raise_name("TypeError", "reduce of empty sequence")
    # associative operations with a unit
    p = fresh("gs")
    q = fresh("gs")
    saved = I.st, I.sink
    I.st = I.st.copy()
    I.sink = []
    try:
        r = I.freeze(I.call(f, [p, q], {}))
    except ip.Dead:
        r = None
    finally:
        I.st, I.sink = saved
    if r is add(p, q):
        return tm.sum_seq(I.freeze(t))
    if r is mul(p, q):
        return tm.prod_seq(I.freeze(t))
    first = at(t, ZERO)
    rest = tm.slice_seq(t, ONE, length(t))
    return fold(I, f, rest, first)


def fold(I, f, it, init):
    fr = I.alloc(("frame", {"acc": init}, None))

    def body(x):
        acc = I.frame_get(fr, "acc")
        I.frame_set(fr, "acc", I.call(f, [acc, x], {}))
    I.run_loop(it, body)
    return I.frame_get(fr, "acc")


@model("operator.methodcaller")
def _methodcaller(I, args, kw):
    return mk("partial", mk("pyf", "methodcaller"), tuple(args), tuple(sorted(kw.items())))


def _mc(I, args, kw):
    # partial(methodcaller, name, *a)(obj)
    name, rest = args[0], args[1:]
    obj = rest[-1]
    return I.call_method(obj, name.a[0], rest[:-1], kw)


PYF["methodcaller"] = _mc


@model("operator.attrgetter")
def _attrgetter(I, args, kw):
    return mk("partial", mk("pyf", "attrgetter"), tuple(args), ())


PYF["attrgetter"] = lambda I, args, kw: I.getattr(args[-1], args[0].a[0])


@model("operator.itemgetter")
def _itemgetter(I, args, kw):
    return mk("partial", mk("pyf", "itemgetter"), tuple(args), ())


PYF["itemgetter"] = lambda I, args, kw: I.getitem(args[-1], args[0])

for _n, _o in (("add", "+"), ("sub", "-"), ("mul", "*"), ("truediv", "/"), ("floordiv", "//"), ("mod", "%"), ("pow", "**"),
               ("matmul", "@"), ("or_", "|"), ("and_", "&")):
    def _mkop(o):
        return lambda I, args, kw: I.binop(o, args[0], args[1])
    MODELS["operator." + _n] = _mkop(_o)
MODELS["operator.neg"] = lambda I, a, k: I.unop("-", a[0])
MODELS["operator.not_"] = lambda I, a, k: not_(I.truth(a[0]))
MODELS["operator.eq"] = lambda I, a, k: I.equals(a[0], a[1])
MODELS["operator.getitem"] = lambda I, a, k: I.getitem(a[0], a[1])


@model("copy.deepcopy", "copy.copy")
def _deepcopy(I, args, kw):
    f = I.freeze(args[0])
    return thaw(I, f)


def thaw(I, f):
    """fresh mutable copy of a frozen value"""
    if f.h == "seq" and f.a[0] == "list":
        if all(g.h == "el" for g in f.a[1]):
            return I.alloc(("list", seq_of("list", [thaw(I, g.a[0]) for g in f.a[1]])))
        return I.alloc(("list", f))
    if f.h == "dict":
        if all(g.h == "en" for g in f.a[0]):
            return I.alloc(("dict", dict_(tuple(en(g.a[0], thaw(I, g.a[1])) for g in f.a[0]))))
        return I.alloc(("dict", f))
    if isinstance(ty(f), tuple) and ty(f)[0] == "dict":
        return I.alloc(("dict", dict_([sp(f)])))
    if isinstance(ty(f), tuple) and ty(f)[0] == "list":
        return I.alloc(("list", seq("list", [sp(f)])))
    return f


@model("math.comb")
def _comb(I, args, kw):
    a, b = I.freeze(args[0]), I.freeze(args[1])

    def f(x, y):
        import math
        if tm.is_int_const(x) and tm.is_int_const(y):
            return c(math.comb(x.a[0], y.a[0]))
        if tm.is_int_const(y) and 0 <= y.a[0] <= 4 and ty(x) == "int":
            r = ONE
            for k in range(y.a[0]):
                r = mul(r, sub(x, c(k)))
            return tm.div(r, c(math.factorial(y.a[0])))
        return tm_app("math.comb", x, y)
    return lift(f, a, b)


# ------------------------------------------------------------ methods of built-in types

def bmethod(self, o, name, args, kw):
    I = self
    if o.h == "fn" or o.h == "bound":
        if name == "register":
            fo = FUNCS[o.a[0]]
            if len(args) == 2:
                fo.dispatch.append((args[0], args[1]))
                return args[1]
            if len(args) == 1:
                return mk("partial", mk("pyf", "sdreg"), (o, args[0]), ())
        return I.opaque_call(mk("attr", o, name), args, kw)
    if o.h == "ref":
        cell = I.cell(o)
        k = cell[0]
        if k == "list":
            return list_method(I, o, cell[1], name, args, kw)
        if k == "dict":
            return dict_method(I, o, cell[1], name, args, kw)
        if k == "set":
            return set_method(I, o, cell[1], name, args, kw)
        if k == "inst":
            if name == "__hash__":
                return tm_app("builtins.hash", I.freeze(o))
            if name in ("__eq__",):
                return I.equals(o, args[0])
            return I.opaque_call(mk("attr", I.freeze(o), name), args, kw)
        if k == "iter":
            if name == "__next__":
                return MODELS[B("next")](I, [o], {})
            return top("iterator method")
        if k == "arr":
            r = I.arr_method(o, cell, name, args, kw)
            if r is not None:
                return r
        if k == "any":
            return I.call(I.getattr(cell[1], name), args, kw)
        return I.opaque_call(mk("attr", I.freeze(o), name), args, kw)
    t = ty(o)
    if name in ("all", "any") and not args and not kw and t == "bool":
        return o
    if o.h == "arr":
        r = I.arr_method(o, ("arr", o.a[0], o.a[1]), name, args, kw)
        if r is not None:
            return r
    if t == "str" or (isc(o) and isinstance(o.a[0], str)):
        return str_method(I, o, name, args, kw)
    mut = name in ("append", "extend", "insert", "remove", "sort", "reverse", "setdefault", "update", "add", "discard", "pop", "clear",
                   "difference_update", "intersection_update")
    if o.h in ("seq", "slice", "keys", "sorted") or tm.is_seq_ty(t):
        if mut:
            s = o if o.h == "seq" else seq("list", [sp(o)])
            ref = I.alloc(("list", I.seqval(s)))
            r = list_method(I, ref, I.cell(ref)[1], name, args, kw)
            write_back(I, I.cell(ref)[1])
            return r
        return list_method(I, None, o, name, args, kw)
    if o.h == "dict" or (isinstance(t, tuple) and t[0] == "dict"):
        d = o if o.h == "dict" else dict_([sp(o)])
        if mut:
            ref = I.alloc(("dict", d))
            r = dict_method(I, ref, d, name, args, kw)
            write_back(I, I.cell(ref)[1])
            return r
        return dict_method(I, None, d, name, args, kw)
    if o.h == "set" or (isinstance(t, tuple) and t[0] == "set"):
        if mut:
            ref = I.alloc(("set", o))
            r = set_method(I, ref, o, name, args, kw)
            write_back(I, I.cell(ref)[1])
            return r
        return set_method(I, None, o, name, args, kw)
    return I.opaque_call(mk("attr", o, name), args, kw)


Interp.builtin_method = bmethod


def write_back(I, nv):
    import ast
    n = I.callnode
    if n is not None and isinstance(n.func, ast.Attribute):
        tgt = n.func.value
        if isinstance(tgt, (ast.Name, ast.Subscript, ast.Attribute)):
            I.write_back(tgt, nv)
            return
    raise AnalysisError("update of an unknown container is lost")


def list_method(I, ref, s, name, args, kw):
    def put(t):
        I.setcell(ref, ("list", t))
    if name == "append":
        x = args[0]
        put(lift(lambda a: seq("list", [sp(a), el(x)]), s))
        return NONE
    if name == "extend":
        x = I.as_seq(args[0])
        put(lift(lambda a, b: seq("list", [sp(a), sp(b)]), I.cell(ref)[1], x))
        return NONE
    if name == "insert":
        i, x = args
        if i is ZERO:
            put(lift(lambda a: seq("list", [el(x), sp(a)]), s))
            return NONE
        put(lift(lambda a: seq("list", [sp(tm.slice_seq(a, ZERO, i)), el(x), sp(tm.slice_seq(a, i, length(a)))]), s))
        return NONE
    if name == "pop":
        if s.h == "ite":
            s = I.simp(s)
        if not args or args[0] is c(-1):
            n = length(s)
            r = lift(lambda a: at(a, c(-1)), s)
            put(lift(lambda a: tm.slice_seq(a, ZERO, sub(length(a), ONE)), s))
            return r
        i = args[0]
        r = lift(lambda a: at(a, i), s)
        put(lift(lambda a: seq("list", [sp(tm.slice_seq(a, ZERO, i)), sp(tm.slice_seq(a, add(i, ONE), length(a)))]), s))
        return r
    if name == "sort":
        r = MODELS[B("sorted")](I, [I.alloc(("list", s))], kw)
        put(I.cell(r)[1])
        return NONE
    if name == "reverse":
        put(I.reverse(s))
        return NONE
    if name == "copy":
        return I.alloc(("list", s))
    if name == "index":
        if s.h == "seq" and all(g.h == "el" for g in s.a[1]):
            for i, g in enumerate(s.a[1]):
                e = I.known(I.equals(args[0], g.a[0]))
                if e is TRUE:
                    return c(i)
                if e is not FALSE:
                    break
            else:
                I.raise_name("ValueError", "not in list")
        return lift(lambda a, x: mk("indexof", a, x), I.freeze(s), I.freeze(args[0]))
    if name == "count":
        if s.h == "seq" and all(g.h == "el" for g in s.a[1]):
            r = ZERO
            for g in s.a[1]:
                r = add(r, ite(I.equals(args[0], g.a[0]), ONE, ZERO))
            return r
        return mk("countof", I.freeze(s), I.freeze(args[0]))
    if name == "tolist":
        return I.alloc(("list", I.seqval(s)))
    if name == "remove":
        raise AnalysisError("list.remove")
    if name == "clear":
        put(EMPTY_LIST)
        return NONE
    if name == "join":
        return top("join")
    r = I.array_seq_method(s, name, args, kw)
    if r is not None:
        return r
    return mk("app", mk("attr", I.freeze(s), name), tuple(I.freeze(a) for a in args), tuple(sorted((k, I.freeze(v)) for k, v in kw.items())))


Interp.array_seq_method = lambda self, s, name, args, kw: None
Interp.arr_method = lambda self, o, cell, name, args, kw: None


def dict_method(I, ref, d, name, args, kw):
    if name == "items":
        return lift(tm.dict_items, d)
    if name == "keys":
        return lift(tm.dict_keys, d)
    if name == "values":
        return lift(tm.dict_values, d)
    if name == "get":
        k = I.freeze(args[0])
        dflt = args[1] if len(args) > 1 else NONE
        r = sel(d, k, dflt)
        return I.simp(r)
    if name == "copy":
        return I.alloc(("dict", d))
    if name == "setdefault":
        k = I.freeze(args[0])
        dflt = args[1] if len(args) > 1 else NONE
        cnd = I.known(tm.in_dict(k, d))

        def yes():
            return sel(d, k)

        def no():
            I.setcell(ref, ("dict", I.dict_set(d, k, dflt)))
            return dflt
        return I.fork(cnd, yes, no)
    if name == "update":
        e = EMPTY_DICT
        if args:
            r = MODELS[B("dict")](I, [args[0]], {})
            e = I.cell(r)[1]
        for k, v in kw.items():
            e = I.dict_set(e, c(k), v)
        cur = I.cell(ref)[1]
        if all(s.h == "en" for s in e.a[0]) if e.h == "dict" else False:
            for s in e.a[0]:
                cur = I.dict_set(cur, s.a[0], s.a[1])
        else:
            cur = lift(lambda a, b: dict_([sp(a), sp(b)]), cur, e)
        I.setcell(ref, ("dict", cur))
        return NONE
    if name == "pop":
        k = I.freeze(args[0])
        cnd = I.known(tm.in_dict(k, d))
        dflt = args[1] if len(args) > 1 else None

        def yes():
            v = sel(d, k)
            dd = I.cell(ref)[1]
            if dd.h == "dict" and all(s.h == "en" for s in dd.a[0]):
                keep = tuple(s for s in dd.a[0] if eq(s.a[0], k) is FALSE)
                if all(isc(eq(s.a[0], k)) for s in dd.a[0]):
                    I.setcell(ref, ("dict", dict_(keep)))
                    return v
            I.setcell(ref, ("dict", dict_([sp(mk("without", dd, k))])))
            return v

        def no():
            if dflt is None:
                I.raise_(mk("exc", "KeyError", ()))
            return dflt
        return I.fork(cnd, yes, no)
    if name == "clear":
        I.setcell(ref, ("dict", EMPTY_DICT))
        return NONE
    if name == "__contains__":
        return tm.in_dict(I.freeze(args[0]), d)
    if name == "__getitem__":
        return sel(d, I.freeze(args[0]))
    if name in ("append", "extend", "add"):
        I.raise_name("AttributeError", name)
    return mk("app", mk("attr", I.freeze(d), name), tuple(I.freeze(a) for a in args), ())


def set_method(I, ref, s, name, args, kw):
    def contents(x):
        return x.a[0] if x.h == "set" else x

    def val(x):
        if x.h == "ref" and I.cell(x)[0] == "set":
            return I.cell(x)[1]
        return I.freeze(I.as_seq(x))
    if name == "add":
        x = I.freeze(args[0])
        I.setcell(ref, ("set", lift(lambda a: tm.set_(seq("list", [sp(contents(a)), el(x)])), s)))
        return NONE
    if name == "update":
        cur = s
        for a in args:
            y = val(a)
            cur = lift(lambda p, q: tm.set_(seq("list", [sp(contents(p)), sp(contents(q))])), cur, y)
        I.setcell(ref, ("set", cur))
        return NONE
    if name in ("union",):
        cur = s
        for a in args:
            cur = lift(lambda p, q: tm.set_(seq("list", [sp(contents(p)), sp(contents(q))])), cur, val(a))
        return I.alloc(("set", cur))
    if name in ("intersection", "difference"):
        a = args[0]
        if a.h == "sp":
            return I.alloc(("set", mk("setop", name, s, I.freeze(a.a[0]))))
        r = s
        for a in args:
            y = I.alloc(("set", lift(lambda q: q if q.h == "set" else tm.set_(q), val(a))))
            rr = I.setop("&" if name == "intersection" else "-", I.alloc(("set", r)), y)
            r = I.cell(rr)[1]
        return I.alloc(("set", r))
    if name in ("discard", "remove"):
        x = I.freeze(args[0])
        y = I.alloc(("set", tm.set_(seq_of("list", [x]))))
        rr = I.setop("-", I.alloc(("set", s)), y)
        I.setcell(ref, ("set", I.cell(rr)[1]))
        return NONE
    if name == "copy":
        return I.alloc(("set", s))
    if name == "issubset":
        return atom(mk("subset", s, val(args[0])))
    if name == "pop":
        raise AnalysisError("set.pop")
    return mk("app", mk("attr", I.freeze(s), name), tuple(I.freeze(a) for a in args), ())


def str_method(I, o, name, args, kw):
    args = [I.freeze(a) for a in args]
    if name == "join":
        s = I.freeze(I.as_seq(args[0]))
        return tm.join(o, s)
    if name == "format" and isc(o):
        import string
        parts = []
        auto = 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(o.a[0]):
                if lit:
                    parts.append(c(lit))
                if field is None:
                    continue
                if field == "":
                    v = args[auto]
                    auto += 1
                elif field.isdigit():
                    v = args[int(field)]
                elif field in kw:
                    v = kw[field]
                else:
                    return top("str.format field")
                parts.append(I.to_str(v, (conv or "") if conv != "s" else "") if not spec else tm.fmt(I.freeze(v), spec))
            return tm.strcat(parts)
        except (IndexError, ValueError):
            return top("str.format")
    if isc(o) and all(isc(a) for a in args) and not kw:
        try:
            r = getattr(o.a[0], name)(*[a.a[0] for a in args])
        except Exception:
            return top("str.%s" % name)
        if isinstance(r, bool) or isinstance(r, (int, str)):
            return c(r)
        if isinstance(r, list):
            return I.alloc(("list", seq_of("list", [c(x) for x in r])))
        if isinstance(r, tuple):
            return seq_of("tuple", [c(x) for x in r])
    if o.h == "ite" or any(a.h == "ite" for a in args):
        return lift(lambda x, *ys: str_method(I, x, name, list(ys), kw), o, *args)
    if name == "startswith" and o.h == "str" and isc(args[0]) and isc(o.a[0][0]):
        p = o.a[0][0].a[0]
        if len(p) >= len(args[0].a[0]):
            return c(p.startswith(args[0].a[0]))
    r = mk("app", mk("attr", o, name), tuple(args), tuple(sorted(kw.items())))
    if name in ("startswith", "endswith"):
        return as_bool(r)
    return r


PYF["sdreg"] = lambda I, args, kw: _sdreg(I, args)


def _sdreg(I, args):
    f, key, fn = args
    FUNCS[f.a[0]].dispatch.append((key, fn))
    return fn


def install(I):
    I.models.update(MODELS)
    tm.CALL_TYPE.update({
        ("str", "lower"): "str", ("str", "upper"): "str", ("str", "replace"): "str", ("str", "strip"): "str",
        ("str", "format"): "str", ("str", "split"): ("list", "str"), ("str", "title"): "str", ("str", "rstrip"): "str",
        ("str", "startswith"): "bool", ("str", "endswith"): "bool", ("str", "encode"): "bytes",
    })
    tm.EXT_CLASS_TYPE[0] = lambda n: "FiatElement" if n.startswith("FIAT.") and _subclass(n, "FIAT.finite_element.FiniteElement") else None
    tm.EXT_CALL_TYPE.update({"builtins.int": "int", "builtins.hash": "int", "builtins.float": "num", "math.comb": "int", "math.sqrt": "num"})


# descriptors made by calling rather than decorating
@model(B("property"))
def _property(I, args, kw):
    return mk("prop", args[0] if args else kw["fget"], "property")


@model("functools.cached_property")
def _cached_property(I, args, kw):
    return mk("prop", args[0], "cached")


@model(B("staticmethod"))
def _staticmethod(I, args, kw):
    return mk("static", args[0])


@model(B("classmethod"))
def _classmethod(I, args, kw):
    return mk("clsm", args[0])


@model("FIAT.restricted.RestrictedElement")
def _fiat_restricted(I, args, kw):
    """FIAT refuses an empty restriction with ValueError"""
    args = [I.freeze(a) for a in args]
    kw = {k: I.freeze(v) for k, v in kw.items()}
    for k, v in zip(("element", "indices", "restriction_domain", "take_closure"), args):
        kw[k] = v
    f = mk("ext", "FIAT.restricted.RestrictedElement")
    key = tuple(sorted((k, v) for k, v in kw.items() if k != "element" and v is not NONE and not (k == "take_closure" and v is TRUE)))
    if "element" not in kw:
        return None
    empty = as_bool(mk("app", mk("ext", "FIAT.restricted.empty_restriction"), (kw["element"],), key))
    r = tm.app(f, (kw["element"],), key)

    def refuse():
        I.raise_name("ValueError", "empty restriction")
    return I.fork(I.known(empty), refuse, lambda: r)
