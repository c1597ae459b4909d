"""Hash-consed abstract values (Herbrand terms with interpreted theories).

The abstract domain of the analyser.  A term denotes a Python value as a
function of the symbolic inputs of the analysed entry point.  Smart
constructors keep terms in a normal form (commutative polynomials, flattened
sequences, guarded values as ordered multi-terminal decision diagrams,
bound variables numbered by binder height), so that equality of values is
equality of objects.
"""
import functools
import hashlib
import time
import itertools
import math
from fractions import Fraction

_table = {}
_counter = itertools.count(1)


class Blowup(Exception):
    """A guarded value grew beyond the analysis budget."""


class T:
    __slots__ = ("h", "a", "dig", "ht", "hasref", "hasfv", "hastop", "_ty", "_size", "__weakref__")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return id(self) >> 4

    def __eq__(self, other):
        return self is other

    def __ne__(self, other):
        return self is not other

    def __lt__(self, other):
        return self.dig < other.dig


def _flat(x):
    if isinstance(x, T):
        yield x
    elif isinstance(x, tuple):
        for y in x:
            yield from _flat(y)


def _dig(x, m):
    if isinstance(x, T):
        m.update(b"T")
        m.update(x.dig)
    elif isinstance(x, tuple):
        m.update(b"(")
        for y in x:
            _dig(y, m)
        m.update(b")")
    else:
        m.update(("%s:%r;" % (type(x).__name__, x)).encode())


def mk(h, *a):
    key = (h, a)
    # distinguish 1 / True / 1.0 / Fraction(1)
    if h == "c":
        key = (h, a, type(a[0]).__name__)
    t = _table.get(key)
    if t is not None:
        return t
    t = T.__new__(T)
    t.h = h
    t.a = a
    m = hashlib.blake2b(digest_size=12)
    m.update(h.encode())
    if h == "ref":
        _dig(a, m)
    else:
        _dig(a, m)
    t.dig = m.digest()
    ht = 0
    hasref = h == "ref" or h == "pref"
    hasfv = h == "fv"
    hastop = h == "top"
    for ch in _flat(a):
        if ch.ht > ht:
            ht = ch.ht
        hasref = hasref or ch.hasref
        hasfv = hasfv or ch.hasfv
        hastop = hastop or ch.hastop
    t.ht = ht
    t.hasref = hasref
    t.hasfv = hasfv
    t.hastop = hastop
    t._ty = None
    t._size = None
    _table[key] = t
    return t


# ---------------------------------------------------------------- constants

def c(v):
    if isinstance(v, Fraction):
        if v.denominator == 1:
            v = int(v)
    elif isinstance(v, float) and v == v and v not in (float("inf"), float("-inf")):
        f = Fraction(v)
        if f.denominator == 1:
            v = int(v)
        elif f.denominator <= (1 << 20):
            v = f
        else:
            g = f.limit_denominator(10000)
            v = g if float(g) == v else f
    return mk("c", v)


NONE = c(None)
TRUE = c(True)
FALSE = c(False)
ZERO = c(0)
ONE = c(1)


def isc(t):
    return t.h == "c"


def is_num_const(t):
    return t.h == "c" and isinstance(t.a[0], (int, Fraction)) and not isinstance(t.a[0], bool)


def is_int_const(t):
    return t.h == "c" and isinstance(t.a[0], int) and not isinstance(t.a[0], bool)


def is_str_const(t):
    return t.h == "c" and isinstance(t.a[0], str)


def sym(name, ty=None):
    return mk("sym", name, ty)


def ext(name):
    return mk("ext", name)


def top(reason):
    return mk("top", reason)


def fresh(ty=None):
    return mk("fv", next(_counter), ty)


def show(t, depth=12):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, depth) for x in t) + ")"
        return repr(t)
    if depth <= 0:
        return "…"
    d = depth - 1
    h, a = t.h, t.a
    if h == "c":
        v = a[0]
        return str(v) if isinstance(v, Fraction) else repr(v)
    if h == "sym":
        return str(a[0])
    if h == "fv":
        return "v%d" % a[0]
    if h == "bv":
        return "b%d" % a[0]
    if h == "ext":
        return a[0]
    if h == "fn":
        return "<%s>" % a[0]
    if h == "cls":
        return "<class %s>" % a[0]
    if h == "attr":
        return "%s.%s" % (show(a[0], d), a[1])
    if h == "app":
        return "%s(%s)" % (show(a[0], d), ", ".join([show(x, d) for x in a[1]] + ["%s=%s" % (k, show(v, d)) for k, v in a[2]]))
    if h == "poly":
        parts = []
        for co, mono in a[0]:
            s = "*".join([show(x, d) + ("" if e == 1 else "^%s" % e) for x, e in mono])
            if not s:
                s = str(co)
            elif co == -1:
                s = "-" + s
            elif co != 1:
                s = "%s*%s" % (co, s)
            parts.append(s)
        return "(" + " + ".join(parts) + ")"
    if h == "seq":
        o, cl = ("(", ")") if a[0] == "tuple" else ("[", "]")
        return o + ", ".join(show(x, d) for x in a[1]) + cl
    if h == "dict":
        return "{" + ", ".join(show(x, d) for x in a[0]) + "}"
    if h == "el":
        return show(a[0], d)
    if h == "en":
        return show(a[0], d) + ": " + show(a[1], d)
    if h == "sp":
        return "*" + show(a[0], d)
    if h == "at":
        return "%s[%s]" % (show(a[0], d), show(a[1], d))
    if h == "len":
        return "len(%s)" % show(a[0], d)
    if h == "ite":
        return "(if %s then %s else %s)" % (show(a[0], d), show(a[1], d), show(a[2], d))
    if h in BINDERS:
        outer, n, hgt, tys, bodies = a
        vs = ",".join("b%d" % (hgt - n + 1 + k) for k in range(n))
        if h in ("fm", "dfm"):
            return "*[%s for %s<%s]" % (show(bodies[0], d), vs, show(outer[0], d))
        return "%s{%s | %s => %s}" % (h, ", ".join(show(x, d) for x in outer), vs, "; ".join(show(b, d) for b in bodies))
    if h == "eq":
        return "%s==%s" % (show(a[0], d), show(a[1], d))
    if h == "eq0":
        return "%s==0" % (show(a[0], d))
    if h == "lt0":
        return "%s<0" % (show(a[0], d))
    if h == "isnone":
        return "%s is None" % show(a[0], d)
    if h == "str":
        return "f'" + "".join(str(x.a[0]) if x.h == "c" else "{" + show(x, d) + "}" for x in a[0]) + "'"
    if h == "fmt":
        return show(a[0], d) + ("!" + a[1] if a[1] else "")
    if h == "inst":
        return "%s(%s)" % (a[0].a[0], ", ".join("%s=%s" % (k, show(v, d)) for k, v in a[1]))
    return "%s(%s)" % (h, ", ".join(show(x, d) for x in a))


def size(t):
    if t._size is None:
        t._size = 1
        t._size = 1 + sum(size(x) for x in _flat(t.a))
    return t._size


# ---------------------------------------------------------------- binders
# args = (outer tuple, nvars, height, types, bodies tuple)

BINDERS = {"fm", "dfm", "sum", "prod", "allq", "first", "fold", "gct", "gsum", "lam", "whl", "setof", "mono"}


def bv(h, ty=None):
    return mk("bv", h, ty)


def mkb_raw(h, outer, n, ht, tys, bodies):
    t = mk(h, outer, n, ht, tys, bodies)
    if t.ht < ht:
        t.ht = ht
    return t


def close(h, outer, fvars, bodies):
    """Build a binder over fvars (fresh variables) with the given bodies."""
    base = max([b.ht for b in bodies] + [0])
    n = len(fvars)
    m = {}
    tys = []
    for k, v in enumerate(fvars):
        m[v] = bv(base + 1 + k, v.a[1])
        tys.append(v.a[1])
    bodies = tuple(subst(b, m) for b in bodies)
    base2 = max([b.ht for b in bodies] + [0])
    if base2 > base:
        # renaming changed the structure (rare); retry from open form
        inv = {v: k for k, v in m.items()}
        bodies = tuple(subst(b, inv) for b in bodies)
        base = base2
        m = {v: bv(base + 1 + k, v.a[1]) for k, v in enumerate(fvars)}
        bodies = tuple(subst(b, m) for b in bodies)
    return mkb_raw(h, tuple(outer), n, base + n, tuple(tys), bodies)


def open_(t):
    """Return (fvars, bodies) of a binder with fresh variables."""
    outer, n, ht, tys, bodies = t.a
    fvars = [fresh(tys[k]) for k in range(n)]
    m = {bv(ht - n + 1 + k, tys[k]): fvars[k] for k in range(n)}
    return fvars, tuple(subst(b, m) for b in bodies)


def inst_binder(t, vals):
    outer, n, ht, tys, bodies = t.a
    m = {bv(ht - n + 1 + k, tys[k]): vals[k] for k in range(n)}
    return tuple(subst(b, m) for b in bodies)


# ---------------------------------------------------------------- substitution

REBUILD = {}


def rebuilds(*heads):
    def deco(f):
        for h in heads:
            REBUILD[h] = f
        return f
    return deco


def _mapargs(x, f):
    if isinstance(x, T):
        return f(x)
    if isinstance(x, tuple):
        return tuple(_mapargs(y, f) for y in x)
    return x


def occurs_any(t, targets):
    memo = {}

    def go(x):
        if x in targets:
            return True
        r = memo.get(x)
        if r is None:
            r = any(go(y) for y in _flat(x.a))
            memo[x] = r
        return r
    return go(t)


def subst(t, m):
    """Replace terms (usually variables) by terms and renormalise."""
    if not m:
        return t
    memo = {}
    occ = {}

    def has(x):
        if x in m:
            return True
        r = occ.get(x)
        if r is None:
            r = False
            for y in _flat(x.a):
                if has(y):
                    r = True
                    break
            occ[x] = r
        return r

    def go(x):
        if x in m:
            return m[x]
        r = memo.get(x)
        if r is not None:
            return r
        if not has(x):
            memo[x] = x
            return x
        if x.h in BINDERS:
            outer, n, ht, tys, bodies = x.a
            outer2 = _mapargs(outer, go)
            fvars = [fresh(tys[k]) for k in range(n)]
            mm = {bv(ht - n + 1 + k, tys[k]): fvars[k] for k in range(n)}
            if any(has(b) for b in bodies):
                bodies2 = tuple(subst(subst(b, mm), m) for b in bodies)
            else:
                bodies2 = tuple(subst(b, mm) for b in bodies)
            r = REBUILD.get(x.h, _rebuild_binder)(x.h, outer2, fvars, bodies2)
        else:
            args = _mapargs(x.a, go)
            f = REBUILD.get(x.h)
            r = f(x.h, *args) if f else mk(x.h, *args)
        memo[x] = r
        return r
    return go(t)


def _rebuild_binder(h, outer, fvars, bodies):
    return close(h, outer, fvars, bodies)


def map_term(t, f):
    """Bottom-up rewriting: f(term) -> term, applied after children."""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x.h in BINDERS:
            outer, n, ht, tys, bodies = x.a
            outer2 = _mapargs(outer, go)
            fvars = [fresh(tys[k]) for k in range(n)]
            mm = {bv(ht - n + 1 + k, tys[k]): fvars[k] for k in range(n)}
            bodies2 = tuple(map_term(subst(b, mm), f) for b in bodies)
            y = REBUILD.get(x.h, _rebuild_binder)(x.h, outer2, fvars, bodies2)
        else:
            args = _mapargs(x.a, go)
            if args == x.a:
                y = x
            else:
                g = REBUILD.get(x.h)
                y = g(x.h, *args) if g else mk(x.h, *args)
        y = f(y)
        memo[x] = y
        return y
    return go(t)


def subterms(t):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(_flat(x.a))


# ---------------------------------------------------------------- types
# types: 'int','num','bool','str','none', ('tuple',T), ('list',T), ('dict',K,V),
# ('set',T), 'gs' (gem scalar), 'gem', 'fn', or a protocol name ('Element', ...)

ATTR_TYPE = {}      # (objtype, attr) -> type
CALL_TYPE = {}      # (objtype, method) -> type
EXT_CALL_TYPE = {}  # ext name -> type
EXT_CLASS_TYPE = [None]  # ext class name -> type of its instances
FN_TYPE = {}  # function left unopened by a specification -> type of its results
EXT_TYPE = {}       # ext name -> type
NUMERIC = {"int", "num", "gs"}


def tjoin(a, b):
    if a == b:
        return a
    if a in NUMERIC and b in NUMERIC:
        return "gs" if "gs" in (a, b) else "num"
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0]:
        return (a[0],) + tuple(tjoin(x, y) for x, y in zip(a[1:], b[1:]))
    return None


def ty(t):
    r = t._ty
    if r is None:
        r = _ty(t)
        t._ty = r if r is not None else False
    return None if r is False else r


def _ty(t):
    h, a = t.h, t.a
    if h == "c":
        v = a[0]
        if v is None:
            return "none"
        if isinstance(v, bool):
            return "bool"
        if isinstance(v, int):
            return "int"
        if isinstance(v, (Fraction, float, complex)):
            return "num"
        if isinstance(v, str):
            return "str"
        return None
    if h in ("sym", "fv", "bv"):
        return a[1]
    if h == "poly":
        r = "int"
        for co, mono in a[0]:
            if co.denominator != 1:
                r = tjoin(r, "num")
            for x, e in mono:
                tx = ty(x)
                if tx == "gem":
                    tx = "gs"
                if tx not in NUMERIC:
                    tx = "num"
                if e < 0 and tx == "int":
                    tx = "num"
                r = tjoin(r, tx)
        return r
    if h in ("len", "floordiv", "mod", "ravel"):
        return "int"
    if h == "sview":
        return "array"
    if h == "flat":
        return "num"
    if h in ("sum", "prod"):
        return ty(a[4][0]) or "num"
    if h in ("gdelta", "gsum"):
        return "gs"
    if h in ("gi", "gct", "glt", "gzero", "garr"):
        return "gem"
    if h == "ix":
        return "Index"
    if h == "seq":
        et = "?"
        for s in a[1]:
            x = seg_ty(s)
            et = x if et == "?" else tjoin(et, x)
        return (a[0], None if et == "?" else et)
    if h == "dict":
        kt = vt = "?"
        for s in a[0]:
            k, v = dseg_ty(s)
            kt = k if kt == "?" else tjoin(kt, k)
            vt = v if vt == "?" else tjoin(vt, v)
        return ("dict", None if kt == "?" else kt, None if vt == "?" else vt)
    if h == "ite":
        x, y = ty(a[1]), ty(a[2])
        return tjoin(x, y)
    if h == "at":
        st = ty(a[0])
        if isinstance(st, tuple) and st[0] in ("tuple", "list", "iter"):
            return st[1]
        if isinstance(st, tuple) and st[0] == "dict":
            return st[2]
        if isinstance(st, str):
            r = CALL_TYPE.get((st, "__getitem__"))
            if r is not None:
                return r
            if st == "array" and a[1].h == "seq" and a[1].a[1] and all(g.h == "el" and g.a[0].h == "slc" for g in a[1].a[1]):
                return "array"
        return None
    if h == "attr":
        ot = ty(a[0])
        if isinstance(ot, tuple):
            return None
        return ATTR_TYPE.get((ot, a[1]), ATTR_TYPE.get(("*", a[1])))
    if h == "app":
        f = a[0]
        if f.h == "attr":
            ot = ty(f.a[0])
            if isinstance(ot, tuple):
                return None
            return CALL_TYPE.get((ot, f.a[1]), CALL_TYPE.get(("*", f.a[1])))
        if f.h == "ext":
            r = EXT_CALL_TYPE.get(f.a[0])
            if r is None and f.a[0] not in EXT_CALL_TYPE and EXT_CLASS_TYPE[0] is not None:
                r = EXT_CALL_TYPE[f.a[0]] = EXT_CLASS_TYPE[0](f.a[0])
            return r
        if f.h == "fn":
            return FN_TYPE.get(f.a[0])
        return None
    if h == "ext":
        return EXT_TYPE.get(a[0])
    if h == "keys":
        dt = ty(a[0])
        return ("list", dt[1] if isinstance(dt, tuple) and dt[0] == "dict" else None)
    if h == "sorted":
        st = ty(a[0])
        return ("list", st[1] if isinstance(st, tuple) and len(st) == 2 else None)
    if h in ("slice",):
        st = ty(a[0])
        return st
    if h in ("str", "join", "fmt"):
        return "str"
    if h in ("cart",):
        return ("list", ("tuple", None))
    if h == "setof":
        return ("set", ty(a[4][0]))
    if h == "set":
        x = ty(a[0])
        return ("set", x[1] if isinstance(x, tuple) and len(x) == 2 else None)
    if h == "max":
        x = ty(a[1])
        return x[1] if isinstance(x, tuple) and len(x) == 2 else None
    if h == "ident":
        return "int"
    if h == "inst":
        return a[0].a[0]
    if h in ("fn", "lam", "bound"):
        return "fn"
    if h == "comp":
        return a[2]
    if h == "slc":
        return "slice"
    return None


def seg_ty(s):
    if s.h == "el":
        return ty(s.a[0])
    if s.h == "sp":
        x = ty(s.a[0])
        if isinstance(x, tuple) and x[0] == "dict":
            return x[1]
        return x[1] if isinstance(x, tuple) else None
    if s.h == "fm":
        x = ty(s.a[4][0])
        return x[1] if isinstance(x, tuple) else None
    return None


def dseg_ty(s):
    if s.h == "en":
        return ty(s.a[0]), ty(s.a[1])
    if s.h == "sp":
        x = ty(s.a[0])
        return (x[1], x[2]) if isinstance(x, tuple) and x[0] == "dict" else (None, None)
    if s.h == "dfm":
        x = ty(s.a[4][0])
        return (x[1], x[2]) if isinstance(x, tuple) and x[0] == "dict" else (None, None)
    return None, None


def is_numeric(t):
    return ty(t) in NUMERIC


def is_seq_ty(x):
    return isinstance(x, tuple) and x[0] in ("tuple", "list", "iter")


# ---------------------------------------------------------------- ite / MTBDD

ITE_BUDGET = [0, 60000]


def reset_budget(n=1000000, seconds=90):
    ITE_BUDGET[0] = 0
    ITE_BUDGET[1] = n
    DEADLINE[0] = time.time() + seconds


DEADLINE = [None]


def _tick(k=1):
    ITE_BUDGET[0] += k
    if DEADLINE[0] is not None and time.time() > DEADLINE[0]:
        raise Blowup("time budget exceeded")
    if ITE_BUDGET[0] > ITE_BUDGET[1]:
        raise Blowup("guarded value too large")


_cof_memo = {}


def atom_subst(atom, val):
    """Substitution implied by atom == val, or None."""
    if atom.h == "eq" and val:
        x, y = atom.a
        if isc(y) and x.h not in ("c", "seq", "dict", "app_"):
            return {x: y}
        if isc(x) and y.h not in ("c", "seq", "dict"):
            return {y: x}
        if y.h == "seq" and x.h in ("sym", "attr", "app", "fv", "bv", "at") and _plainseq(y) and not occurs_any(y, {x}):
            return {x: y}
        if x.h == "seq" and y.h in ("sym", "attr", "app", "fv", "bv", "at") and _plainseq(x) and not occurs_any(x, {y}):
            return {y: x}
    if atom.h == "eq0" and val and atom.a[0].h == "len" and atom.a[0].a[0].h in ("sym", "attr", "app", "fv", "bv", "at", "comp") \
            and is_seq_ty(ty(atom.a[0].a[0])):
        x = atom.a[0].a[0]
        return {x: mk("seq", ty(x)[0], ())}
    if atom.h == "eq0" and val:
        p = atom.a[0]
        x, k = _var_plus_const(p)
        if x is not None:
            return {x: c(-k)}
    if atom.h == "isnone" and val:
        return {atom.a[0]: NONE}
    if atom.h == "truthy":
        x = atom.a[0]
        if ty(x) == "bool":
            return {x: c(bool(val))}
    return None


def _plainseq(t):
    """a sequence of known length"""
    return t.h == "seq" and all(s.h == "el" for s in t.a[1])


def _constlike(t):
    if t.h == "c":
        return True
    if t.h == "seq":
        return all(s.h == "el" and _constlike(s.a[0]) for s in t.a[1])
    return False


def _var_plus_const(p):
    if p.h != "poly":
        return (p, Fraction(0)) if p.h != "c" else (None, None)
    k = Fraction(0)
    x = None
    for co, mono in p.a[0]:
        if not mono:
            k = co
        elif len(mono) == 1 and mono[0][1] == 1 and co == 1 and x is None:
            x = mono[0][0]
        else:
            return None, None
    return x, k


def implied(atom, val, other):
    """Truth value of `other` implied by atom == val, or None."""
    if atom is other:
        return val
    if atom.h == "lt0" and other.h == "lt0":
        b1, k1 = _base_const(atom.a[0])
        b2, k2 = _base_const(other.a[0])
        if b1 == b2:
            # x + k1 < 0
            if val and k2 <= k1:
                return True
            if not val and k2 >= k1:
                return False
    if atom.h == "lt0" and other.h == "eq0":
        b1, k1 = _base_const(atom.a[0])
        b2, k2 = _base_const(other.a[0])
        if b1 == b2:
            # x < -k1 ; x == -k2
            if val and -k2 >= -k1:
                return False
            if not val and -k2 < -k1:
                return False
    if atom.h == "eq0" and other.h == "lt0" and val:
        b1, k1 = _base_const(atom.a[0])
        b2, k2 = _base_const(other.a[0])
        if b1 == b2:
            return -k1 < -k2
    if atom.h == "eq0" and other.h == "eq0" and val:
        b1, k1 = _base_const(atom.a[0])
        b2, k2 = _base_const(other.a[0])
        if b1 == b2:
            return k1 == k2
    if atom.h == "isinst" and other.h == "isinst" and val and atom.a[0] is other.a[0]:
        r = isinst_rel(atom.a[1], other.a[1])
        if r is not None:
            return r
    if atom.h == "isinst" and not val and other.h == "isinst" and atom.a[0] is other.a[0]:
        if isinst_rel(other.a[1], atom.a[1]) is True:
            return False
    if atom.h == "isinst" and val and other.h == "isnone" and atom.a[0] is other.a[0]:
        return False
    return None


def isinst_rel(c1, c2):
    """Does being an instance of c1 decide being an instance of c2?"""
    return None  # patched by the loader with the class hierarchy


def _base_const(p):
    if p.h == "poly":
        base = tuple((co, mono) for co, mono in p.a[0] if mono)
        k = sum((co for co, mono in p.a[0] if not mono), Fraction(0))
        return base, k
    if p.h == "c":
        return (), Fraction(p.a[0])
    return ((Fraction(1), ((p, 1),)),), Fraction(0)


def assume(t, atom, val):
    """Simplify t knowing atom == val."""
    key = (t, atom, val)
    r = _cof_memo.get(key)
    if r is not None:
        return r
    _tick()
    m = atom_subst(atom, val)
    if m is not None:
        r = subst(t, m) if t.h != "ite" or True else t
        r = _cof(r, atom, val)
    else:
        r = _cof(t, atom, val)
    _cof_memo[key] = r
    return r


def _cof(t, atom, val):
    if t.h != "ite":
        return t
    key = (t, atom, val, 1)
    r = _cof_memo.get(key)
    if r is not None:
        return r
    _tick()
    at, x, y = t.a
    v = implied(atom, val, at)
    if v is True:
        r = _cof(x, atom, val)
    elif v is False:
        r = _cof(y, atom, val)
    else:
        x2, y2 = _cof(x, atom, val), _cof(y, atom, val)
        r = t if (x2 is x and y2 is y) else _node(at, x2, y2)
    _cof_memo[key] = r
    return r


def _node(atom, x, y):
    if x is y:
        return x
    return mk("ite", atom, x, y)


_ite_memo = {}


def ite(cond, x, y):
    """Guarded value: x if cond else y (cond is a boolean term)."""
    if cond is TRUE:
        return x
    if cond is FALSE:
        return y
    if x is y:
        return x
    if cond.h != "ite":
        cond = as_bool(cond)
        if cond.h != "ite":
            return ite(cond, x, y) if isc(cond) else top("non-boolean guard")
    key = (cond, x, y)
    r = _ite_memo.get(key)
    if r is not None:
        return r
    _tick()
    atoms = [cond.a[0]]
    if x.h == "ite":
        atoms.append(x.a[0])
    if y.h == "ite":
        atoms.append(y.a[0])
    at = min(atoms, key=atom_key)
    r = _node2(at, lambda v: ite(assume(cond, at, v), assume(x, at, v), assume(y, at, v)))
    _ite_memo[key] = r
    return r


def _node2(at, f):
    x = f(True)
    y = f(False)
    return _node(at, x, y)


def atom_key(at):
    return at.dig


def lift(f, *args):
    """Apply f to args, distributing over guarded arguments."""
    tops = [a.a[0] for a in args if isinstance(a, T) and a.h == "ite"]
    if not tops:
        return f(*args)
    _tick()
    at = min(tops, key=atom_key)

    def go(v):
        return lift(f, *[assume(a, at, v) if isinstance(a, T) else a for a in args])
    x = go(True)
    y = go(False)
    # results may themselves be guarded by smaller atoms
    return ite(mk("ite", at, TRUE, FALSE), x, y)


def atom(at):
    return mk("ite", at, TRUE, FALSE)


def as_bool(t):
    """Truthiness of a value as a boolean term."""
    if t.h == "ite":
        return lift(as_bool, t)
    if t.h == "c":
        v = t.a[0]
        return TRUE if v else FALSE
    if t.h == "seq":
        n = seq_len(t)
        return not_(eq(n, ZERO))
    if t.h == "dict":
        if not t.a[0]:
            return FALSE
        if any(s.h == "en" for s in t.a[0]):
            return TRUE
        return not_(eq(dict_len(t), ZERO))
    if t.h == "str":
        if any(isc(p) and p.a[0] for p in t.a[0]):
            return TRUE
    if t.h in ("fn", "cls", "lam", "bound", "inst", "ext"):
        return TRUE
    k = ty(t)
    if k in ("int", "num"):
        return not_(eq(t, ZERO))
    if isinstance(k, tuple) and k[0] in ("tuple", "list", "dict", "set", "iter"):
        return not_(eq(length(t), ZERO))
    if k == "str":
        return not_(eq(t, c("")))
    return atom(mk("truthy", t))


def not_(t):
    return ite(as_bool(t), FALSE, TRUE)


def and_(*ts):
    r = TRUE
    for t in reversed(ts):
        r = ite(as_bool(t), r, FALSE)
    return r


def or_(*ts):
    r = FALSE
    for t in reversed(ts):
        r = ite(as_bool(t), TRUE, r)
    return r


def leaves(t):
    """Leaves of a guarded value."""
    out = []
    seen = set()

    def go(x):
        if x in seen:
            return
        seen.add(x)
        if x.h == "ite":
            go(x.a[1])
            go(x.a[2])
        else:
            out.append(x)
    go(t)
    return out


def map_leaves(t, f):
    return lift(f, t) if t.h == "ite" else f(t)


# ---------------------------------------------------------------- polynomials

def _poly_items(t):
    """list of (coeff, mono)"""
    if t.h == "c":
        v = t.a[0]
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, float) or not isinstance(v, (int, Fraction)):
            return None
        return [] if v == 0 else [(Fraction(v), ())]
    if t.h == "poly":
        return list(t.a[0])
    return [(Fraction(1), ((t, 1),))]


def _from_items(items):
    d = {}
    for co, mono in items:
        d[mono] = d.get(mono, 0) + co
    items = [(co, mono) for mono, co in d.items() if co != 0]
    if not items:
        return ZERO
    if len(items) == 1:
        co, mono = items[0]
        if not mono:
            return c(co)
        if co == 1 and len(mono) == 1 and mono[0][1] == 1:
            return mono[0][0]
    items.sort(key=lambda it: (len(it[1]), tuple((x.dig, e) for x, e in it[1])))
    return mk("poly", tuple(items))


def _mono_mul(m1, m2):
    d = dict(m1)
    for x, e in m2:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(((x, e) for x, e in d.items() if e != 0), key=lambda xe: xe[0].dig))


def _nb(v):
    return c(int(v.a[0])) if v.h == "c" and isinstance(v.a[0], bool) else v


BAD = mk("bad", "TypeError")     # arithmetic on None


def type_error(a, b, pa, pb):
    if a is BAD or b is BAD or a is NONE and (pb is not None or b is NONE) or b is NONE and pa is not None:
        return BAD
    return None


def add(a, b):
    if a.h == "ite" or b.h == "ite":
        return lift(add, a, b)
    a, b = _nb(a), _nb(b)
    pa, pb = _poly_items(a), _poly_items(b)
    if pa is None or pb is None:
        return type_error(a, b, pa, pb) or mk("op", "+", a, b)
    return _from_items(pa + pb)


def mul(a, b):
    if a.h == "ite" or b.h == "ite":
        return lift(mul, a, b)
    a, b = _nb(a), _nb(b)
    pa, pb = _poly_items(a), _poly_items(b)
    if pa is None or pb is None:
        return type_error(a, b, pa, pb) or mk("op", "*", a, b)
    if len(pa) * len(pb) > 4000:
        raise Blowup("polynomial too large")
    r = [(x * y, _mono_mul(m, n)) for x, m in pa for y, n in pb]
    if any(abs(e) > 1 and is_sqrt(x) or e == -1 and is_surd(x) for _, mono in r for x, e in mono):
        t = ZERO
        for co, mono in r:
            f = _from_items([(co, tuple((x, e) for x, e in mono if not (abs(e) > 1 and is_sqrt(x) or e == -1 and is_surd(x))))])
            for x, e in mono:
                if e == -1 and is_surd(x):
                    f = mul(mul(f, x), c(1 / Fraction(x.a[1][0].a[0])))
                elif abs(e) > 1 and is_sqrt(x):
                    if e % 2:
                        f = mul(f, x if e > 0 else _from_items([(Fraction(1), ((x, -1),))]))
                    for _ in range(abs(e) // 2):
                        f = mul(f, x.a[1][0]) if e > 0 else div(f, x.a[1][0])
            t = add(t, f)
        return t
    return _from_items(r)


SQRT = ext("numpy.sqrt")


def is_sqrt(x):
    """square root, whose square is its argument"""
    return x.h == "app" and x.a[0] is SQRT and len(x.a[1]) == 1


def sqrt(x):
    if is_num_const(x) and x.a[0] >= 0:
        f = Fraction(x.a[0])
        p, q = math.isqrt(f.numerator), math.isqrt(f.denominator)
        if p * p == f.numerator and q * q == f.denominator:
            return c(Fraction(p, q))
        n = f.numerator * f.denominator
        if n < 10**6:
            # a rational multiple of square roots of different primes, which
            # with their products are linearly independent over the rationals
            co, r = Fraction(1, f.denominator), ONE
            k = 2
            while n > 1:
                while n % (k * k) == 0:
                    n //= k * k
                    co *= k
                if n % k == 0:
                    n //= k
                    r = mul(r, app(SQRT, (c(k),)))
                k += 1
            return mul(c(co), r)
    return app(SQRT, (x,))


def is_surd(x):
    return is_sqrt(x) and is_num_const(x.a[1][0])


def neg(a):
    return mul(c(-1), a)


def sub(a, b):
    return add(a, neg(b))


def div(a, b):
    if a.h == "ite" or b.h == "ite":
        return lift(div, a, b)
    pb = _poly_items(_nb(b))
    if pb is None or not pb:
        return mk("op", "/", a, b)
    if len(pb) == 1:
        co, mono = pb[0]
        inv = _from_items([(1 / co, tuple((x, -e) for x, e in mono))])
        return mul(a, inv)
    # normalise leading coefficient of the divisor
    lead = pb[0][0]
    base = _from_items([(co / lead, m) for co, m in pb])
    inv = _from_items([(1 / lead, ((base, -1),))])
    return mul(a, inv)


def clear(d, limit=40):
    """numerator of a quotient of polynomials: it vanishes exactly if the quotient does"""
    for _ in range(limit):
        items = _poly_items(d)
        if items is None:
            return d
        den = None
        for co, mono in items:
            for x, e in mono:
                if e < 0 and x.h == "poly":
                    den = x
                    break
            if den is not None:
                break
        if den is None:
            return d
        low = min([e for _, mono in items for x, e in mono if x is den] + [0])
        r = ZERO
        for co, mono in items:
            e = next((e for x, e in mono if x is den), 0)
            t = _from_items([(co, tuple((x, k) for x, k in mono if x is not den))])
            for _k in range(e - low):
                t = mul(t, den)
            r = add(r, t)
        d = r
    return d


def scaling(t, weight):
    """degree of an expression under scaling: a Fraction, "zero", or None if
    its terms scale differently or something in it has no known degree"""
    if t is ZERO:
        return "zero"
    if t.h == "c":
        return Fraction(0)
    w = weight(t)
    if w is not None:
        return w
    if t.h == "poly":
        degs = set()
        for co, mono in t.a[0]:
            d = Fraction(0)
            for x, e in mono:
                k = scaling(x, weight)
                if k is None or k == "zero" or isinstance(k, str):
                    return k if isinstance(k, str) and k != "zero" else None
                d += k * e
            degs.add(d)
        return degs.pop() if len(degs) == 1 else "mixed"
    return None


def floordiv(a, b):
    if a is ZERO:
        return ZERO
    if a.h == "ite" or b.h == "ite":
        return lift(floordiv, a, b)
    if is_int_const(a) and is_int_const(b) and b.a[0] != 0:
        return c(a.a[0] // b.a[0])
    if is_int_const(b) and b.a[0] > 0:
        # split off exact multiples: (k*b + r)//b
        items = _poly_items(a)
        q, r = [], []
        for co, mono in items:
            if co.denominator == 1:
                if not mono:
                    q.append((Fraction(co.numerator // b.a[0]), mono))
                    r.append((Fraction(co.numerator % b.a[0]), mono))
                    continue
                if co.numerator % b.a[0] == 0:
                    q.append((co / b.a[0], mono))
                    continue
            r.append((co, mono))
        rr = _from_items(r)
        if is_int_const(rr):
            return _from_items(q + [(Fraction(rr.a[0] // b.a[0]), ())])
        lead = [co for co, mono in r if mono]
        if lead and all(co < 0 for co in lead) and all(co.denominator == 1 and all(e > 0 and ty(x) == "int" for x, e in mono) for co, mono in r):
            # whole numbers: floor(-y / b) = -floor((y + b - 1) / b)
            return sub(_from_items(q), floordiv(add(mul(c(-1), rr), sub(b, ONE)), b))
        return add(_from_items(q), mk("floordiv", rr, b))
    return mk("floordiv", a, b)


def mod(a, b):
    if a.h == "ite" or b.h == "ite":
        return lift(mod, a, b)
    if is_int_const(a) and is_int_const(b) and b.a[0] != 0:
        return c(a.a[0] % b.a[0])
    if ty(a) == "int" and ty(b) == "int":
        return sub(a, mul(b, floordiv(a, b)))
    return mk("mod", a, b)


def power(a, b):
    if a.h == "ite" or b.h == "ite":
        return lift(power, a, b)
    if is_int_const(b):
        n = b.a[0]
        if 0 <= n <= 8:
            r = ONE
            for _ in range(n):
                r = mul(r, a)
            return r
        if n < 0:
            return div(ONE, power(a, c(-n)))
    if is_num_const(a) and is_int_const(b):
        return c(Fraction(a.a[0]) ** b.a[0])
    if a.h == "c" and a.a[0] == 1:
        return ONE
    if a.h == "c" and a.a[0] == -1 and b.h == "poly":
        # (-1)**(n+k): keep the parity of the constant only
        k = sum((co for co, m in b.a[0] if not m), Fraction(0))
        rest = _from_items([(co, m) for co, m in b.a[0] if m])
        if k.denominator == 1 and k != 0:
            return mul(c(-1 if int(k) % 2 else 1), mk("pow", a, rest))
    return mk("pow", a, b)


@rebuilds("poly")
def _rb_poly(h, items):
    r = ZERO
    for co, mono in items:
        t = c(co)
        for x, e in mono:
            if e > 0:
                for _ in range(e):
                    t = mul(t, x)
            else:
                for _ in range(-e):
                    t = div(t, x)
        r = add(r, t)
    return r


@rebuilds("floordiv")
def _rb_fd(h, a, b):
    return floordiv(a, b)


@rebuilds("mod")
def _rb_mod(h, a, b):
    return mod(a, b)


@rebuilds("pow")
def _rb_pow(h, a, b):
    return power(a, b)


@rebuilds("ite")
def _rb_ite(h, at, x, y):
    b = rebuild_atom(at)
    return ite(b, x, y)


def rebuild_atom(at):
    """Re-evaluate an atom term (already substituted) to a boolean term."""
    if at.h == "ite" or at.h == "c":
        return at
    return atom(at)


def sum_(n, var, body):
    """sum of body over var in range(n)"""
    if n.h == "ite":
        return lift(lambda m: sum_(m, var, body), n)
    if is_int_const(n):
        if n.a[0] <= 0:
            return ZERO
        if n.a[0] <= 6:
            r = ZERO
            for k in range(n.a[0]):
                r = add(r, subst(body, {var: c(k)}))
            return r
    if body.h == "ite" and not _depends(body, var):
        return lift(lambda b: sum_(n, var, b), body)
    if body.h == "ite":
        # hoist guards that do not depend on var
        for at in guards(body):
            if not _depends(at, var):
                return ite(atom(at), sum_(n, var, assume(body, at, True)), sum_(n, var, assume(body, at, False)))
        return close("sum", (n,), [var], [body])
    items = _poly_items(body)
    if items is None:
        return close("sum", (n,), [var], [body])
    r = ZERO
    for co, mono in items:
        ins = tuple((x, e) for x, e in mono if _depends(x, var))
        outs = tuple((x, e) for x, e in mono if not _depends(x, var))
        o = _from_items([(co, outs)])
        if not ins:
            r = add(r, mul(o, n))
        elif ins == ((var, 1),):
            # triangular number
            r = add(r, mul(o, mul(c(Fraction(1, 2)), mul(n, sub(n, ONE)))))
        else:
            r = add(r, mul(o, close("sum", (n,), [var], [_from_items([(Fraction(1), ins)])])))
    return r


def guards(t):
    out = []
    seen = set()

    def go(x):
        if x.h != "ite" or x in seen:
            return
        seen.add(x)
        if x.a[0] not in out:
            out.append(x.a[0])
        go(x.a[1])
        go(x.a[2])
    go(t)
    return out


PROD_RULES = []


def prod_(n, var, body):
    if n.h == "ite":
        return lift(lambda m: prod_(m, var, body), n)
    if is_int_const(n):
        if n.a[0] <= 0:
            return ONE
        if n.a[0] <= 6:
            r = ONE
            for k in range(n.a[0]):
                r = mul(r, subst(body, {var: c(k)}))
            return r
    if body.h == "ite":
        for at in guards(body):
            if not _depends(at, var):
                return ite(atom(at), prod_(n, var, assume(body, at, True)), prod_(n, var, assume(body, at, False)))
        return close("prod", (n,), [var], [body])
    items = _poly_items(body)
    if items is not None and len(items) == 1:
        co, mono = items[0]
        r = ONE
        if co != 1:
            r = mul(r, power(c(co), n))
        for x, e in mono:
            if not _depends(x, var):
                r = mul(r, power(power(x, c(e)), n))
            else:
                p = next((p for p in (f(n, var, x) for f in PROD_RULES) if p is not None), None)
                r = mul(r, power(p if p is not None else close("prod", (n,), [var], [x]), c(e)))
        return r
    if not _depends(body, var):
        return power(body, n)
    return close("prod", (n,), [var], [body])


_dep_memo = {}


def _depends(t, v):
    if not t.hasfv and v.h == "fv":
        return False
    key = (t, v)
    r = _dep_memo.get(key)
    if r is None:
        r = t is v or any(_depends(x, v) for x in _flat(t.a))
        _dep_memo[key] = r
    return r


depends = _depends


@rebuilds("sum")
def _rb_sum(h, outer, fvars, bodies):
    return sum_(outer[0], fvars[0], bodies[0])


@rebuilds("prod")
def _rb_prod(h, outer, fvars, bodies):
    return prod_(outer[0], fvars[0], bodies[0])


# ---------------------------------------------------------------- comparison atoms

INST_HAS_EQ = None


def eq(a, b):
    if a is b:
        return TRUE
    if a.h == "ite" or b.h == "ite":
        return lift(eq, a, b)
    if a.hastop or b.hastop:
        return atom(mk("eq", *sorted((a, b))))
    if isc(a) and isc(b):
        try:
            return TRUE if a.a[0] == b.a[0] else FALSE
        except Exception:
            pass
    if a is NONE or b is NONE:
        return isnone(b if a is NONE else a)
    if a.h == b.h == "ident":
        return FALSE    # addresses of distinct objects
    ta, tb = ty(a), ty(b)
    if ta in NUMERIC and tb in NUMERIC:
        d = sub(a, b)
        if d.h == "ite":
            return lift(lambda z: eq(z, ZERO), d)
        if isc(d):
            return TRUE if d.a[0] == 0 else FALSE
        if d.h in ("len",) or (d.h == "poly" and nonneg_pos(d)):
            if d.h == "poly":
                return FALSE
        return atom(mk("eq0", norm_sign(d)))
    if a.h == "seq" and b.h == "seq":
        if a.a[0] != b.a[0] and "iter" not in (a.a[0], b.a[0]):
            return FALSE
        sa, sb = a.a[1], b.a[1]
        # strip equal prefix / suffix
        while sa and sb and sa[0] is sb[0]:
            sa, sb = sa[1:], sb[1:]
        while sa and sb and sa[-1] is sb[-1]:
            sa, sb = sa[:-1], sb[:-1]
        if not sa and not sb:
            return TRUE
        if all(s.h == "el" for s in sa) and all(s.h == "el" for s in sb):
            if len(sa) != len(sb):
                return FALSE
            return and_(*[eq(x.a[0], y.a[0]) for x, y in zip(sa, sb)])
        if not sa or not sb:
            rest = sa or sb
            if any(s.h == "el" for s in rest):
                return FALSE
            return eq(seq_len(mk("seq", "tuple", rest)), ZERO)
        n1 = seq_len(mk("seq", "tuple", sa))
        n2 = seq_len(mk("seq", "tuple", sb))
        d = sub(n1, n2)
        if d.h == "poly" and (nonneg_pos(d) or nonneg_pos(neg(d))):
            return FALSE
        if len(sa) == 1 and len(sb) == 1 and sa[0].h == "sp" and sb[0].h == "sp":
            return atom(mk("eq", *sorted((sa[0].a[0], sb[0].a[0]))))
        return atom(mk("eq", *sorted((mk("seq", a.a[0], sa), mk("seq", b.a[0], sb)))))
    if a.h == "seq" and not a.a[1] and is_seq_ty(tb) and tb[0] == a.a[0]:
        return eq(length(b), ZERO)
    if b.h == "seq" and not b.a[1] and is_seq_ty(ta) and ta[0] == b.a[0]:
        return eq(length(a), ZERO)
    if disjoint_types(ta, tb, a, b):
        return FALSE
    if a.h == b.h == "set":
        ga, gb = a.a[0].a[1], b.a[0].a[1]
        if not ga or not gb:
            rest = ga or gb
            if any(g.h == "el" for g in rest):
                return FALSE
            return eq(seq_len(mk("seq", "list", rest)), ZERO)
        if len(ga) * len(gb) <= 64 and all(g.h == "el" for g in ga + gb):
            return and_(*[contains(g.a[0], b.a[0]) for g in ga], *[contains(g.a[0], a.a[0]) for g in gb])
    if a.h == b.h == "dict" and all(g.h == "en" and _constlike(g.a[0]) for g in a.a[0] + b.a[0]):
        da, db = [dict((g.a[0], g.a[1]) for g in t.a[0]) for t in (a, b)]
        if set(da) != set(db):
            return FALSE
        return and_(*[eq(da[k], db[k]) for k in da])
    if a.h == "str" or b.h == "str":
        r = _eq_str(a, b)
        if r is not None:
            return r
    if a.h == b.h == "inst" and INST_HAS_EQ is not None and not INST_HAS_EQ(a.a[0]) and not INST_HAS_EQ(b.a[0]):
        # compared by identity: the same object has the same class and attributes
        if a.a[0] != b.a[0] or [k for k, _ in a.a[1]] != [k for k, _ in b.a[1]] or any(eq(x, y) is FALSE for (_, x), (_, y) in zip(a.a[1], b.a[1])):
            return FALSE
    if a.h == "cls" and b.h in ("cls", "fn", "ext") or a.h in ("fn", "ext") and b.h == "cls" or a.h == b.h == "fn":
        return FALSE    # distinct classes and functions of the repository (no metaclasses)
    return atom(mk("eq", *sorted((a, b))))


def _eq_str(a, b):
    pa = list(a.a[0]) if a.h == "str" else [a]
    pb = list(b.a[0]) if b.h == "str" else [b]
    stripped = False
    for k in (0, -1):
        while pa and pb:
            x, y = pa[k], pb[k]
            if x is y:
                pa.pop(k), pb.pop(k)
                stripped = True
                continue
            if not (is_str_const(x) and is_str_const(y)):
                break
            u, v = x.a[0], y.a[0]
            n = 0
            while n < min(len(u), len(v)) and (u[n] == v[n] if k == 0 else u[-1 - n] == v[-1 - n]):
                n += 1
            if n < min(len(u), len(v)):
                return FALSE
            for p, w in ((pa, u), (pb, v)):
                w = w[n:] if k == 0 else w[:len(w) - n]
                if w:
                    p[k] = c(w)
                else:
                    p.pop(k)
            stripped = True
    if not pa and not pb:
        return TRUE
    if not pa or not pb:
        rest = pa or pb
        if any(_nonempty_text(x) for x in rest):
            return FALSE
        if all(ty(x) == "str" for x in rest):
            return and_(*[eq(x, c("")) for x in rest])
        return None
    for p, q in ((pa, pb), (pb, pa)):
        if len(p) == 1 and p[0] in q and any(_nonempty_text(x) for x in q if x is not p[0]):
            return FALSE    # a text with more around it is longer
    r = _eq_text(pa[0], pb[0], len(pa) == 1, len(pb) == 1)
    if r is FALSE:
        return FALSE
    if r is not None:
        # the first part ends where its own text says so: the rest has to agree too
        return and_(r, eq(strcat(pa[1:]), strcat(pb[1:])))
    if len(pa) == len(pb) == 1 and ty(pa[0]) == ty(pb[0]) == "str" and "str" not in (pa[0].h, pb[0].h):
        return eq(*pa, *pb) if stripped else None
    if not stripped:
        return None
    x, y = strcat(pa), strcat(pb)
    return atom(mk("eq", *sorted((x, y))))


def _nonempty_text(x):
    return is_str_const(x) and x.a[0] != "" or x.h == "fmt" and (x.a[1] == "r" or ty(x.a[0]) in ("int", "num") or x.a[0].h in ("seq", "dict"))


def _eq_text(x, y, xlast, ylast):
    """whether two parts that start a text agree, if each ends where its text says so (a number before something that is no digit, a
    quoted string, a bracketed display); FALSE if they start differently"""
    def kind(p):
        if p.h == "fmt":
            t = ty(p.a[0])
            if t == "int":
                return "int"
            if t == "str" and p.a[1] == "r":
                return "quoted"
            if p.a[1] in ("", "r") and p.a[0].h in ("seq", "dict"):
                return p.a[0].a[0] if p.a[0].h == "seq" else "dict"
        return None
    starts = {"int": "-0123456789", "quoted": "'\"", "tuple": "(", "list": "[", "dict": "{"}
    kx, ky = kind(x), kind(y)
    if kx == "int" and kx == ky:
        return eq(x.a[0], y.a[0]) if xlast and ylast else None
    if kx == "quoted" and kx == ky:
        return eq(x.a[0], y.a[0])
    if kx in ("tuple", "list") and kx == ky:
        return FALSE if eq(x.a[0], y.a[0]) is FALSE else None
    if kx == "dict" and kx == ky:
        return FALSE if eq(x.a[0], y.a[0]) is FALSE else None
    for p, q, k in ((x, y, kx), (y, x, ky)):
        if k in starts and is_str_const(q) and q.a[0]:
            if q.a[0][0] not in starts[k] or q.a[0].startswith("{}") and k == "dict" and p.a[0].a[0] != ():
                return FALSE
        if k in starts and kx in starts and ky in starts and kx != ky:
            return FALSE
    return None


PROTO_TYPES = set()


def disjoint_types(ta, tb, a, b):
    if ta is None or tb is None:
        return False

    def cls(x):
        if x in NUMERIC:
            return "n"
        if x == "bool":
            return "n"
        if isinstance(x, tuple):
            return x[0]
        return x
    x, y = cls(ta), cls(tb)
    if x == y:
        return False
    basic = {"n", "str", "none", "tuple", "list", "dict", "set"}
    if x in basic and y in basic:
        return True
    if "none" in (x, y):
        other = y if x == "none" else x
        return other in PROTO_TYPES or other == "fn" or other == "gem"
    return False


def nonneg_pos(p):
    """p is a sum of nonnegative terms with a positive constant."""
    k = Fraction(0)
    for co, mono in p.a[0]:
        if co < 0:
            return False
        if not mono:
            k = co
        else:
            for x, e in mono:
                if x.h not in ("len",) and not nonneg(x):
                    return False
    return k > 0


def nonneg(x):
    if x.h == "len":
        return True
    if x.h == "c":
        return is_num_const(x) and x.a[0] >= 0
    if x.h == "app" and x.a[0].h == "attr" and x.a[0].a[1] in ("space_dimension", "get_spatial_dimension", "topological_dimension"):
        return True
    if x.h in ("sum", "prod"):
        return nonneg(x.a[4][0])
    if x.h == "at" and x.a[0].h == "attr" and x.a[0].a[1] in ("shape", "index_shape", "value_shape", "reference_value_shape"):
        return True
    if x.h == "attr" and x.a[1] in ("extent", "size", "ndim"):
        return True
    if x.h in ("fv", "bv"):
        return x.a[1] == "int"   # loop counters run from 0
    return False


def norm_sign(p):
    items = _poly_items(p)
    if not items:
        return p
    # leading = first non-constant item
    lead = next((co for co, m in items if m), items[0][0])
    if abs(lead) != 1 or lead < 0:
        s = 1 / lead
        return _from_items([(co * s, m) for co, m in items])
    return p


def lt(a, b):
    """a < b"""
    if a.h == "ite" or b.h == "ite":
        return lift(lt, a, b)
    if isc(a) and isc(b):
        try:
            return TRUE if a.a[0] < b.a[0] else FALSE
        except TypeError:
            return atom(mk("lt", a, b))
    if ty(a) == "int" and ty(b) == "int":
        return _lt0(sub(a, b))
    if ty(a) in ("int", "num") and ty(b) in ("int", "num"):
        d = sub(a, b)
        if d.h == "ite":
            return lift(lambda z: lt(z, ZERO), d)
        if isc(d):
            return TRUE if d.a[0] < 0 else FALSE
        items = _poly_items(d)
        lead = next((co for co, m in items if m), items[0][0])
        nd = norm_sign(d)
        return atom(mk("rlt0" if lead > 0 else "rgt0", nd))
    if a is b:
        return FALSE
    return atom(mk("lt", a, b))


def _lt0(d):
    if d.h == "ite":
        return lift(_lt0, d)
    if isc(d):
        return TRUE if d.a[0] < 0 else FALSE
    items = _poly_items(d)
    # trivial nonnegativity
    if all(co > 0 and all(nonneg(x) for x, e in m) for co, m in items if m) and all(co >= 0 for co, m in items if not m):
        return FALSE
    if all(co < 0 and all(nonneg(x) for x, e in m) for co, m in items if m) and any(co < 0 for co, m in items if not m):
        return TRUE
    lead = next((co for co, m in items if m), items[0][0])
    if lead < 0:
        # d < 0  <=>  -d > 0  <=> not (-d <= 0) <=> not (-d - 1 < 0)   (integers)
        return not_(_lt0(sub(neg(d), ONE)))
    # divide by gcd of non-constant coefficients when integral
    from math import gcd
    g = 0
    ok = True
    for co, m in items:
        if m:
            if co.denominator != 1:
                ok = False
            else:
                g = gcd(g, abs(co.numerator))
    if ok and g > 1:
        k = sum((co for co, m in items if not m), Fraction(0))
        # g*x + k < 0  <=> x < -k/g <=> x < ceil(-k/g)
        import math
        bound = math.ceil(-k / g)
        d = _from_items([(co / g, m) for co, m in items if m] + [(Fraction(-bound), ())])
    return atom(mk("lt0", d))


def le(a, b):
    if a.h == "ite" or b.h == "ite":
        return lift(le, a, b)
    if ty(a) == "int" and ty(b) == "int":
        return _lt0(sub(sub(a, b), ONE))
    return not_(lt(b, a))


def _constructs(name):
    """an external name spelled as a class, calling which makes an object"""
    last = name.rsplit(".", 1)[-1]
    return last[:1].isupper() and not last.isupper() and "_" not in last


def isnone(a):
    if a.h == "ite":
        return lift(isnone, a)
    if a is NONE:
        return TRUE
    if a.h in ("c", "seq", "dict", "poly", "len", "fn", "cls", "lam", "bound", "inst", "ref", "sum", "prod", "gct",
               "gi", "gsum", "gdelta", "gzero", "glt", "ix", "str", "set", "ext", "keys", "sorted", "exc", "op", "cart"):
        return FALSE
    if a.h == "app" and a.a[0].h == "ext" and _constructs(a.a[0].a[0]):
        return FALSE
    k = ty(a)
    if k is not None and not (isinstance(k, str) and k.startswith("opt:")):
        return FALSE
    return atom(mk("isnone", a))


def is_(a, b):
    if a.h == "ite" or b.h == "ite":
        return lift(is_, a, b)
    if a is b:
        return TRUE
    if b is NONE:
        return isnone(a)
    if a is NONE:
        return isnone(b)
    if isc(a) and isc(b) and isinstance(a.a[0], bool) and isinstance(b.a[0], bool):
        return FALSE
    if isc(b) and isinstance(b.a[0], bool):
        if ty(a) == "bool":
            return as_bool(a) if b.a[0] else not_(a)
        if ty(a) is not None:
            return FALSE
    if a.h in ("fn", "cls", "ext", "inst", "ref", "obj") and b.h in ("fn", "cls", "ext", "inst", "ref", "obj"):
        if a.h == "ext" and b.h == "ext":
            return atom(mk("is", *sorted((a, b))))
        return FALSE
    if a.h in ("fn", "cls", "inst", "ref", "obj") and isc(b) or b.h in ("fn", "cls", "inst", "ref", "obj") and isc(a):
        return FALSE
    if "obj" in (a.h, b.h):
        # unique sentinel objects are only identical to themselves
        other = b if a.h == "obj" else a
        if other.h not in ("sym", "attr", "app", "at", "fv", "bv", "rec"):
            return FALSE
    return atom(mk("is", *sorted((a, b))))


@rebuilds("eq")
def _rb_eq(h, a, b):
    return eq(a, b)


@rebuilds("eq0")
def _rb_eq0(h, a):
    return eq(a, ZERO)


@rebuilds("lt0")
def _rb_lt0(h, a):
    return lt(a, ZERO)


@rebuilds("rlt0")
def _rb_rlt0(h, a):
    return lt(a, ZERO)


@rebuilds("rgt0")
def _rb_rgt0(h, a):
    return lt(ZERO, a)


@rebuilds("lt")
def _rb_lt(h, a, b):
    return lt(a, b)


@rebuilds("isnone")
def _rb_isnone(h, a):
    return isnone(a)


@rebuilds("is")
def _rb_is(h, a, b):
    return is_(a, b)


@rebuilds("truthy")
def _rb_truthy(h, a):
    return as_bool(a)


# NOTE: atoms inside `ite` are rebuilt by their own constructors, which return
# boolean terms; _rb_ite turns them back into guards.


# ---------------------------------------------------------------- sequences

def el(x):
    return mk("el", x)


def sp(x):
    return mk("sp", x)


def seq(kind, segs):
    """Build a sequence from segments, normalising."""
    for i, s in enumerate(segs):
        if s.h in ("el", "sp") and s.a[0].h == "ite" and s.h == "sp":
            return lift(lambda x: seq(kind, tuple(segs[:i]) + (sp(x),) + tuple(segs[i + 1:])), s.a[0])
    out = []
    for s in segs:
        if s.h == "sp":
            x = s.a[0]
            if x.h == "seq":
                out.extend(x.a[1])
                continue
            if x.h == "dict":
                ks = dict_keys(x)
                if ks.h == "seq":
                    out.extend(ks.a[1])
                    continue
                return seq(kind, tuple(out) + (sp(ks),) + tuple(segs[segs.index(s) + 1:])) if ks.h == "ite" else mk("seq", kind, tuple(out) + (sp(ks),))
            if x.h == "slice_":
                pass
            if isinstance(ty(x), tuple) and ty(x)[0] == "dict" and x.h != "keys":
                s = sp(mk("keys", x))
            out.append(s)
        elif s.h == "fm":
            n = s.a[0][0]
            if n is ZERO:
                continue
            out.append(s)
        else:
            out.append(s)
    # absorb elements that continue a generic segment
    changed = True
    while changed:
        changed = False
        for k in range(len(out) - 1):
            a, b = out[k], out[k + 1]
            if a.h == "el" and b.h == "fm":
                r = _absorb_left(a, b)
            elif a.h == "fm" and b.h == "el":
                r = _absorb_right(a, b)
            else:
                r = None
            if r is not None:
                out[k:k + 2] = [r]
                changed = True
                break
    return mk("seq", kind, tuple(out))


def _single(body):
    """body seq of exactly one el -> the element, else None"""
    if body.h == "seq" and len(body.a[1]) == 1 and body.a[1][0].h == "el":
        return body.a[1][0].a[0]
    return None


def _absorb_left(a, b):
    body = b.a[4][0]
    if _single(body) is None:
        return None
    outer, n, ht, tys, bodies = b.a
    v = bv(ht, tys[0])
    if not occurs_any(body, {v}):
        return None
    x = _single(inst_binder(b, [c(-1)])[0])
    if x is not None and x is a.a[0]:
        var, (bd,) = open_(b)
        bd = subst(bd, {var[0]: sub(var[0], ONE)})
        return fm_seg(add(outer[0], ONE), var[0], bd)
    return None


def _absorb_right(a, b):
    body = a.a[4][0]
    if _single(body) is None:
        return None
    outer, n, ht, tys, bodies = a.a
    v = bv(ht, tys[0])
    if not occurs_any(body, {v}):
        return None
    x = _single(inst_binder(a, [outer[0]])[0])
    if x is not None and x is b.a[0]:
        var, (bd,) = open_(a)
        return fm_seg(add(outer[0], ONE), var[0], bd)
    return None


def fm_seg(n, var, body):
    """Generic segment: concatenation of body(var) (a list term) for var<n.
    Returns a segment (el/sp/fm); caller must wrap with seq()."""
    if is_int_const(n) and n.a[0] <= 6:
        segs = []
        for k in range(max(0, n.a[0])):
            segs.append(sp(subst(body, {var: c(k)})))
        return sp(seq("list", segs))
    if body.h == "ite":
        for at in guards(body):
            if not _depends(at, var):
                return sp(ite(atom(at),
                              seq("list", [fm_seg(n, var, assume(body, at, True))]),
                              seq("list", [fm_seg(n, var, assume(body, at, False))])))
    if body.h == "seq":
        if body.a[0] != "list":
            body = mk("seq", "list", body.a[1])
        if not body.a[1]:
            return sp(mk("seq", "list", ()))
        x = _single(body)
        if x is not None and x.h == "at" and x.a[1] is var and not _depends(x.a[0], var):
            # eta: [S[i] for i in range(len(S))] = S
            if length(x.a[0]) is n:
                return sp(x.a[0])
            return sp(take(x.a[0], n))
        if x is not None and x.h == "at" and not _depends(x.a[0], var):
            off = sub(x.a[1], var)
            if off.h != "ite" and not _depends(off, var):
                if add(off, n) is length(x.a[0]):
                    return sp(drop(x.a[0], off))
    return close("fm", (n,), [var], [body])


def take(s, n):
    """first n elements of opaque sequence s"""
    if s.h == "seq":
        return slice_seq(s, ZERO, n)
    if length(s) is n:
        return s
    return mk("slice", s, ZERO, n)


def drop(s, k):
    if k is ZERO:
        return s
    if s.h == "seq":
        return slice_seq(s, k, length(s))
    return mk("slice", s, k, length(s))


@rebuilds("fm")
def _rb_fm(h, outer, fvars, bodies):
    return fm_seg(outer[0], fvars[0], bodies[0])


@rebuilds("seq")
def _rb_seq(h, kind, segs):
    return seq(kind, segs)


@rebuilds("sp")
def _rb_sp(h, x):
    return sp(x)


def seq_of(kind, xs):
    return mk("seq", kind, tuple(el(x) for x in xs))


def segs_of(t):
    """Segments of an iterable value term (None if unknown)."""
    if t.h == "seq":
        return t.a[1]
    if t.h == "dict":
        k = dict_keys(t)
        return k.a[1] if k.h == "seq" else (sp(k),)
    k = ty(t)
    if isinstance(k, tuple) and k[0] == "dict":
        return (sp(mk("keys", t)),)
    return (sp(t),)


def seq_len(t):
    r = ZERO
    for s in t.a[1]:
        r = add(r, seg_len(s))
    return r


def seg_len(s):
    if s.h == "el":
        return ONE
    if s.h == "sp":
        return length(s.a[0])
    if s.h == "fm":
        outer, n, ht, tys, bodies = s.a
        (v,), (b,) = open_(s)
        return sum_(outer[0], v, map_leaves(b, lambda x: seq_len(x) if x.h == "seq" else length(x)))
    raise AssertionError(s.h)


LEN_UF = {}   # union-find on length terms assumed equal (reset per obligation)


def uf_find(x):
    while x in LEN_UF:
        x = LEN_UF[x]
    return x


def uf_union(a, b):
    a, b = uf_find(a), uf_find(b)
    if a is b:
        return
    if b.dig < a.dig:
        a, b = b, a
    # prefer smaller terms as representative
    if size(b) < size(a):
        a, b = b, a
    LEN_UF[b] = a


def length(t):
    if t.h == "ite":
        return lift(length, t)
    if t.h == "seq":
        return seq_len(t)
    if t.h == "dict":
        return dict_len(t)
    if t.h == "c" and isinstance(t.a[0], str):
        return c(len(t.a[0]))
    if t.h == "slice":
        return sub(t.a[2], t.a[1])
    if t.h == "keys":
        return length(t.a[0]) if t.a[0].h not in ("dict",) else dict_len(t.a[0])
    if t.h in ("sorted", "rev"):
        return length(t.a[0])
    if t.h == "set" and t.a[0].h == "seq" and all(s.h == "el" for s in t.a[0].a[1]):
        if len(t.a[0].a[1]) <= 1:
            return c(len(t.a[0].a[1]))
        if len(t.a[0].a[1]) <= 4:
            r = map_leaves(set_order(t), length)
            return uf_find(mk("len", t)) if any(x.h == "len" for x in leaves(r)) else r
    for f in LEN_RULES:
        r = f(t)
        if r is not None:
            return r
    return uf_find(mk("len", t))


LEN_RULES = []
AT_RULES = []


@rebuilds("len")
def _rb_len(h, t):
    return length(t)


def at(s, i):
    """s[i] for a sequence s (0 <= i < len assumed)"""
    if s.h == "ite" or i.h == "ite":
        return lift(at, s, i)
    if is_int_const(i) and i.a[0] < 0:
        # negative index
        if s.h == "seq":
            k = -i.a[0]
            segs = s.a[1]
            cnt = 0
            for g in reversed(segs):
                if g.h != "el":
                    break
                cnt += 1
                if cnt == k:
                    return g.a[0]
        n = length(s)
        if is_int_const(n) and n.a[0] + i.a[0] < 0:
            return top("index out of range")
        if is_int_const(n):
            return at(s, add(n, i))
        if s.h == "seq" or n.h == "ite":
            return mk("at", s, i) if n.h != "ite" else lift(lambda m: at(s, add(m, i)) if not is_int_const(m) or m.a[0] + i.a[0] >= 0 else top("index out of range"), n)
        return at(s, add(n, i))
    if s.h == "seq":
        segs = list(s.a[1])
        j = i
        while segs:
            g = segs[0]
            if is_int_const(j):
                if g.h == "sp" and g.a[0].h == "ite":
                    cond, x, y = g.a[0].a
                    rest = tuple(segs[1:])
                    return ite(atom(cond), at(seq(s.a[0], (sp(x),) + rest), j), at(seq(s.a[0], (sp(y),) + rest), j))
                if g.h == "el":
                    if j.a[0] == 0:
                        return g.a[0]
                    j = sub(j, ONE)
                    segs.pop(0)
                    continue
                n = seg_len(g)
                if is_int_const(n):
                    if j.a[0] < n.a[0]:
                        break
                    j = sub(j, n)
                    segs.pop(0)
                    continue
                break
            else:
                n = seg_len(g)
                d = sub(j, n)
                # j >= n known?
                if _known_nonneg(d):
                    j = d
                    segs.pop(0)
                    continue
                break
        if not segs:
            return top("index out of range")
        g = segs[0]
        if len(segs) == 1 or _known_in(j, g):
            if g.h == "sp":
                return at(g.a[0], j)
            if g.h == "fm":
                b = inst_binder(g, [j])[0]
                if b.h == "ite":
                    return lift(lambda x: _single(x) if _single(x) is not None else mk("at", mk("seq", "tuple", tuple(segs)), j), b)
                x = _single(b)
                if x is not None:
                    return x
        return mk("at", mk("seq", "tuple", tuple(segs)), j)
    if s.h == "c" and isinstance(s.a[0], str) and is_int_const(i):
        try:
            return c(s.a[0][i.a[0]])
        except IndexError:
            return top("index out of range")
    if s.h == "slice":
        return at(s.a[0], add(s.a[1], i))
    if s.h == "rev":
        return at(s.a[0], sub(sub(length(s.a[0]), ONE), i))
    for f in AT_RULES:
        r = f(s, i)
        if r is not None:
            return r
    return mk("at", s, i)


def _known_nonneg(d):
    items = _poly_items(d)
    if items is None or d.h == "ite":
        return False
    return all(co > 0 and all(nonneg(x) for x, e in m) for co, m in items if m) and all(co >= 0 for co, m in items if not m)


def _known_in(j, g):
    """is index j surely inside segment g?"""
    n = seg_len(g)
    d = sub(sub(n, j), ONE)
    if d.h == "ite":
        return False
    if _known_nonneg(d):
        return True
    # loop variable ranging over this very length
    if j.h in ("fv",) and RANGE_OF.get(j) is n:
        return True
    return False


RANGE_OF = {}   # fresh loop variable -> its bound


@rebuilds("at")
def _rb_at(h, s, i):
    if isinstance(ty(s), tuple) and ty(s)[0] == "dict" or s.h == "dict":
        return sel(s, i)
    return at(s, i)


def slice_seq(s, lo, hi):
    """s[lo:hi] with 0<=lo<=hi<=len"""
    if s.h == "ite" or lo.h == "ite" or hi.h == "ite":
        return lift(slice_seq, s, lo, hi)
    n = length(s)
    if lo is ZERO and hi is n:
        return s
    if s.h == "seq":
        kind = s.a[0]
        segs = s.a[1]
        # walk
        out = []
        pos = ZERO
        started = False
        ok = True
        i = 0
        while i < len(segs):
            g = segs[i]
            ln = seg_len(g)
            end = add(pos, ln)
            if not started:
                if lo is pos:
                    started = True
                elif _known_nonneg(sub(lo, end)):
                    pos = end
                    i += 1
                    continue
                elif g.h == "fm" and _single(g.a[4][0]) is not None and _known_nonneg(sub(lo, pos)):
                    # cut the front of a generic segment
                    k = sub(lo, pos)
                    (v,), (b,) = open_(g)
                    g = fm_seg(sub(ln, k), v, subst(b, {v: add(v, k)}))
                    segs = segs[:i] + (g,) + segs[i + 1:]
                    pos = lo
                    started = True
                    continue
                else:
                    ok = False
                    break
            if started:
                if hi is pos:
                    return seq(kind, out)
                ln = seg_len(g)
                end = add(pos, ln)
                if hi is end or _known_nonneg(sub(hi, end)):
                    out.append(g)
                    pos = end
                    i += 1
                    continue
                if g.h == "fm" and _single(g.a[4][0]) is not None:
                    (v,), (b,) = open_(g)
                    out.append(fm_seg(sub(hi, pos), v, b))
                    return seq(kind, out)
                if g.h == "sp":
                    out.append(sp(mk("slice", g.a[0], ZERO, sub(hi, pos))))
                    return seq(kind, out)
                ok = False
                break
        if ok and started and (hi is pos or _known_nonneg(sub(hi, pos))):
            return seq(kind, out)
        if ok and not started and (lo is pos or _known_nonneg(sub(lo, pos))):
            return seq(kind, ())
        return mk("slice", s, lo, hi)
    if s.h == "slice":
        return mk("slice", s.a[0], add(s.a[1], lo), add(s.a[1], hi))
    if s.h == "c" and isinstance(s.a[0], str) and is_int_const(lo) and is_int_const(hi):
        return c(s.a[0][lo.a[0]:hi.a[0]])
    d = sub(hi, lo)
    if d is ZERO:
        k = ty(s)
        return seq(k[0] if is_seq_ty(k) else "tuple", ())
    return mk("slice", s, lo, hi)


@rebuilds("slice")
def _rb_slice(h, s, lo, hi):
    return slice_seq(s, lo, hi)


def map_seq(kind, s, f, pos=None):
    """[f(x) or list segments] over s: f(x, index) -> list term (seq 'list')."""
    return seq(kind, map_segs(segs_of(s), f, ZERO))


def map_segs(segs, f, pos):
    out = []
    for g in segs:
        if g.h == "el":
            out.append(sp(f(g.a[0], pos)))
            pos = add(pos, ONE)
        elif g.h == "sp":
            n = length(g.a[0])
            v = fresh("int")
            RANGE_OF[v] = n
            b = f(at(g.a[0], v), add(pos, v))
            out.append(fm_seg(n, v, b))
            pos = add(pos, n)
        elif g.h == "fm":
            (v,), (b,) = open_(g)
            n = g.a[0][0]
            RANGE_OF[v] = n
            single = _single(b)
            if single is not None:
                out.append(fm_seg(n, v, f(single, add(pos, v))))
                pos = add(pos, n)
            else:
                start = add(pos, sum_(v, *_lenbody(g)))
                body = map_leaves(b, lambda x: seq("list", map_segs(segs_of(x), f, start)))
                out.append(fm_seg(n, v, body))
                pos = add(pos, seg_len(g))
        else:
            raise AssertionError(g.h)
    return out


def _lenbody(g):
    (w,), (b,) = open_(g)
    return w, map_leaves(b, lambda x: seq_len(x) if x.h == "seq" else length(x))


def sum_seq(s, start=ZERO):
    """builtin sum over numeric sequence"""
    if s.h == "ite":
        return lift(lambda x: sum_seq(x, start), s)
    r = start
    for g in segs_of(s):
        if g.h == "el":
            r = add(r, g.a[0])
        elif g.h == "sp":
            n = length(g.a[0])
            v = fresh("int")
            RANGE_OF[v] = n
            r = add(r, sum_(n, v, at(g.a[0], v)))
        else:
            (v,), (b,) = open_(g)
            RANGE_OF[v] = g.a[0][0]
            r = add(r, sum_(g.a[0][0], v, map_leaves(b, lambda x: sum_seq(x))))
    return r


def prod_seq(s, start=ONE):
    if s.h == "ite":
        return lift(lambda x: prod_seq(x, start), s)
    r = start
    for g in segs_of(s):
        if g.h == "el":
            r = mul(r, g.a[0])
        elif g.h == "sp":
            n = length(g.a[0])
            v = fresh("int")
            RANGE_OF[v] = n
            r = mul(r, prod_(n, v, at(g.a[0], v)))
        else:
            (v,), (b,) = open_(g)
            RANGE_OF[v] = g.a[0][0]
            r = mul(r, prod_(g.a[0][0], v, map_leaves(b, lambda x: prod_seq(x))))
    return r


def all_seq(s, pred=as_bool):
    """conjunction of pred(x) for x in s"""
    if s.h == "ite":
        return lift(lambda x: all_seq(x, pred), s)
    r = TRUE
    for g in segs_of(s):
        if g.h == "el":
            r = and_(r, pred(g.a[0]))
        elif g.h == "sp":
            n = length(g.a[0])
            v = fresh("int")
            RANGE_OF[v] = n
            r = and_(r, allq(n, v, pred(at(g.a[0], v))))
        else:
            (v,), (b,) = open_(g)
            RANGE_OF[v] = g.a[0][0]
            r = and_(r, allq(g.a[0][0], v, map_leaves(b, lambda x: all_seq(x, pred))))
    return r


def allq(n, v, body):
    """forall v<n: body"""
    if is_int_const(n) and n.a[0] <= 6:
        return and_(*[subst(body, {v: c(k)}) for k in range(max(0, n.a[0]))])
    if body is TRUE:
        return TRUE
    if body is FALSE:
        return eq(n, ZERO)
    if n.h == "ite":
        return lift(lambda m: allq(m, v, body), n)
    if body.h == "ite":
        for at_ in guards(body):
            if not _depends(at_, v):
                return ite(atom(at_), allq(n, v, assume(body, at_, True)), allq(n, v, assume(body, at_, False)))
        # split conjunctions: body = a and rest (else-branch False)
        at_, x, y = body.a
        if y is FALSE and x is not TRUE:
            return and_(allq(n, v, atom(at_)), allq(n, v, x))
        if x is FALSE and y is not TRUE:
            return and_(allq(n, v, not_(atom(at_))), allq(n, v, y))
    return atom(close("allq", (n,), [v], [body]))


@rebuilds("allq")
def _rb_allq(h, outer, fvars, bodies):
    return allq(outer[0], fvars[0], bodies[0])


def any_seq(s, pred=as_bool):
    return not_(all_seq(s, lambda x: not_(pred(x))))


def contains(x, s):
    """x in s"""
    if s.h == "ite":
        return lift(lambda t: contains(x, t), s)
    if s.h == "seq":
        return any_seq(s, lambda y: eq(x, y))
    if s.h == "set":
        return contains(x, s.a[0])
    if s.h == "dict":
        return in_dict(x, s)
    if s.h == "keys":
        return contains(x, s.a[0])
    if s.h == "c" and isinstance(s.a[0], str) and is_str_const(x):
        return TRUE if x.a[0] in s.a[0] else FALSE
    if x.h == "ite":
        return lift(lambda y: contains(y, s), x)
    if is_str_const(x) and len(x.a[0]) == 1 and s.h in ("str", "fmt"):
        ps = s.a[0] if s.h == "str" else (s,)
        if any(is_str_const(p) and x.a[0] in p.a[0] for p in ps):
            return TRUE
        if all(_lacks(p, x.a[0]) for p in ps):
            return FALSE
    # x = s[i] is in s
    if x.h == "at" and x.a[0] is s:
        k = ty(s)
        if is_seq_ty(k):
            return TRUE
    if x.h == "at" and x.a[0].h == "keys" and x.a[0].a[0] is s:
        return TRUE
    return atom(mk("in", x, s))


def _lacks(p, ch):
    """the printed part p does not have the character ch (names given by the user are taken to have no double quotes)"""
    if is_str_const(p):
        return ch not in p.a[0]
    if p.h != "fmt":
        return ch == '"' and ty(p) == "str"
    x = p.a[0]
    if ty(x) == "int":
        return ch not in "-0123456789"
    if ty(x) == "str":
        return ch == '"'
    if x.h == "seq":
        return ch not in "()[], " and all(g.h == "el" and _lacks(fmt(g.a[0], "r"), ch) for g in x.a[1])
    return False


@rebuilds("in")
def _rb_in(h, x, s):
    return contains(x, s)


# ---------------------------------------------------------------- dicts

def en(k, v):
    return mk("en", k, v)


def dict_(segs):
    for i, s in enumerate(segs):
        if s.h == "sp" and s.a[0].h == "ite":
            return lift(lambda x: dict_(tuple(segs[:i]) + (sp(x),) + tuple(segs[i + 1:])), s.a[0])
        if s.h == "en" and s.a[0].h == "ite":
            return lift(lambda x: dict_(tuple(segs[:i]) + (en(x, s.a[1]),) + tuple(segs[i + 1:])), s.a[0])
    out = []
    for s in segs:
        if s.h == "sp":
            x = s.a[0]
            if x.h == "dict":
                out.extend(x.a[0])
                continue
            out.append(s)
        elif s.h == "dfm" and s.a[0][0] is ZERO:
            continue
        else:
            out.append(s)
    # last assignment wins for identical constant keys (position of the first)
    res = []
    pos = {}
    for s in out:
        if s.h == "en":
            k = s.a[0]
            if k in pos and all(x.h == "en" and keys_differ(x.a[0], k) for x in res[pos[k] + 1:]):
                res[pos[k]] = s
                continue
            pos[k] = len(res)
            res.append(s)
        else:
            pos = {}
            res.append(s)
    return mk("dict", tuple(res))


def keys_differ(a, b):
    return eq(a, b) is FALSE


def dfm_seg(n, var, body):
    if is_int_const(n) and n.a[0] <= 6:
        return sp(dict_([sp(subst(body, {var: c(k)})) for k in range(max(0, n.a[0]))]))
    if body.h == "ite":
        for at_ in guards(body):
            if not _depends(at_, var):
                return sp(ite(atom(at_), dict_([dfm_seg(n, var, assume(body, at_, True))]),
                              dict_([dfm_seg(n, var, assume(body, at_, False))])))
    if body.h == "dict":
        if not body.a[0]:
            return sp(mk("dict", ()))
        # eta: {k: d[k] for k in d} = d
        if len(body.a[0]) == 1 and body.a[0][0].h == "en":
            k, v = body.a[0][0].a
            if k.h == "at" and k.a[1] is var and k.a[0].h == "keys" and v.h == "at" and v.a[0] is k.a[0].a[0] and v.a[1] is k \
                    and length(v.a[0]) is n:
                return sp(v.a[0])
    return close("dfm", (n,), [var], [body])


@rebuilds("dfm")
def _rb_dfm(h, outer, fvars, bodies):
    return dfm_seg(outer[0], fvars[0], bodies[0])


@rebuilds("dict")
def _rb_dict(h, segs):
    return dict_(segs)


DICT0 = mk("dict", ())


@rebuilds("en")
def _rb_en(h, k, v):
    return en(k, v)


def dict_len(t):
    if t.h != "dict":
        return length(t)
    r = ZERO
    segs = t.a[0]
    if len(segs) > 1 and not all(s.h == "en" for s in segs):
        return uf_find(mk("len", t))
    for s in segs:
        if s.h == "en":
            r = add(r, ONE)
        elif s.h == "sp":
            r = add(r, length(s.a[0]))
        else:
            (v,), (b,) = open_(s)
            r = add(r, sum_(s.a[0][0], v, map_leaves(b, dict_len)))
    return r


def dict_keys(d):
    if d.h == "ite":
        return lift(dict_keys, d)
    if d.h != "dict":
        return mk("keys", d)
    out = []
    for s in d.a[0]:
        if s.h == "en":
            out.append(el(s.a[0]))
        elif s.h == "sp":
            k = dict_keys(s.a[0])
            out.append(sp(k))
        else:
            (v,), (b,) = open_(s)
            out.append(fm_seg(s.a[0][0], v, dict_keys(b) if b.h != "ite" else lift(dict_keys, b)))
    return seq("list", out)


@rebuilds("keys")
def _rb_keys(h, d):
    return dict_keys(d)


def dict_items(d):
    """sequence of (k, v) tuples"""
    if d.h == "ite":
        return lift(dict_items, d)
    if d.h != "dict":
        k = mk("keys", d)
        n = length(d)
        v = fresh("int")
        RANGE_OF[v] = n
        kk = at(k, v)
        return seq("list", [fm_seg(n, v, seq_of("list", [seq_of("tuple", [kk, sel(d, kk)])]))])
    out = []
    for s in d.a[0]:
        if s.h == "en":
            out.append(el(seq_of("tuple", [s.a[0], s.a[1]])))
        elif s.h == "sp":
            out.append(sp(dict_items(s.a[0])))
        else:
            (v,), (b,) = open_(s)
            RANGE_OF[v] = s.a[0][0]
            out.append(fm_seg(s.a[0][0], v, dict_items(b)))
    return seq("list", out)


def dict_values(d):
    if d.h == "ite":
        return lift(dict_values, d)
    it = dict_items(d)
    return map_seq("list", it, lambda x, i: seq_of("list", [at(x, ONE)]))


def sel(d, k, default=None):
    """d[k]; default: value if missing (None -> assume present)."""
    if d.h == "ite" or k.h == "ite":
        return lift(lambda a, b: sel(a, b, default), d, k)
    if d.h == "dict":
        res = None   # value if found so far is built from the back
        segs = list(d.a[0])
        # scan from last to first
        conds = []
        for s in reversed(segs):
            if s.h == "en":
                e = eq(k, s.a[0])
                if e is FALSE:
                    continue
                conds.append((e, s.a[1]))
                if e is TRUE:
                    break
            elif s.h == "sp":
                present = in_dict(k, s.a[0])
                v = sel(s.a[0], k)
                conds.append((present, v))
                if present is TRUE:
                    break
            else:
                r = _sel_dfm(s, k)
                if r is None:
                    return mk("at", d, k)
                pres, v = r
                conds.append((pres, v))
                if pres is TRUE:
                    break
        if not conds:
            return default if default is not None else mk("keyerror", k)
        if default is not None:
            res = default
        else:
            # assume the key is present: the last candidate is unconditional
            pr, res = conds.pop()
        for cnd, v in reversed(conds):
            res = ite(cnd, v, res)
        return res
    if default is not None:
        p = in_dict(k, d)
        return ite(p, mk("at", d, k), default)
    return mk("at", d, k)


def _sel_dfm(s, k):
    """(present, value) of key k in a generic dict segment, or None."""
    outer, n, ht, tys, bodies = s.a
    (v,), (b,) = open_(s)
    RANGE_OF[v] = outer[0]
    if b.h != "dict" or len(b.a[0]) != 1:
        return None
    e = b.a[0][0]
    if e.h == "en":
        key, val = e.a
        if key.h == "at" and key.a[1] is v and not _depends(key.a[0], v):
            src = key.a[0]
            if k.h == "at" and k.a[0] is src:
                r = subst(val, {v: k.a[1]})
                return TRUE, r
            if _only_via(val, v, key):
                r = subst(val, {key: k})
                return contains(k, src), r
            return None
        if key is v:
            r = subst(val, {v: k})
            return and_(le(ZERO, k), lt(k, outer[0])), r
        if key.h == "seq" and k.h == "seq" and all(x.h == "el" for x in key.a[1]) and all(x.h == "el" for x in k.a[1]):
            if len(key.a[1]) != len(k.a[1]):
                return FALSE, NONE
    return _sel_nested(s, k)


def _sel_nested(s, k):
    """the entry is a function of its key alone, however deep the generators"""
    vs = []
    b = s
    while True:
        if b.h == "dfm":
            (v,), (body,) = open_(b)
            RANGE_OF[v] = b.a[0][0]
            vs.append(v)
            if body.h != "dict" or len(body.a[0]) != 1:
                return None
            b = body.a[0][0]
        elif b.h == "sp" and b.a[0].h == "ite" and DICT0 in b.a[0].a[1:]:
            b = b.a[0].a[1] if b.a[0].a[2] is DICT0 else b.a[0].a[2]
            if len(b.a[0]) != 1:
                return None
            b = b.a[0][0]
        elif b.h == "sp" and b.a[0].h == "dict" and len(b.a[0].a[0]) == 1:
            b = b.a[0].a[0][0]
        else:
            break
    if b.h != "en":
        return None
    key, val = b.a
    if isc(key) or key.h == "seq":
        return None
    r = subst(val, {key: k})
    if any(_depends(r, v) for v in vs):
        return None
    return atom(mk("in", k, mk("dict", (s,)))), r


def _only_via(val, v, key):
    ph = fresh("x")
    return not _depends(subst(val, {key: ph}), v)


def in_dict(k, d):
    if d.h == "ite" or k.h == "ite":
        return lift(in_dict, k, d)
    if d.h == "dict":
        r = FALSE
        for s in d.a[0]:
            if s.h == "en":
                r = or_(r, eq(k, s.a[0]))
            elif s.h == "sp":
                r = or_(r, in_dict(k, s.a[0]))
            else:
                x = _sel_dfm(s, k)
                if x is None:
                    return atom(mk("in", k, d))
                r = or_(r, x[0])
        return r
    if k.h == "at" and k.a[0].h == "keys" and k.a[0].a[0] is d:
        return TRUE
    return atom(mk("in", k, d))


# ---------------------------------------------------------------- strings

def strcat(parts):
    out = []
    for p in parts:
        if p.h == "ite":
            i = list(parts).index(p)
            return lift(lambda x: strcat(list(parts[:i]) + [x] + list(parts[i + 1:])), p)
        if p.h == "str":
            out.extend(p.a[0])
        else:
            out.append(p)
    res = []
    for p in out:
        if isc(p) and isinstance(p.a[0], str):
            if p.a[0] == "":
                continue
            if res and is_str_const(res[-1]):
                res[-1] = c(res[-1].a[0] + p.a[0])
                continue
        res.append(p)
    if not res:
        return c("")
    if len(res) == 1 and (isc(res[0]) or ty(res[0]) == "str"):
        return res[0]
    return mk("str", tuple(res))


def fmt(x, conv=""):
    """string part for a formatted value: conv '' (str), 'r' (repr), or a format spec"""
    if x.h == "ite":
        return lift(lambda y: fmt(y, conv), x)
    if isc(x):
        v = x.a[0]
        if isinstance(v, Fraction):
            v = float(v)
        if conv == "":
            return c(str(v))
        if conv == "r":
            return c(repr(v))
        try:
            return c(format(v, conv))
        except Exception:
            pass
    if conv in ("", "r") and x.h == "seq" and x.a[0] in ("tuple", "list") and _constlike(x):
        try:
            return c(repr(_display(x)))
        except TypeError:
            pass
    if x.h == "dict" and not x.a[0]:
        return c("{}")
    if conv == "" and ty(x) == "str":
        return x
    if conv == "r" and ty(x) in ("int", "num"):
        conv = ""
    if conv == "d" and ty(x) == "int":
        conv = ""
    return mk("fmt", x, conv)


def _display(t):
    if t.h == "c":
        if isinstance(t.a[0], Fraction):
            raise TypeError
        return t.a[0]
    if t.a[0] not in ("tuple", "list"):
        raise TypeError
    xs = [_display(g.a[0]) for g in t.a[1]]
    return tuple(xs) if t.a[0] == "tuple" else xs


@rebuilds("str")
def _rb_str(h, parts):
    return strcat(list(parts))


@rebuilds("fmt")
def _rb_fmt(h, x, conv):
    return fmt(x, conv)


def join(sep, s):
    if s.h == "ite":
        return lift(lambda x: join(sep, x), s)
    segs = segs_of(s)
    if all(g.h == "el" for g in segs):
        parts = []
        for i, g in enumerate(segs):
            if i:
                parts.append(sep)
            parts.append(g.a[0])
        return strcat(parts)
    return mk("join", sep, mk("seq", "list", tuple(segs)))


@rebuilds("join")
def _rb_join(h, sep, s):
    return join(sep, s)


# ---------------------------------------------------------------- sorted / set / minmax

def sorted_(s):
    if s.h == "ite":
        return lift(sorted_, s)
    if s.h == "sorted":
        return s
    segs = segs_of(s)
    if all(g.h == "el" and isc(g.a[0]) for g in segs):
        try:
            return seq_of("list", sorted((g.a[0] for g in segs), key=lambda x: x.a[0]))
        except TypeError:
            pass
    if all(g.h == "el" and _constlike(g.a[0]) for g in segs):
        try:
            return seq_of("list", sorted((g.a[0] for g in segs), key=_pyval))
        except TypeError:
            pass
    if len(segs) == 1 and segs[0].h == "sp":
        x = segs[0].a[0]
        if x.h == "sorted":
            return x
        return mk("sorted", x)
    if len(segs) == 2 and all(g.h == "el" and ty(g.a[0]) in ("int", "num") for g in segs):
        pair = seq("list", segs)
        return seq_of("list", [minmax("min", pair), minmax("max", pair)])
    if all(g.h == "el" and g.a[0].h == "seq" for g in segs) and len(segs) > 1:
        try:
            return seq_of("list", sorted((g.a[0] for g in segs), key=functools.cmp_to_key(_lexcmp)))
        except _Unordered:
            pass
    if len(segs) == 1 and segs[0].h == "fm":
        x = _single(segs[0].a[4][0])
        ht = segs[0].a[2]
        if x is not None and x.h == "bv" and x.a[0] == ht:
            return seq("list", segs)   # range is sorted
    if not segs or (len(segs) == 1 and segs[0].h == "el"):
        return seq("list", segs)
    return mk("sorted", mk("seq", "list", tuple(segs)))


class _Unordered(Exception):
    pass


def _lexcmp(x, y):
    """order of two tuples decided by a prefix of constants"""
    if x is y:
        return 0
    if x.h == "c" and y.h == "c":
        if type(x.a[0]) is not type(y.a[0]) and not (is_num_const(x) and is_num_const(y)):
            raise _Unordered
        return -1 if x.a[0] < y.a[0] else 1
    if x.h == "seq" and y.h == "seq" and x.a[0] == y.a[0] and all(g.h == "el" for g in x.a[1] + y.a[1]):
        for p, q in zip(x.a[1], y.a[1]):
            r = _lexcmp(p.a[0], q.a[0])
            if r:
                return r
        return (len(x.a[1]) > len(y.a[1])) - (len(x.a[1]) < len(y.a[1]))
    raise _Unordered


def _pyval(t):
    if t.h == "c":
        return t.a[0]
    return tuple(_pyval(s.a[0]) for s in t.a[1])


@rebuilds("sorted")
def _rb_sorted(h, s):
    return sorted_(s)


def set_(s):
    """canonical set of a sequence: duplicates and order dropped"""
    if s.h == "ite":
        return lift(set_, s)
    if s.h == "set":
        return s
    segs = []
    for g in segs_of(s):
        if g.h == "sp" and g.a[0].h in ("sorted", "set"):
            inner = set_(g.a[0].a[0])
            if inner.h == "ite":
                rest = tuple(x for x in segs_of(s) if x is not g)
                return lift(lambda x: set_(mk("seq", "list", rest + x.a[0].a[1])), inner)
            segs.extend(inner.a[0].a[1])
            continue
        if g.h == "fm":
            (v,), (b,) = open_(g)
            if not _depends(b, v):
                # the same elements however often, if at all
                rest = tuple(x for x in segs_of(s) if x is not g)
                with_ = set_(mk("seq", "list", rest + b.a[1]))
                return ite(lt(ZERO, g.a[0][0]), with_, set_(mk("seq", "list", rest)))
        segs.append(g)
    segs = tuple(sorted(set(segs)))
    return mk("set", mk("seq", "list", segs))


def set_order(t):
    """the members of a set in canonical order; equal members counted once"""
    segs = t.a[0].a[1]
    if 2 <= len(segs) <= 4 and all(g.h == "el" for g in segs):
        def go(k, kept):
            if k == len(segs):
                return seq_of("list", kept)
            x = segs[k].a[0]
            dup = or_(*[eq(x, y) for y in kept]) if kept else FALSE
            if dup is FALSE:
                return go(k + 1, kept + [x])
            return ite(dup, go(k + 1, kept), go(k + 1, kept + [x]))
        return go(0, [])
    return mk("seq", "list", segs)


@rebuilds("set")
def _rb_set(h, s):
    return set_(s)


def minmax(which, s):
    if s.h == "ite":
        return lift(lambda x: minmax(which, x), s)
    st = set_(s)
    if st.h == "ite":
        return lift(lambda x: minmax(which, x), st)
    inner = st.a[0]
    segs = inner.a[1]
    if len(segs) == 1 and segs[0].h == "el":
        return segs[0].a[0]
    if segs and all(g.h == "el" and isc(g.a[0]) for g in segs):
        try:
            vals = [g.a[0] for g in segs]
            f = max if which == "max" else min
            return f(vals, key=lambda x: x.a[0])
        except TypeError:
            pass
    if any(g.h == "el" and g.a[0].h == "ite" for g in segs):
        for i, g in enumerate(segs):
            if g.h == "el" and g.a[0].h == "ite":
                return lift(lambda x: minmax(which, mk("seq", "list", segs[:i] + (el(x),) + segs[i + 1:])), g.a[0])
    # flatten nested max of max
    out = []
    for g in segs:
        if g.h == "el" and g.a[0].h == "max" and g.a[0].a[0] == which:
            out.extend(g.a[0].a[1].a[1])
        else:
            out.append(g)
    return mk("max", which, set_(mk("seq", "list", tuple(out))).a[0])


@rebuilds("max")
def _rb_max(h, which, s):
    return minmax(which, s)


# ---------------------------------------------------------------- uninterpreted calls

def app(f, args=(), kw=()):
    """uninterpreted pure call; guards are moved outwards"""
    for i, x in enumerate(args):
        if x.h == "ite":
            return lift(lambda y: app(f, args[:i] + (y,) + args[i + 1:], kw), x)
        if x.h == "sp" and x.a[0].h == "ite":
            return lift(lambda y: app(f, args[:i] + (sp(y),) + args[i + 1:], kw), x.a[0])
    for i, (k, x) in enumerate(kw):
        if x.h == "ite":
            return lift(lambda y: app(f, args, kw[:i] + ((k, y),) + kw[i + 1:]), x)
    if f.h == "ite":
        return lift(lambda g: app(g, args, kw), f)
    for r in APP_RULES:
        v = r(f, args, kw)
        if v is not None:
            return v
    return mk("app", f, tuple(args), tuple(kw))


APP_RULES = []
ATTR_RULES = []


def attr(o, name):
    if o.h == "ite":
        return lift(lambda x: attr(x, name), o)
    for r in ATTR_RULES:
        v = r(o, name)
        if v is not None:
            return v
    return mk("attr", o, name)


@rebuilds("app")
def _rb_app(h, f, args, kw):
    return app(f, args, kw)


@rebuilds("attr")
def _rb_attr(h, o, name):
    return attr(o, name)


def equality(at):
    """orient an equation as a substitution, or None"""
    if at.h == "eq":
        x, y = at.a
        vx, vy = isc(x) or x.h in ("seq", "dict"), isc(y) or y.h in ("seq", "dict")
        if vx and vy or "ite" in (x.h, y.h):
            return None
        if vx or not vy and (size(x) < size(y) or size(x) == size(y) and x.dig < y.dig):
            x, y = y, x
        if x.h in ("poly", "seq", "dict") or isc(x) or occurs_any(y, {x}):
            return None
        return {x: y}
    if at.h == "eq0" and at.a[0].h == "poly":
        p = at.a[0]
        cands = []
        for co, mono in p.a[0]:
            if co in (1, -1) and len(mono) == 1 and mono[0][1] == 1:
                cands.append((size(mono[0][0]), mono[0][0].dig, mono[0][0], co))
        for _, _, x, co in sorted(cands, key=lambda z: z[:2], reverse=True):
            rest = sub(p, x) if co == 1 else add(p, x)
            y = mul(c(-1), rest) if co == 1 else rest
            if not occurs_any(y, {x}):
                return {x: y}
        return None
    if at.h == "eq0" and not isc(at.a[0]):
        return {at.a[0]: ZERO}
    return None


def literal(g, v):
    """a condition as (guard, truth value), or None when it is decided or composite"""
    if g.h == "ite" and isc(g.a[1]) and isc(g.a[2]) and bool(g.a[1].a[0]) != bool(g.a[2].a[0]):
        return (g.a[0], v) if g.a[1].a[0] else (g.a[0], not v)
    return None if g.h in ("c", "ite") else (g, v)


def equations(facts):
    """closure of the equations among facts as one idempotent substitution"""
    out = {}
    for at, v in facts:
        if out:
            at = subst(at, out)
        lit = literal(at, v)
        if lit is None:
            continue
        at, v = lit
        m = atom_subst(at, v) or (equality(at) if v else None)
        if not m:
            continue
        out = {k: subst(w, m) for k, w in out.items()}
        out.update(m)
    return out
