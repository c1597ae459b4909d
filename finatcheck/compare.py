"""Decide whether two normalised values agree."""
from fractions import Fraction
from . import terms as tm
import hashlib
import itertools
import math
from . import gemdom as gd
from .terms import c, mk, TRUE, FALSE, isc, ite, leaves, assume, subst, show, ty

SELFS = {"Element", "Cell", "PointSet", "QuadratureRule", "FiatElement", "UflElement", "UflCell", "Index", "Functional"}

# heads whose normal form is not complete: a difference below them is not conclusive
FLEX = {"top", "fold", "foldsel", "whl", "first", "op", "stepslice", "setop", "zipstar", "maxk", "sortedk", "cumsum", "opaquefn", "effects",
        "cyc", "nptrans", "ndindex", "rev", "mark", "pyf", "keyerror", "unbound", "bm", "partial", "frame", "ref", "raisesany",
        "subset", "subset_strict", "hasattr", "typeof", "modx", "cart", "rep", "unravel", "ravel", "setof", "sorted", "max",
        "floordiv", "mod", "join", "fmt", "lam", "super"}
SOFT = {"cart", "rep", "unravel", "ravel", "sorted", "setof", "max", "floordiv", "mod", "join", "fmt", "lam"}

# expression node kinds that only the same node kind can equal
FREE = {"gem.Comparison", "gem.LogicalAnd", "gem.LogicalOr", "gem.LogicalNot", "gem.MathFunction", "gem.Conditional"}


def fiat_class(name):
    """elements constructed from different FIAT classes are different elements"""
    if not name.startswith("FIAT."):
        return False
    return name.rsplit(".", 1)[1][:1].isupper()


SIMPLE_ATOMS = {"eq", "eq0", "isnone", "isinst", "truthy", "is", "lt0", "lt", "rlt0", "rgt0"}


class Result:
    def __init__(self):
        self.equal = 0
        self.diffs = []      # (path facts, impl, spec)
        self.unknown = []
        self.steps = 0

    @property
    def verdict(self):
        if self.diffs:
            return "violated"
        if self.unknown:
            return "undecided"
        return "holds"


def free_families(t):
    """free index families in order of first occurrence"""
    seen, out, done = set(), [], set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in done or not x.hasfv:
            continue
        done.add(x)
        if x.h == "fv":
            if x.a[1] == "ixf" and x not in seen:
                seen.add(x)
                out.append(x)
            continue
        stack.extend(reversed(list(tm._flat(x.a))))
    return out


def canon_free(t, rounds=3):
    """rename free index families by the way they are used"""
    fs = free_families(t)
    if not fs:
        return t
    sig = {f: b"" for f in fs}
    for _ in range(rounds if len(fs) > 1 else 1):
        new = {}
        for f in fs:
            m = {g: mk("mark", "self" if g is f else sig[g]) for g in fs}
            new[f] = subst(t, m).dig
        sig = new
    order = sorted(fs, key=lambda f: sig[f])
    return subst(t, {f: tm.sym("ix#%d" % k, "ixf") for k, f in enumerate(order)})


def vocab(t):
    out = set()
    for x in tm.subterms(t):
        if x.h == "ext":
            out.add(("ext", x.a[0]))
        elif x.h == "fn":
            out.add(("fn", x.a[0]))
        elif x.h == "attr":
            out.add(("attr", x.a[1]))
        elif x.h in SOFT:
            out.add(("head", x.h))
    return out


def flex(t, voc, memo):
    """does t contain something whose normal form is not conclusive?"""
    r = memo.get(t)
    if r is not None:
        return r
    memo[t] = False
    r = None
    h = t.h
    if h in SOFT:
        if ("head", h) not in voc:
            r = h
    elif h in FLEX:
        r = h
    elif h == "app":
        f = t.a[0]
        if tm.is_surd(t):
            pass
        elif f.h == "ext" and ("ext", f.a[0]) not in voc and f.a[0] not in FREE and not fiat_class(f.a[0]):
            r = f.a[0]
        elif f.h == "fn" and ("fn", f.a[0]) not in voc:
            r = f.a[0]
        elif f.h == "attr" and ty(f.a[0]) not in SELFS and ("attr", f.a[1]) not in voc:
            r = "." + f.a[1]
        elif f.h not in ("ext", "fn", "attr", "sym", "at", "bv"):
            r = "call of " + f.h
    elif h == "attr" and ty(t.a[0]) not in SELFS and ("attr", t.a[1]) not in voc:
        r = "." + t.a[1]
    elif h == "gi" and t.a[0].h in ("gct",):
        r = "stuck index"
    elif h in ("at", "slice", "len") and t.a[0].h in ("seq", "dict", "app", "ite"):
        if not (t.a[0].h == "app"):
            r = "stuck " + h
    if not r:
        for x in tm._flat(t.a):
            r = flex(x, voc, memo)
            if r:
                break
    memo[t] = r
    return r


NUMTERM = {"poly", "c", "sym", "at", "gi", "app", "attr", "len", "pow"}


class NoEval(Exception):
    pass


HANDLED = {"max", "floordiv", "mod"}


def pick(t, env, seed, n=None):
    if t not in env:
        d = hashlib.blake2b(t.dig + bytes([seed])).digest()
        env[t] = d[0] % (n if n is not None else (7 if seed % 2 else 4))
    return env[t]


def ev_num(t, env, seed):
    """value of an arithmetic term under an assignment of its atoms"""
    h = t.h
    if h == "c":
        v = t.a[0]
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, (int, Fraction)):
            return v
        raise NoEval
    if h == "poly":
        r = Fraction(0)
        for co, mono in t.a[0]:
            v = Fraction(co)
            for x, e in mono:
                b = ev_num(x, env, seed)
                if e < 0 and b == 0:
                    raise NoEval
                v *= Fraction(b) ** e
            r += v
        return r
    if h == "max":
        s = t.a[1]
        vs = ev_seq(s, env, seed)
        if not vs:
            raise NoEval
        return max(vs) if t.a[0] == "max" else min(vs)
    if h in ("floordiv", "mod"):
        x, y = ev_num(t.a[0], env, seed), ev_num(t.a[1], env, seed)
        if y == 0:
            raise NoEval
        return x // y if h == "floordiv" else x % y
    if h in ("sum", "prod") and t.a[1] == 1:
        n = ev_num(t.a[0][0], env, seed)
        r = Fraction(0 if h == "sum" else 1)
        for k in range(int(n)):
            v = ev_num(tm.inst_binder(t, (c(k),))[0], env, seed)
            r = r + v if h == "sum" else r * v
        return r
    if h == "ravel":
        xs, dims = ev_seq(t.a[0], env, seed), ev_seq(t.a[1], env, seed)
        if len(xs) != len(dims):
            raise NoEval
        r = 0
        for x, d in zip(xs, dims):
            r = r * d + x
        return r
    if h == "ix":
        e = gd.extent_of(t)
        if e.h == "anyextent" or flex_head(e):
            raise NoEval
        n = int(ev_num(e, env, seed))
        if n <= 0:
            raise Infeasible
        return pick(t, env, seed, n)
    if h == "ite":
        g = ev_guard(t.a[0], env, seed)
        if g is None:
            raise NoEval
        return ev_num(t.a[1] if g else t.a[2], env, seed)
    if h == "len" and t.a[0].h in ("sym", "attr", "app", "comp") or h in ("sym", "attr", "app", "comp") \
            or h == "at" and (t.a[0].h in ("sym", "attr", "app") or t.a[0].h == "len"):
        if ty(t) not in ("int", "num", None) or flex_head(t):
            raise NoEval
        if h == "at" and not isc(t.a[1]):
            try:
                k = ev_num(t.a[1], env, seed)
            except NoEval:
                return pick(t, env, seed)
            if Fraction(k).denominator == 1:
                t = tm.at(t.a[0], c(int(k)))
                if t.h != "at":
                    return ev_num(t, env, seed)
        return pick(t, env, seed)
    if h == "len":
        if flex_head(t):
            raise NoEval
        return pick(t, env, seed)
    raise NoEval


def ev_seq(t, env, seed):
    """values of the members of a sequence of numbers"""
    if t.h == "ite":
        g = ev_guard(t.a[0], env, seed)
        if g is None:
            raise NoEval
        return ev_seq(t.a[1] if g else t.a[2], env, seed)
    if t.h == "seq":
        out = []
        for g in t.a[1]:
            if g.h == "el":
                out.append(ev_num(g.a[0], env, seed))
            elif g.h == "sp":
                out += ev_seq(g.a[0], env, seed)
            elif g.h == "fm":
                for k in range(int(ev_num(g.a[0][0], env, seed))):
                    b = tm.inst_binder(g, (c(k),))[0]
                    out += ev_seq(b, env, seed)
            else:
                raise NoEval
        return out
    k = ty(t)
    if t.h in ("sym", "attr", "app") and isinstance(k, tuple) and k[0] in ("tuple", "list") and k[1] in ("int", "num", "Index") and not flex_head(t):
        n = ev_num(tm.length(t), env, seed)
        return [ev_num(tm.at(t, c(i)) if k[1] != "Index" else stuck_index(tm.at(t, c(i))), env, seed) for i in range(int(n))]
    raise NoEval


def stuck_index(t):
    raise NoEval


class Infeasible(Exception):
    """the assignment contradicts the ranges of indices"""


def flex_head(t):
    return any(x.h in FLEX and x.h not in HANDLED for x in tm.subterms(t))


def ev_guard(g, env, seed):
    try:
        if g.h == "eq0":
            return ev_num(g.a[0], env, seed) == 0
        if g.h == "lt0":
            return ev_num(g.a[0], env, seed) < 0
        if g.h == "rlt0":
            return ev_num(g.a[0], env, seed) < 0
        if g.h == "rgt0":
            return ev_num(g.a[0], env, seed) > 0
    except NoEval:
        return None
    return None


def witness(x, y, path):
    """an assignment of the atoms on which two arithmetic terms differ"""
    for seed in range(40):
        env = {}
        try:
            if any(ev_guard(g, env, seed) not in (None, v) for g, v in path):
                continue
            if ev_num(x, env, seed) != ev_num(y, env, seed):
                return {show(k, 5): str(v) for k, v in env.items()}
        except Infeasible:
            continue
        except (NoEval, tm.Blowup):
            return None
    return None


def reachable(path, voc):
    """an assignment under which the arithmetic guards of the path hold, the
    others being tests of separate things"""
    for seed in range(60):
        env = {}
        try:
            for g, v in path:
                r = ev_guard(g, env, seed)
                if r is None:
                    if g.h not in SIMPLE_ATOMS or flex(g, voc, {}):
                        return False
                elif r != v:
                    break
            else:
                return True
        except Infeasible:
            continue
        except tm.Blowup:
            return False
    return False


def feasible(path):
    """no literal of the path contradicts its equations"""
    path = list(path)
    for _ in range(3):
        m = tm.equations(path)
        if not m:
            return True
        new = []
        for g, v in path:
            h = subst(g, m)
            if isc(h):
                if bool(h.a[0]) != v:
                    return False
                continue
            lit = tm.literal(h, v)
            if lit is None:
                continue
            h, v = lit
            if h is not g:
                for k, w in path:
                    if k is h and w != v:
                        return False
                new.append((h, v))
        if not new:
            return True
        path = path + [p for p in new if p not in path]
    return True


FACTS = [()]    # what the case has assumed


def few_values(path):
    """a whole number the path leaves few values for: (number, values), or None"""
    lo, hi, out = {}, {}, {}
    here = set()
    for n, (g, v) in enumerate(tuple(path) + tuple(FACTS[0])):
        if g.h not in ("lt0", "eq0") or g.h == "eq0" and v:
            continue
        p = g.a[0]
        items = p.a[0] if p.h == "poly" else (((1, ((p, 1),)),) if not isc(p) else ())
        lin = [(co, mono) for co, mono in items if mono]
        if len(lin) != 1 or len(lin[0][1]) != 1 or lin[0][1][0][1] != 1:
            continue
        x, co = lin[0][1][0][0], lin[0][0]
        if ty(x) != "int" or x.h == "bv":
            continue
        k = Fraction(sum(c0 for c0, mono in items if not mono))
        r = -k / co
        if n < len(path):
            here.add(x)
        if g.h == "eq0":
            out.setdefault(x, set()).add(r)
        elif (co > 0) == v:      # x < r, or x <= r where not (co x + k < 0) with co < 0
            hi[x] = min(hi.get(x, r), math.ceil(r) - 1 if v else math.floor(r))
        else:
            b = math.floor(r) + 1 if v else math.ceil(r)
            lo[x] = max(lo.get(x, b), b)
    for x in sorted(here, key=lambda t: t.dig):
        if x in lo and x in hi and hi[x] - lo[x] < 8:
            return x, [k for k in range(int(lo[x]), int(hi[x]) + 1) if k not in out.get(x, ())]
    return None


def derived_shape(g):
    """does g tell of the shape of an array the code computed?"""
    return any(t.h == "attr" and t.a[1] in ("shape", "size", "ndim") and t.a[0].h not in ("sym", "attr", "fv") for t in tm.subterms(g))


def compare(a, b, limit=4000, free=()):
    """a: implementation, b: specification; free: functions the specification leaves arbitrary"""
    res = Result()
    voc = vocab(b) | vocab(a) & set()
    gvoc = voc | {("fn", f) for f in free}
    memo = {}
    a, b = canon_free(a), canon_free(b)

    def add_unknown(path, x, y, why):
        if asserted(x) or asserted(y):
            # an assertion of the code whose failure is not established is taken to hold
            res.equal += 1
            return
        res.unknown.append((path, x, y, why))

    def guard_ok(at, other):
        """may a branch on this guard be assumed feasible?"""
        if at.h not in SIMPLE_ATOMS:
            return False
        return not flex(at, gvoc, {})

    def asserted(t):
        return t.h == "raises" and t.a[0].h == "c" and t.a[0].a[0] == "AssertionError"

    assert_memo = {}

    def may_assert(t):
        if t.h != "ite":
            return asserted(t)
        if t not in assert_memo:
            assert_memo[t] = may_assert(t.a[1]) or may_assert(t.a[2])
        return assert_memo[t]

    def atoms_of(t):
        return set(tm.guards(t))

    apart_memo = {}
    shared = atoms_of(a) & atoms_of(b)
    sp_atoms = atoms_of(b)

    def go(x, y, path, sure):
        res.steps += 1
        if res.steps > limit:
            add_unknown(path, x, y, "budget")
            return
        if x is y:
            res.equal += 1
            return
        if y.h == "anyval" or y.h == "refused" and x.h in ("raises", "raisesany"):
            res.equal += 1
            return
        if x.h == "ite" or y.h == "ite":
            at = min([t.a[0] for t in (x, y) if t.h == "ite"], key=tm.atom_key)
            s2 = sure and (at in shared or at in sp_atoms or guard_ok(at, y) or "guard")
            if s2 is True and sure == "guard":
                s2 = "guard"
            for v in (True, False):
                x2, y2 = deep(x, at, v), deep(y, at, v)
                # an equation that cannot be used as a substitution leaves
                # the two sides incomparable
                ok = not v or at.h not in ("eq", "eq0") or tm.equality(at) is not None
                # what follows an assertion of the code is taken to be reached
                s3 = sure if ok and s2 is not True and may_assert(deep(x, at, not v)) and not may_assert(x2) else s2
                go(x2, y2, path + ((at, v),), s3 if ok else False)
            return
        descend(x, y, path, sure)

    def leafdiff(x, y, path, sure, why=None):
        if not feasible(path):
            return
        few = few_values(path)
        if few is not None:
            n, values = few
            for k in values:
                env = {n: tm.c(k)}
                lits = [(subst(g, env), v) for g, v in path]
                if any(isc(g) and bool(g.a[0]) != v for g, v in lits):
                    continue
                kept = tuple(l for l in (tm.literal(g, v) for g, v in lits if not isc(g)) if l is not None)
                go(subst(x, env), subst(y, env), kept + ((tm.mk("eq0", tm.sub(n, tm.c(k))), True),), sure)
            return
        if x.h == "bad":
            # arithmetic on None: a TypeError, if the path is a conjunction of separate conditions
            if y.h in ("raises", "raisesany") or not all(g.h in SIMPLE_ATOMS and not flex(g, gvoc, {}) for g, _ in path):
                add_unknown(path, x, y, "arithmetic on None")
            else:
                res.diffs.append((path, x, y))
            return
        if asserted(x) and any(derived_shape(g) for g, _ in path):
            return add_unknown(path, x, y, "shape")
        if y.h == "refused" or y.h == "raises" and x.h not in ("raises", "raisesany"):
            # anything the analysis followed to a value, unexpanded functions included, is not a refusal
            quiet = {("head", h) for h in SOFT - {"floordiv", "mod"}}
            f = flex(x, voc | quiet | {v for v in vocab(x) if v[0] == "fn"}, {})
        elif {x.h, y.h} in ({"inst", "ext"}, {"inst", "c"}, {"inst", "fn"}, {"inst", "cls"}):
            f = None    # an object of a class of the program is none of these, whatever its attributes
        else:
            f = flex(x, voc, memo) or flex(y, voc, memo)
        if f in SOFT and sure is True and witness(x, y, path):
            res.diffs.append((path, x, y))
        elif f:
            add_unknown(path, x, y, f)
        elif not sure or sure == "guard" and not reachable(path, gvoc):
            add_unknown(path, x, y, "guard")
        else:
            res.diffs.append((path, x, y))

    def descend(x, y, path, sure):
        if x is y:
            res.equal += 1
            return
        if (x.h == "poly" or y.h == "poly") and x.h in NUMTERM and y.h in NUMTERM:
            try:
                if tm.clear(tm.sub(x, y)) is tm.ZERO:
                    res.equal += 1
                    return
            except tm.Blowup:
                return add_unknown(path, x, y, "polynomial too large")
        if x.h != y.h:
            if x.h == "inst" and ty(y) == "PointSet" and x.a[0].a[0].startswith("finat.point_set.") and dict(x.a[1]).get("indices") is not None:
                # a point set built by the code against a given one: at least their indices must agree
                if sure is True and apart(dict(x.a[1])["indices"], tm.attr(y, "indices"), path):
                    res.diffs.append((path, x, y))
                    return
            return leafdiff(x, y, path, sure)
        h = x.h
        if h == "seq":
            if x.a[0] != y.a[0] and {x.a[0], y.a[0]} <= {"list", "tuple", "iter"} and (x.a[1] == y.a[1]):
                # list instead of tuple: same members
                return leafdiff(x, y, path, sure) if STRICT_SEQ[0] else eqok()
            if len(x.a[1]) == len(y.a[1]) and all(p.h == q.h for p, q in zip(x.a[1], y.a[1])):
                for p, q in zip(x.a[1], y.a[1]):
                    segcmp(p, q, path, sure)
                return
            return leafdiff(x, y, path, sure)
        if h == "dict":
            return dictcmp(x, y, path, sure)
        if h in ("inst",) and x.a[0] is y.a[0] and [k for k, _ in x.a[1]] == [k for k, _ in y.a[1]]:
            for (k, p), (_, q) in zip(x.a[1], y.a[1]):
                go(p, q, path, sure)
            return
        if h == "app" and x.a[0] is y.a[0] and len(x.a[1]) == len(y.a[1]) and [k for k, _ in x.a[2]] == [k for k, _ in y.a[2]]:
            for p, q in list(zip(x.a[1], y.a[1])) + [(p, q) for (_, p), (_, q) in zip(x.a[2], y.a[2])]:
                if p.h == "sp" and q.h == "sp":
                    go(p.a[0], q.a[0], path, sure)
                elif p.h != "sp" and q.h != "sp":
                    go(p, q, path, sure)
                else:
                    leafdiff(p, q, path, sure)
            return
        if h == "app" and x.a[0].h == "attr" and y.a[0].h == "attr" and ty(x.a[0].a[0]) in SELFS and x.a[0].a[1] == y.a[0].a[1] and x.a[0] is not y.a[0] \
                and sure is True and not flex(x.a[0], voc, memo) and not flex(y.a[0], voc, memo) and feasible(path):
            # the same method of different collaborators
            res.diffs.append((path, x, y))
            return
        if h == "poly":
            d = tm.sub(x, y)
            return leafdiff_poly(d, x, y, path, sure)
        if h == "gct":
            go_binder(x, y, path, sure)
            return
        if h == "gi":
            # elements of different uninterpreted tables, or at different indices
            if flex(x, voc, memo) or flex(y, voc, memo):
                if x.a[0].h in ("app", "at") and x.a[0].h == y.a[0].h:
                    return go(x.a[0], y.a[0], path, sure) if x.a[1] is y.a[1] or apart(x.a[0], y.a[0], path) else leafdiff(x, y, path, sure)
        if h == "at" and x.a[0].h == "app" and y.a[0].h == "app" and (flex(x, voc, memo) or flex(y, voc, memo)):
            if x.a[1] is y.a[1] or apart(x.a[0], y.a[0], path):
                return go(x.a[0], y.a[0], path, sure)
        if h == "gsum" and (flex(x, voc, memo) or flex(y, voc, memo)):
            if sure is True and feasible(path) and sums_apart(x, y, path):
                res.diffs.append((path, x, y))
                return
        if h == "flat" and x.a[0] is y.a[0]:
            return leafdiff(x.a[1], y.a[1], path, sure)
        return leafdiff(x, y, path, sure)

    def eqok():
        res.equal += 1

    def apart(x, y, path):
        """do two terms differ for certain, whatever their inconclusive parts stand for?"""
        key = (x, y, path)
        r = apart_memo.get(key)
        if r is None:
            if res.steps > limit or x is y:
                return False
            keep = res.diffs, res.unknown, res.equal
            res.diffs, res.unknown = [], []
            apart_memo[key] = False
            go(x, y, path, True)
            r = any(p == path for p, _, _ in res.diffs)
            apart_memo[key] = r
            res.diffs, res.unknown, res.equal = keep
        return r

    def factors_apart(m1, m2, path):
        """products of uninterpreted quantities: equal only if their factors match"""
        f1 = [f for f in m1 if f not in m2]
        f2 = [f for f in m2 if f not in m1]
        for p, q in ((f1, f2), (f2, f1)):
            for x, e in p:
                if x.h in ("gi", "gsum", "app", "at", "attr", "sym") and all(
                        e != e2 or y.h in ("gi", "gsum", "app", "at", "attr", "sym", "gdelta", "ix") and (
                            x.h != y.h and not flex(x, voc, memo) and not flex(y, voc, memo) or apart(x, y, path)) for y, e2 in q):
                    return True
        return False

    def polys_apart(x, y, path):
        p, q = ([m for _, m in t.a[0]] if t.h == "poly" else [((t, 1),)] for t in (x, y))
        r1, r2 = [m for m in p if m not in q], [m for m in q if m not in p]
        if len(p) + len(q) > 12:
            return False
        for a1, a2 in ((r1, r2), (r2, r1)):
            for m in a1:
                if all(factors_apart(m, k, path) for k in a2) and all(k is m or factors_apart(m, k, path) for k in a1):
                    return True
        return False

    def sums_apart(x, y, path):
        """sums over as many indices: equal only if the terms are, for some matching of the indices"""
        if x.a[1] != y.a[1] or x.a[1] > 3:
            return False
        fv, bo = tm.open_(x)
        return all(any(apart(b, c2, path) for b, c2 in zip(bo, tm.inst_binder(y, pv))) for pv in itertools.permutations(fv))

    def leafdiff_poly(d, x, y, path, sure):
        if not feasible(path):
            return
        f = flex(d, voc, memo) if d.h != "c" else None
        if f and sure is True and f not in SOFT and polys_apart(x, y, path):
            res.diffs.append((path, x, y))
        elif f in SOFT and sure is True and witness(x, y, path):
            res.diffs.append((path, x, y))
        elif f:
            add_unknown(path, x, y, f)
        elif not sure or sure == "guard" and not reachable(path, gvoc):
            add_unknown(path, x, y, "guard")
        else:
            res.diffs.append((path, x, y))

    def go_binder(x, y, path, sure):
        o1, n1, h1, t1, b1 = x.a
        o2, n2, h2, t2, b2 = y.a
        if n1 != n2:
            return leafdiff(x, y, path, sure)
        fv, bo1 = tm.open_(x)
        bo2 = tm.inst_binder(y, fv)
        cnt = len(res.diffs) + len(res.unknown)
        for p, q in list(zip(bo1, bo2)):
            go(p, q, path, sure)
        if x.h == "gct" and len(res.diffs) + len(res.unknown) == cnt:
            e1, e2 = o1[0], o2[0]
            if e1 is not e2:
                extcmp(e1, e2, x, y, path, sure)
        elif x.h != "gct":
            for p, q in zip(o1, o2):
                go(p, q, path, sure)

    def extcmp(e1, e2, x, y, path, sure):
        # shapes: unknown extents are compatible with anything
        if any(z.h == "anyextent" for z in list(tm.subterms(e1)) + list(tm.subterms(e2))):
            res.equal += 1
            return
        go(e1, e2, path, sure)

    def segcmp(p, q, path, sure):
        if p is q:
            res.equal += 1
            return
        if p.h in ("el", "sp"):
            return go(p.a[0], q.a[0], path, sure)
        if p.h in ("fm", "dfm"):
            n = len(res.diffs) + len(res.unknown)
            go(p.a[0][0], q.a[0][0], path, sure)
            if len(res.diffs) + len(res.unknown) > n:
                return
            fv, b1 = tm.open_(p)
            b2 = tm.inst_binder(q, fv)
            tm.RANGE_OF[fv[0]] = p.a[0][0]
            return go(b1[0], b2[0], path, sure)
        if p.h == "en":
            go(p.a[0], q.a[0], path, sure)
            return go(p.a[1], q.a[1], path, sure)
        leafdiff(p, q, path, sure)

    def dictcmp(x, y, path, sure):
        s1, s2 = x.a[0], y.a[0]
        if all(s.h == "en" and isc(s.a[0]) for s in s1 + s2):
            d1, d2 = {s.a[0]: s.a[1] for s in s1}, {s.a[0]: s.a[1] for s in s2}
            if set(d1) != set(d2):
                return leafdiff(x, y, path, sure)
            for k in d1:
                go(d1[k], d2[k], path, sure)
            return
        if all(s.h == "en" for s in s1 + s2) and len(s1) == len(s2):
            d1, d2 = {s.a[0]: s.a[1] for s in s1}, {s.a[0]: s.a[1] for s in s2}
            if set(d1) == set(d2) and len(d1) == len(s1):
                for k in d1:
                    go(d1[k], d2[k], path, sure)
                return
        if len(s1) == len(s2) and all(p.h == q.h for p, q in zip(s1, s2)):
            for p, q in zip(s1, s2):
                segcmp(p, q, path, sure)
            return
        return leafdiff(x, y, path, sure)

    go(a, b, (), True)
    return res


STRICT_SEQ = [False]


def deep(t, at, v):
    """assume a guard everywhere inside a term"""
    r = assume(t, at, v)
    m = tm.equality(at) if v else None
    if m:
        r = subst(r, m)
    memo = {}

    def occurs(x):
        k = memo.get(x)
        if k is None:
            k = x is at or any(occurs(y) for y in tm._flat(x.a))
            memo[x] = k
        return k
    if not occurs(r):
        return r

    def f(x):
        if x.h == "ite":
            return assume(x, at, v)
        return x
    return tm.map_term(r, f)


def describe(path):
    return " and ".join(("" if v else "not ") + "(" + show(a, 6) + ")" for a, v in path) or "always"
