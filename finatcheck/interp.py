"""Interprocedural abstract interpreter over Python syntax trees.

The analysed program is never imported or executed.  Every statement of the
functions reached from an analysis root is given an abstract transfer function
over the value domain of terms.py.  Branches are joined (guarded values), loops
over collections of unknown length are summarised by one generic iteration,
unknown calls are uninterpreted function applications.
"""
import ast
import builtins
import os
import sys

from . import terms as tm
from .terms import (T, mk, c, NONE, TRUE, FALSE, ZERO, ONE, isc, sym, ext, top, fresh, ty, ite, lift, and_, or_, not_,
                    as_bool, eq, add, sub, mul, seq, seq_of, el, sp, length, at, dict_, en, sel, subst,
                    depends, map_leaves, leaves, atom, assume)

sys.setrecursionlimit(200000)

UNBOUND = mk("unbound", 0)
EMPTY_LIST = mk("seq", "list", ())
EMPTY_TUPLE = mk("seq", "tuple", ())
EMPTY_DICT = mk("dict", ())

REPO = os.environ.get("FINATCHECK_REPO", "/repo")
SPECLIB = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "specs", "lib")
SITE = None
for _p in ("/opt/venv/lib/python3.12/site-packages",):
    if os.path.isdir(_p):
        SITE = _p


class Dead(Exception):
    """No execution continues on this path (its exits have been recorded)."""


class AnalysisError(Exception):
    pass


class Exit:
    __slots__ = ("kind", "pc", "st", "val")

    def __init__(self, kind, pc, st, val):
        self.kind, self.pc, self.st, self.val = kind, pc, st, val


class State:
    __slots__ = ("heap", "pc", "facts", "log")

    def __init__(self):
        self.heap = {}
        self.pc = TRUE
        self.facts = ()
        self.log = ()

    def copy(self):
        s = State.__new__(State)
        s.heap = dict(self.heap)
        s.pc = self.pc
        s.facts = self.facts
        s.log = self.log
        return s


class Func:
    def __init__(self, name, qual, node, mod, closure, cls):
        self.name, self.qual, self.node, self.mod, self.closure, self.cls = name, qual, node, mod, closure, cls
        self.defaults = []
        self.kwdefaults = {}
        self.dispatch = None
        self.abstract = False
        self.term = None
        self.locals = None
        self.isgen = None
        self.memo = False       # results are cached by arguments


class Class:
    def __init__(self, name, qual, mod, node):
        self.name, self.qual, self.mod, self.node = name, qual, mod, node
        self.bases = []
        self.attrs = {}
        self.mro = []
        self.term = mk("cls", qual)


class Module:
    def __init__(self, name, path, kind):
        self.name, self.path, self.kind = name, path, kind
        self.ns = {}
        self.frame = None
        self.tree = None


FUNCS = {}
CLASSES = {}
BUILTIN_NAMES = set(dir(builtins)) | {"__file__", "__class__", "__path__", "__spec__"}
_uid = [0]


def uid():
    _uid[0] += 1
    return _uid[0]


class Ctx:
    """Execution context of one function activation."""
    __slots__ = ("fn", "frame", "mod", "yields", "depth")

    def __init__(self, fn, frame, mod, depth):
        self.fn, self.frame, self.mod, self.depth = fn, frame, mod, depth
        self.yields = None


BINOPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
          ast.MatMult: "@", ast.BitOr: "|", ast.BitAnd: "&", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>"}
OPNAMES = {"+": "add", "-": "sub", "*": "mul", "/": "truediv", "//": "floordiv", "%": "mod", "**": "pow", "@": "matmul",
           "|": "or", "&": "and"}


def guarded_leaves(t, g=TRUE):
    if t.h != "ite":
        return [(t, g)]
    a, x, y = t.a
    return guarded_leaves(x, and_(g, atom(a))) + guarded_leaves(y, and_(g, not_(atom(a))))


class Interp:
    MAXDEPTH = 60

    def __init__(self, repo=None):
        self.cached_values = set()
        self.repo = repo or REPO
        self.modules = {}
        self.st = State()
        self.sink = []
        self.trying = []
        self.ctx = None
        self.stack = []
        self.loopvars = ()
        self.touched = {}
        self.models = {}        # ext name -> python function(I, args, kwargs) -> T
        self.methods = {}       # (kind, name) -> python function
        self.attr_models = {}   # (proto, name) -> python function(I, obj)
        self.proto_class = {}   # proto -> repo class qual supplying concrete methods
        self.proto_concrete = {}  # proto -> set of names evaluated through source
        self.opaque_funcs = set()
        self.aliases = {}       # module name -> stand-in of the specification library, None: not installed
        self.module_opaque = None
        self.expected = set()
        self.unfolding = None
        self.assumed = []
        self.stated = []
        self.supposed = {}
        self.bound_ext = {}
        self.spec_names = {}
        self.notes = []
        self.ext_types = {}
        self.base_heap = None
        self.memo = {}
        self.inst_hooks = {}
        self.assume_asserts = True
        self.iternotes = 0
        self.callcount = 0
        self.max_calls = 200000
        tm.isinst_rel = self.isinst_rel

    # ------------------------------------------------------------ heap

    def alloc(self, cell):
        i = uid()
        self.st.heap[i] = cell
        return mk("ref", i)

    def cell(self, ref):
        r = self.st.heap.get(ref.a[0])
        if r is not None and r[0] == "arr" and len(r) > 3:
            # a view: positions in the array it was taken from
            b = self.cell(r[3])
            if b[0] != "arr":
                return ("any", top("view of an array that is no longer known"))
            return ("arr", r[1], tuple(b[2][p] for p in r[2]))
        return r

    def setcell(self, ref, cell):
        r = self.st.heap.get(ref.a[0])
        if r is not None and r[0] == "arr" and len(r) > 3:
            b = self.cell(r[3])
            if b[0] == "arr" and cell[0] == "arr" and cell[1] == r[1]:
                data = list(b[2])
                for p, v in zip(r[2], cell[2]):
                    data[p] = v
                return self.setcell(r[3], ("arr", b[1], tuple(data)))
            return self.setcell(r[3], ("any", top("array changed through a view")))
        self.st.heap[ref.a[0]] = cell

    def arr_view(self, o, pos, shape):
        """view of an array at the given positions"""
        raw = self.st.heap[o.a[0]]
        if len(raw) > 3:
            return self.alloc(("arr", shape, tuple(raw[2][p] for p in pos), raw[3]))
        return self.alloc(("arr", shape, tuple(pos), o))

    def new_list(self, segs=()):
        return self.alloc(("list", seq("list", list(segs))))

    def new_dict(self, d=EMPTY_DICT):
        return self.alloc(("dict", d))

    # ------------------------------------------------------------ facts / forking

    def known(self, cond):
        if isc(cond):
            return cond
        cond = as_bool(cond)
        for a, v in self.st.facts:
            if isc(cond):
                break
            cond = assume(cond, a, v)
        return cond

    def simp(self, t):
        """Simplify a value by the facts of the current path."""
        if t.h in ("c", "ref"):
            return t
        for a, v in self.st.facts:
            if t.h == "ite":
                t = assume(t, a, v)
            else:
                m = tm.atom_subst(a, v)
                if m:
                    t = subst(t, m)
        return t

    @staticmethod
    def literals(cond, val=True):
        out = []
        while cond.h == "ite":
            at_, x, y = cond.a
            if val:
                if y is FALSE:
                    out.append((at_, True))
                    cond = x
                elif x is FALSE:
                    out.append((at_, False))
                    cond = y
                else:
                    break
            else:
                if y is TRUE:
                    out.append((at_, True))
                    cond = x
                elif x is TRUE:
                    out.append((at_, False))
                    cond = y
                else:
                    break
        return out

    def add_fact(self, cond, val=True):
        lits = [l for l in self.literals(cond, val) if l not in self.st.facts]
        if lits:
            self.st.facts = self.st.facts + tuple(lits)

    def fork(self, cond, then, els):
        cond = self.known(cond)
        if cond is TRUE:
            return then()
        if cond is FALSE:
            return els()
        st0 = self.st
        res = []
        for val, f in ((True, then), (False, els)):
            s = st0.copy()
            s.pc = and_(st0.pc, cond if val else not_(cond))
            if s.pc is FALSE:
                res.append(None)
                continue
            self.st = s
            self.add_fact(cond, val)
            try:
                v = f()
                res.append((self.st, v))
            except Dead:
                res.append(None)
        if res[0] is None and res[1] is None:
            raise Dead()
        if res[0] is None:
            self.st = res[1][0]
            return res[1][1]
        if res[1] is None:
            self.st = res[0][0]
            return res[0][1]
        self.st = self.merge(cond, res[0][0], res[1][0], st0)
        v1, v2 = res[0][1], res[1][1]
        if v1 is None and v2 is None:
            return None
        return ite(cond, v1, v2)

    def merge(self, cond, s1, s2, base=None):
        s = State.__new__(State)
        heap = {}
        h1, h2 = s1.heap, s2.heap
        for k in h1:
            x = h1[k]
            y = h2.get(k)
            if y is None or x is y:
                heap[k] = x
            else:
                heap[k] = self.merge_cell(cond, x, y)
        for k in h2:
            if k not in h1:
                heap[k] = h2[k]
        s.heap = heap
        s.pc = or_(s1.pc, s2.pc)
        if base is not None:
            s.facts = base.facts
        else:
            s.facts = tuple(f for f in s1.facts if f in s2.facts)
        if s1.log == s2.log:
            s.log = s1.log
        else:
            k = 0
            while k < min(len(s1.log), len(s2.log)) and s1.log[k] == s2.log[k]:
                k += 1
            s.log = s1.log[:k] + tuple((and_(cond, g), t) for g, t in s1.log[k:]) \
                + tuple((and_(not_(cond), g), t) for g, t in s2.log[k:])
        return s

    def merge_cell(self, cond, x, y):
        if x == y:
            return x
        if x[0] != y[0]:
            return ("any", ite(cond, self.cell_term(x), self.cell_term(y)))
        k = x[0]
        if k == "frame":
            d = {}
            for n in x[1]:
                a, b = x[1][n], y[1].get(n, UNBOUND)
                d[n] = a if a is b else ite(cond, a, b)
            for n in y[1]:
                if n not in x[1]:
                    d[n] = ite(cond, UNBOUND, y[1][n])
            return ("frame", d) + x[2:]
        if k == "inst":
            d = {}
            for n in x[2]:
                a, b = x[2][n], y[2].get(n, UNBOUND)
                d[n] = a if a is b else ite(cond, a, b)
            for n in y[2]:
                if n not in x[2]:
                    d[n] = ite(cond, UNBOUND, y[2][n])
            return ("inst", x[1], d)
        if k in ("list", "dict", "set"):
            return (k, ite(cond, x[1], y[1]))
        if k == "iter":
            if x[1] is y[1]:
                return ("iter", x[1], ite(cond, x[2], y[2]))
            return ("iter", ite(cond, self.iter_rest(x), self.iter_rest(y)), ZERO)
        if k == "arr":
            if x == y:
                return x
            if x[1] == y[1] and len(x) == len(y) == 3:
                return ("arr", x[1], tuple(a if a is b else ite(cond, a, b) for a, b in zip(x[2], y[2])))
        return ("any", top("merge of different objects"))

    def cell_term(self, x):
        if x[0] in ("list", "dict", "set", "any"):
            return x[1]
        return top("merge of %s" % x[0])

    def scoped(self, f):
        """Run f with a fresh relative path condition and sink."""
        sink0, pc0 = self.sink, self.st.pc
        self.sink = []
        self.st.pc = TRUE
        alive = True
        val = None
        try:
            val = f()
        except Dead:
            alive = False
        exits = self.sink
        self.sink = sink0
        return alive, val, exits, pc0

    def exit(self, kind, val):
        self.sink.append(Exit(kind, self.st.pc, self.st, val))
        raise Dead()

    def raise_(self, exc):
        self.exit("raise", exc)

    def raise_name(self, name, msg=""):
        self.raise_(mk("exc", name, (c(msg),)))

    def propagate(self, exits, pc0):
        for e in exits:
            self.sink.append(Exit(e.kind, and_(pc0, e.pc), e.st, e.val))

    def join(self, parts, pc0):
        """Merge [(pc, st, val)] (disjoint, relative) into the current state."""
        pc, st, val = parts[-1]
        tot = pc
        for p, s, v in reversed(parts[:-1]):
            st2 = self.merge(p, s, st)
            st = st2
            if v is not None and val is not None:
                val = ite(p, v, val)
            tot = or_(tot, p)
        if len(parts) == 1:
            st = st.copy()
        st.pc = and_(pc0, tot)
        self.st = st
        return val

    # ------------------------------------------------------------ modules

    def modpath(self, name):
        base = os.path.join(self.repo, *name.split("."))
        if os.path.isfile(base + ".py"):
            return base + ".py"
        if os.path.isfile(os.path.join(base, "__init__.py")):
            return os.path.join(base, "__init__.py")
        if name in extern.SOURCE_MODULES:
            return extern._path(name)
        lib = os.path.join(SPECLIB, name + ".py")
        if "." not in name and os.path.isfile(lib):
            return lib
        return None

    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        path = self.modpath(name)
        if path is None:
            return None
        m = Module(name, path, "site" if name in extern.SOURCE_MODULES else "lib" if path.startswith(SPECLIB) else "repo")
        parent = None
        if "." in name and m.kind == "repo":
            parent = self.load(name.rsplit(".", 1)[0])
            if name in self.modules:
                return self.modules[name]
        self.modules[name] = m
        with open(path) as f:
            src = f.read()
        m.tree = ast.parse(src, path)
        self.exec_module(m, self.spec_names if m.kind == "lib" else None)
        if parent is not None:
            self.frame_set(parent.frame, name.rsplit(".", 1)[1], mk("mod", name))
        return m

    def load_source(self, name, path, src, extra=None):
        m = Module(name, path, "spec")
        self.modules[name] = m
        self.missing = set()
        m.tree = ast.parse(src, path)
        self.exec_module(m, extra)
        return m

    def exec_module(self, m, extra=None):
        saved = self.ctx, self.sink, self.loopvars, self.stack
        self.stack = []
        self.loopvars = ()
        m.frame = self.alloc(("frame", dict(extra or {}), None))
        self.frame_set(m.frame, "__name__", c(m.name))
        self.ctx = Ctx(None, m.frame, m, 0)
        self.sink = []
        try:
            if m.kind == "spec":
                for stmt in m.tree.body:
                    st0 = self.st.copy()
                    try:
                        self.block([stmt])
                    except Dead:
                        # what the specification refers to is gone from the code
                        self.st = st0
                        self.missing.add(ast.unparse(stmt).split("\n")[0])
            else:
                self.block(m.tree.body)
        except Dead:
            raise AnalysisError("module %s always raises: %s" % (m.name, [e.val for e in self.sink]))
        finally:
            self.ctx, self.sink, self.loopvars, self.stack = saved

    def frame_get(self, fr, name):
        return self.st.heap[fr.a[0]][1].get(name)

    def frame_set(self, fr, name, v):
        cell = self.st.heap[fr.a[0]]
        d = dict(cell[1])
        d[name] = v
        self.st.heap[fr.a[0]] = ("frame", d) + cell[2:]

    # ------------------------------------------------------------ names

    def lookup(self, name):
        fr = self.ctx.frame
        while fr is not None:
            cell = self.st.heap[fr.a[0]]
            v = cell[1].get(name)
            if v is not None:
                if v.h == "ite" and any(x is UNBOUND for x in leaves(v)):
                    v = self.drop_unbound(v)
                return v
            fr = cell[2]
        if self.ctx.mod.frame is not None:
            v = self.frame_get(self.ctx.mod.frame, name)
            if v is not None:
                if v.h == "ite" and any(x is UNBOUND for x in leaves(v)):
                    v = self.drop_unbound(v)
                return v
        if self.ctx.mod.kind == "repo" and name not in BUILTIN_NAMES and self.ctx.fn is not None and isinstance(self.ctx.fn, Func):
            self.raise_name("NameError", name)
        return mk("ext", "builtins." + name)

    def drop_unbound(self, v):
        if v.h != "ite":
            return v
        a, x, y = v.a
        x, y = self.drop_unbound(x), self.drop_unbound(y)
        if x is UNBOUND:
            return y
        if y is UNBOUND:
            return x
        return ite(atom(a), x, y)

    def setname(self, name, v):
        self.frame_set(self.ctx.frame, name, v)

    # ------------------------------------------------------------ freezing

    def freeze(self, t, depth=0):
        """Immutable value term denoted by t in the current state."""
        if not t.hasref and t.h not in ("fn", "bm", "partial", "lamfn"):
            if not self._hasfn(t):
                return t
        memo = {}
        return self._freeze(t, memo, ())

    _hasfn_memo = {}

    def _hasfn(self, t):
        r = self._hasfn_memo.get(t)
        if r is None:
            r = t.h in ("fn",) and t.a[0] in FUNCS and FUNCS[t.a[0]].closure is not None or any(self._hasfn(x) for x in tm._flat(t.a))
            self._hasfn_memo[t] = r
        return r

    def _freeze(self, t, memo, path):
        if t in memo:
            return memo[t]
        h = t.h
        if h == "ref":
            if t in path:
                return mk("cyc", len(path) - path.index(t))
            cell = self.cell(t)
            if cell is None:
                return top("dangling object")
            k = cell[0]
            p2 = path + (t,)
            if k in ("list", "dict", "set", "any"):
                r = self._freeze(cell[1], memo, p2)
            elif k == "inst":
                cls = CLASSES[cell[1]]
                items, partly = [], []
                for n in sorted(cell[2]):
                    v = cell[2][n]
                    if v.h == "ite":
                        ys = leaves(v)
                        if any(y is UNBOUND for y in ys):
                            v = self.simp(v)
                            ys = leaves(v)
                        if any(y is UNBOUND for y in ys) and not all(y is UNBOUND or (t, n, y) in self.cached_values for y in ys):
                            partly.append((n, v))
                            continue
                        v = self.drop_unbound(v)
                    items.append((n, self._freeze(v, memo, p2)))
                r = mk("inst", cls.term, tuple(items))
                for n, v in partly:
                    # an attribute that is set on some paths only
                    def put(y, n=n, r=r):
                        if y is UNBOUND:
                            return r
                        w = self._freeze(y, memo, p2)
                        return lift(lambda i: mk("inst", i.a[0], tuple(sorted(i.a[1] + ((n, w),)))), r)
                    r = map_leaves(v, put)
            elif k == "iter":
                r = self._freeze(self.iter_rest(cell), memo, p2)
                r = map_leaves(r, lambda x: mk("seq", "iter", x.a[1]) if x.h == "seq" else x)
            elif k == "arr":
                r = mk("arr", cell[1], tuple(self._freeze(x, memo, p2) for x in cell[2]))
            elif k == "frame":
                r = top("frame escapes")
            else:
                r = top("cell %s" % k)
        elif h == "fn":
            fo = FUNCS.get(t.a[0])
            if fo is not None and (fo.closure is not None):
                r = self.freeze_closure(t, fo)
            else:
                r = t
        elif not t.hasref and not self._hasfn(t):
            r = t
        elif h in tm.BINDERS:
            r = tm.map_term(t, lambda x: self._freeze(x, memo, path) if x.h in ("ref", "fn") else x)
        else:
            args = tm._mapargs(t.a, lambda x: self._freeze(x, memo, path))
            f = tm.REBUILD.get(h)
            r = f(h, *args) if f else mk(h, *args)
        memo[t] = r
        return r

    def freeze_closure(self, t, fo):
        a = fo.node.args
        if a.vararg or a.kwarg or a.kwonlyargs:
            return mk("opaquefn", c(fo.name))
        n = len(a.args)
        vs = [fresh("lamarg") if False else fresh(None) for _ in range(n)]
        saved = self.st, self.sink
        self.st = self.st.copy()
        self.sink = []
        try:
            v = self.freeze(self.invoke(fo, vs, {}))
        except Dead:
            v = mk("raises", 0)
        finally:
            self.st, self.sink = saved
        return tm.close("lam", (), vs, [v])

    # ------------------------------------------------------------ iteration

    def iter_rest(self, cell):
        s, pos = cell[1], cell[2]
        if pos is ZERO:
            return s
        return lift(lambda a, b: tm.slice_seq(a, b, length(a)) if a.h in ("seq", "slice") or True else a, s, pos)

    gem_rows = None
    compare_hook = None
    prelude = None

    def as_seq(self, t):
        """Sequence term of an iterable value (consumes iterators)."""
        t = self.simp(t)
        if t.h == "ref":
            cell = self.cell(t)
            k = cell[0]
            if k == "list":
                return self.simp(cell[1])
            if k == "dict":
                return tm.dict_keys(self.simp(cell[1]))
            if k == "set":
                return self.order_set(cell[1])
            if k == "iter":
                r = self.iter_rest(cell)
                self.setcell(t, ("iter", r, length(r)) if r.h == "seq" else ("iter", EMPTY_LIST, ZERO))
                if r.h == "seq":
                    self.setcell(t, ("iter", EMPTY_LIST, ZERO))
                return self.simp(r)
            if k == "arr":
                shape, data = cell[1], cell[2]
                if len(shape) == 1:
                    return seq_of("list", data)
                n = shape[0]
                w = len(data) // n if n else 0
                return seq_of("list", [self.arr_view(t, range(i * w, (i + 1) * w), shape[1:]) for i in range(n)])
            if k == "inst":
                m = self.class_lookup(cell[1], "__iter__")
                if m is not None:
                    return self.as_seq(self.call_method(t, "__iter__", []))
                m = self.class_lookup(cell[1], "__getitem__")
                if m is not None:
                    n = self.builtin_len(t)
                    v = fresh("int")
                    return top("iteration over __getitem__")
            return top("iteration over %s" % k)
        if t.h == "ite":
            a, x, y = t.a
            # merged containers: iterate over the guarded sequence
            if any(self.not_iterable(z) for z in leaves(t)):
                return self.fork(atom(a), lambda: self.as_seq(x), lambda: self.as_seq(y))
            return lift(self._as_seq_pure, self.freeze(t))
        if self.not_iterable(t):
            self.raise_name("TypeError", "not iterable")
        return self._as_seq_pure(t)

    def not_iterable(self, t):
        if t.h == "c":
            return not isinstance(t.a[0], str)
        return t.h == "poly" or ty(t) in ("int", "num", "bool", "fn") and t.h not in ("top", "ite", "ref", "seq", "dict")

    def _as_seq_pure(self, t):
        if t.h == "ite":
            return lift(self._as_seq_pure, t)
        if t.h == "seq":
            return t
        if t.h == "dict":
            return tm.dict_keys(t)
        if t.h == "set":
            return self.order_set(t)
        if t.h == "c" and isinstance(t.a[0], str):
            return seq_of("list", [c(ch) for ch in t.a[0]])
        if t.h == "arr":
            shape, data = t.a
            if len(shape) == 1:
                return seq_of("list", data)
            n = shape[0]
            w = len(data) // n if n else 0
            return seq_of("list", [mk("arr", shape[1:], tuple(data[i * w:(i + 1) * w])) for i in range(n)])
        k = ty(t)
        if isinstance(k, tuple) and k[0] == "dict":
            return tm.dict_keys(t)
        if k in ("gem", "gs") and self.gem_rows is not None:
            r = self.gem_rows(t)
            if r is not None:
                return r
        if t.h == "inst":
            cls = CLASSES[t.a[0].a[0]]
            if self.class_lookup(cls.qual, "__iter__") is not None:
                return self._as_seq_pure(self.freeze(self.call_method(t, "__iter__", [])))
        return seq("list", [sp(t)])

    def order_set(self, t):
        """Iteration order of a set is unspecified: canonical order of its members."""
        if t.h == "ite":
            return lift(self.order_set, t)
        if t.h == "set":
            return tm.set_order(t)
        return seq("list", [sp(t)])

    # ------------------------------------------------------------ statements

    def block(self, stmts):
        for s in stmts:
            self.stmt(s)

    def stmt(self, s):
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None:
            raise AnalysisError("unsupported statement %s at %s:%s" % (type(s).__name__, self.ctx.mod.path, s.lineno))
        m(s)

    def st_Pass(self, s):
        pass

    def st_Global(self, s):
        pass

    st_Nonlocal = st_Global

    def st_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value)

    def st_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def st_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def st_AugAssign(self, s):
        op = BINOPS[type(s.op)]
        cur = self.ev(s.target)
        rhs = self.ev(s.value)
        if cur.h == "ref" and self.cell(cur)[0] == "list" and op == "+":
            x = self.as_seq(rhs)
            self.setcell(cur, ("list", lift(lambda a, b: seq("list", [sp(a), sp(b)]), self.cell(cur)[1], self.seqval(x))))
            return
        if cur.h == "ref" and self.cell(cur)[0] == "arr" and op in ("+", "-", "*", "/"):
            r = self.binop(op, cur, rhs)
            if r.h == "ref" and self.cell(r)[0] == "arr" and self.cell(r)[1] == self.cell(cur)[1]:
                self.setcell(cur, self.cell(r))
                if not isinstance(s.target, ast.Name):
                    self.assign(s.target, cur)
                return
            self.assign(s.target, r)
            return
        self.assign(s.target, self.binop(op, cur, rhs))

    def seqval(self, x):
        return map_leaves(x, lambda a: mk("seq", "list", a.a[1]) if a.h == "seq" and a.a[0] != "list" else a)

    def st_Return(self, s):
        v = self.ev(s.value) if s.value is not None else NONE
        self.exit("return", v)

    def st_Raise(self, s):
        if s.exc is None:
            self.raise_(mk("exc", "reraise", ()))
        v = self.ev(s.exc)
        self.raise_(self.as_exc(v))

    def as_exc(self, v):
        if v.h == "ext":
            n = v.a[0].split(".")[-1]
            return mk("exc", n, ())
        if v.h == "exc":
            return v
        if v.h == "ref":
            cell = self.cell(v)
            if cell[0] == "inst":
                return mk("exc", CLASSES[cell[1]].name, ())
        if v.h == "cls":
            return mk("exc", CLASSES[v.a[0]].name, ())
        return mk("exc", "Exception", (self.freeze(v),))

    def st_Break(self, s):
        self.exit("break", NONE)

    def st_Continue(self, s):
        self.exit("continue", NONE)

    def st_Assert(self, s):
        cond = self.truth(self.ev(s.test))
        cond = self.known(cond)
        if cond is TRUE:
            return
        if cond is FALSE:
            self.exit("raise", mk("exc", "AssertionError", ()))
        # assertions of the code refuse what does not satisfy them, those of a specification are its preconditions
        if self.ctx.mod.kind == "repo" and cond.h == "ite":
            bad = self.known(not_(cond))
            if bad is not FALSE:
                self.fork(bad, lambda: self.raise_(mk("exc", "AssertionError", ())), lambda: NONE)
                return
        if cond.h == "ite":
            for a, v in self.literals(cond):
                if a.h == "eq0":
                    x, y = self._len_pair(a.a[0])
                    if x is not None and v:
                        tm.uf_union(x, y)
            self.add_fact(cond, True)
            if self.ctx.mod.kind != "repo":
                self.stated.extend(l for l in self.literals(cond) if l in self.st.facts)
                rest = self.known(cond)
                if rest is not TRUE:
                    self.assumed.append(rest)
            self.notes.append(("assert", self.ctx.mod.path, s.lineno, cond))

    def _len_pair(self, p):
        if p.h == "poly" and len(p.a[0]) == 2:
            (c1, m1), (c2, m2) = p.a[0]
            if c1 == -c2 and len(m1) == 1 and len(m2) == 1 and m1[0][1] == m2[0][1] == 1:
                x, y = m1[0][0], m2[0][0]
                if x.h == "len" and y.h == "len":
                    return x, y
        return None, None

    def st_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.setname(t.id, UNBOUND)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value), self.ev(t.slice), t)
            else:
                raise AnalysisError("del %s at line %d" % (ast.unparse(t), t.lineno))

    def delitem(self, o, k, node):
        if o.h == "ite":
            a, x, y = o.a
            self.fork(atom(a), lambda: self.delitem(x, k, node), lambda: self.delitem(y, k, node))
            return
        cell = self.cell(o) if o.h == "ref" else ("value",)
        if cell[0] == "dict":
            self.call_bm(o, "pop", [k], {})
            return
        if cell[0] == "list":
            k = self.freeze(k)
            if k.h == "slc":
                if k.a[2] is NONE or k.a[2] is ONE:
                    n = length(cell[1])
                    lo, hi = tm.slice_seq(cell[1], ZERO, k.a[0]) if k.a[0] is not NONE else EMPTY_LIST, (
                        tm.slice_seq(cell[1], k.a[1], n) if k.a[1] is not NONE else EMPTY_LIST)
                    if (k.a[0] is NONE or tm.is_int_const(k.a[0]) and k.a[0].a[0] >= 0) and (k.a[1] is NONE or tm.is_int_const(k.a[1]) and k.a[1].a[0] >= 0):
                        if not (k.a[0] is not NONE and k.a[1] is not NONE and k.a[1].a[0] < k.a[0].a[0]):
                            self.setcell(o, ("list", seq("list", [sp(lo), sp(hi)])))
                            return
            else:
                self.call_bm(o, "pop", [k], {})
                return
        if cell[0] == "inst" and self.class_lookup(cell[1], "__delitem__") is not None:
            self.call_method(o, "__delitem__", [k])
            return
        raise AnalysisError("del %s at line %d" % (ast.unparse(node), node.lineno))

    def st_If(self, s):
        cond = self.cond(s.test)
        self.fork(cond, lambda: self.block(s.body), lambda: self.block(s.orelse))

    def cond(self, node):
        return self.known(self.truth(self.ev(node)))

    def truth(self, v):
        if v.h == "ref":
            cell = self.cell(v)
            if cell[0] in ("list", "dict", "set"):
                return as_bool(cell[1]) if cell[1].h != "set" else not_(eq(length(cell[1].a[0]), ZERO))
            if cell[0] == "inst":
                if self.class_lookup(cell[1], "__bool__") is not None:
                    return self.truth(self.call_method(v, "__bool__", []))
                if self.class_lookup(cell[1], "__len__") is not None:
                    return self.truth(self.call_method(v, "__len__", []))
            return TRUE
        if v.h == "ite":
            if v.hasref:
                a, x, y = v.a
                return ite(atom(a), self.truth(x), self.truth(y))
        if v.h == "set":
            return not_(eq(length(v.a[0]), ZERO))
        if v.h == "unbound":
            return top("unbound")
        return as_bool(v)

    # ---- imports

    def import_module(self, name):
        """term for module `name`"""
        if self.modpath(name) is not None:
            self.load(name)
            return mk("mod", name)
        return mk("ext", name)

    def st_Import(self, s):
        for al in s.names:
            if al.name in self.aliases:
                if self.aliases[al.name] is None:
                    self.raise_name("ImportError")
                self.setname(al.asname or al.name, self.import_module(self.aliases[al.name]))
                continue
            if al.asname:
                self.setname(al.asname, self.import_module(al.name))
            else:
                self.import_module(al.name)
                self.setname(al.name.split(".")[0], self.import_module(al.name.split(".")[0]))

    def st_ImportFrom(self, s):
        modname = s.module or ""
        modname = self.aliases.get(modname, modname)
        if modname is None:
            self.raise_name("ImportError")
        if s.level:
            pkg = self.ctx.mod.name.split(".")
            if not self.ctx.mod.path.endswith("__init__.py"):
                pkg = pkg[:-1]
            if s.level > 1:
                pkg = pkg[:-(s.level - 1)]
            modname = ".".join(pkg + ([modname] if modname else []))
        for al in s.names:
            if al.name == "*":
                m = self.load(modname)
                if m is not None:
                    for k, v in self.st.heap[m.frame.a[0]][1].items():
                        if not k.startswith("_"):
                            self.setname(k, v)
                continue
            v = None
            m = self.load(modname) if self.modpath(modname) else None
            if m is not None:
                v = self.frame_get(m.frame, al.name)
                if v is None and self.modpath(modname + "." + al.name):
                    v = self.import_module(modname + "." + al.name)
                if v is None:
                    v = mk("ext", modname + "." + al.name)
                    if self.ctx.mod.kind == "spec":
                        self.missing.add(modname + "." + al.name)
            else:
                v = self.ext_name(modname + "." + al.name)
            self.setname(al.asname or al.name, v)

    def ext_name(self, name):
        return extern.resolve(name)

    def st_Try(self, s):
        # optional imports: the import is taken to succeed
        self.trying.append(s)
        try:
            alive, val, exits, pc0 = self.scoped(lambda: self.block(s.body))
        finally:
            self.trying.pop()
        parts = []
        if alive:
            if s.orelse:
                st_pc = self.st.pc
                a2, v2, ex2, p2 = self.scoped(lambda: self.block(s.orelse))
                self.propagate_into(ex2, p2, exits)
                if a2:
                    self.st.pc = and_(p2, self.st.pc)
                    parts.append((self.st.pc, self.st, None))
            else:
                parts.append((self.st.pc, self.st, None))
        rest = []
        for e in exits:
            if e.kind != "raise" or getattr(e, "handled", False):
                rest.append(e)
                continue
            h = self.find_handler(s, e.val)
            if h is None:
                rest.append(e)
                continue
            self.st = e.st
            epc = e.pc

            def run(h=h, e=e):
                if h.name:
                    self.setname(h.name, e.val)
                self.block(h.body)
            a2, v2, ex2, p2 = self.scoped(run)
            for x in ex2:
                rest.append(Exit(x.kind, and_(epc, x.pc), x.st, x.val))
            if a2:
                parts.append((and_(epc, self.st.pc), self.st, None))
        if s.finalbody:
            raise AnalysisError("try/finally unsupported")
        for e in rest:
            self.sink.append(Exit(e.kind, and_(pc0, e.pc), e.st, e.val))
        if not parts:
            raise Dead()
        self.join(parts, pc0)

    def propagate_into(self, exits, pc0, target):
        for e in exits:
            target.append(Exit(e.kind, and_(pc0, e.pc), e.st, e.val))

    def find_handler(self, s, exc):
        name = exc.a[0] if exc.h == "exc" else "Exception"
        import builtins
        ecls = getattr(builtins, name, Exception)
        if not isinstance(ecls, type):
            ecls = Exception
        for h in s.handlers:
            if h.type is None:
                return h
            ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
            for t in ts:
                n = t.id if isinstance(t, ast.Name) else t.attr if isinstance(t, ast.Attribute) else None
                if n == name:
                    return h
                hcls = getattr(builtins, n or "", None)
                if isinstance(hcls, type) and issubclass(ecls, hcls):
                    return h
        return None

    def anticipated(self, name):
        """is there code ready for this exception? An absence nobody expects is taken not to happen"""
        return any(self.find_handler(s, mk("exc", name, ())) is not None for s in self.trying)

    def st_With(self, s):
        for it in s.items:
            v = self.ev(it.context_expr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
        self.block(s.body)

    # ---- definitions

    def st_FunctionDef(self, s):
        f = self.make_func(s, s.name)
        v = f.term
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v, f)
        # setter/register decorated names
        if v is not None:
            self.setname(s.name, v)

    def make_func(self, node, name):
        ctx = self.ctx
        incls = getattr(ctx, "fn", None) if isinstance(getattr(ctx, "fn", None), Class) else None
        if incls is not None:
            qual = incls.qual + "." + name
            closure = self.st.heap[ctx.frame.a[0]][2]
        else:
            toplevel = ctx.frame is ctx.mod.frame
            qual = ctx.mod.name + "." + name if toplevel else "%s.<locals>.%s#%d" % (
                ctx.fn.qual if isinstance(ctx.fn, Func) else ctx.mod.name, name, uid())
            closure = None if toplevel else ctx.frame
        if isinstance(node, ast.Lambda) or qual in FUNCS:
            qual = qual + "#%d" % uid()
        f = Func(name, qual, node, ctx.mod, closure, incls.qual if incls else (ctx.fn.cls if isinstance(ctx.fn, Func) else None))
        f.owner = incls.qual if incls else None
        a = node.args
        f.defaults = [self.ev(d) for d in a.defaults]
        f.kwdefaults = {p.arg: self.ev(d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        f.term = mk("fn", qual)
        FUNCS[qual] = f
        return f

    def decorate(self, d, v, f):
        if isinstance(d, ast.Attribute) and d.attr == "setter":
            return None
        if isinstance(d, ast.Attribute) and d.attr == "register" or isinstance(d, ast.Call) and isinstance(d.func, ast.Attribute) and d.func.attr == "register":
            fnode = d.func if isinstance(d, ast.Call) else d
            target = self.ev(fnode.value)
            if target.h == "fn" and FUNCS[target.a[0]].dispatch is not None:
                if isinstance(d, ast.Call):
                    keys = [self.ev(x) for x in d.args]
                else:
                    an = f.node.args.args[0].annotation if isinstance(f.node, (ast.FunctionDef,)) else None
                    keys = [self.ev(an)] if an is not None else []
                for k in keys:
                    FUNCS[target.a[0]].dispatch.append((k, v))
                # stacked registrations: the function itself passes through
                return v
        dt = self.ev(d)
        if dt.h == "ext":
            n = dt.a[0]
            last = n.split(".")[-1]
            if n == "builtins.property":
                return mk("prop", v, "property")
            if last in ("cached_property",):
                return mk("prop", v, "cached")
            if last in ("abstractproperty",):
                f.abstract = True
                return mk("prop", v, "property")
            if last in ("abstractmethod",):
                f.abstract = True
                return v
            if n == "builtins.staticmethod":
                return mk("static", v)
            if n == "builtins.classmethod":
                return mk("clsm", v)
            if last == "singledispatch":
                f.dispatch = []
                return v
            if last in ("lru_cache", "cache", "wraps", "unimplemented"):
                f.memo = last in ("lru_cache", "cache")
                return v
        if dt.h == "partial_deco":
            return v
        if isinstance(d, ast.Call):
            fn = self.ev(d.func)
            if fn.h == "ext" and fn.a[0].split(".")[-1] in ("lru_cache", "cache", "wraps"):
                f.memo = fn.a[0].split(".")[-1] != "wraps"
                return v
        return self.call(dt, [v], {})

    def st_ClassDef(self, s):
        qual = self.ctx.mod.name + "." + s.name
        if qual in CLASSES and self.ctx.frame is not self.ctx.mod.frame:
            qual += "#%d" % uid()
        k = Class(s.name, qual, self.ctx.mod, s)
        CLASSES[qual] = k
        k.bases = [self.ev(b) for b in s.bases]
        k.mro = self.c3(k)
        fr = self.alloc(("frame", {}, self.ctx.frame if self.ctx.frame is not self.ctx.mod.frame else None))
        saved = self.ctx
        self.ctx = Ctx(k, fr, saved.mod, saved.depth)
        try:
            self.block(s.body)
        finally:
            self.ctx = saved
        k.attrs = dict(self.st.heap[fr.a[0]][1])
        v = k.term
        for d in reversed(s.decorator_list):
            dt = self.ev(d)
        self.setname(s.name, v)

    def c3(self, k):
        seqs = []
        for b in k.bases:
            if b.h == "cls":
                seqs.append(list(CLASSES[b.a[0]].mro))
            else:
                seqs.append([b])
        seqs.append(list(k.bases))
        res = [k.term]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return res
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                raise AnalysisError("inconsistent MRO for %s" % k.qual)
            res.append(h)
            for t in seqs:
                if t[0] is h:
                    t.pop(0)

    def class_lookup(self, qual, name, after=None):
        mro = CLASSES[qual].mro
        skip = after is not None
        for b in mro:
            if skip:
                if b is after:
                    skip = False
                continue
            if b.h == "cls":
                v = CLASSES[b.a[0]].attrs.get(name)
                if v is not None:
                    return v
        return None

    def class_owner(self, qual, name):
        for b in CLASSES[qual].mro:
            if b.h == "cls" and name in CLASSES[b.a[0]].attrs:
                return b.a[0]
        return None

    def is_subclass(self, q1, t2):
        return t2 in CLASSES[q1].mro

    def isinst_rel(self, c1, c2):
        if c1 is c2:
            return True
        if c1.h == "cls" and c2.h == "cls":
            if c2 in CLASSES[c1.a[0]].mro:
                return True
            if c1 in CLASSES[c2.a[0]].mro:
                return None
            # unrelated classes: treat as disjoint unless a common subclass exists
            for k in CLASSES.values():
                if c1 in k.mro and c2 in k.mro:
                    return None
            return False
        if c1.h == "ext" and c2.h == "ext":
            r = extern.subclass(c1.a[0], c2.a[0])
            return r
        return None

    # ---- loops

    def st_For(self, s):
        it = self.as_seq(self.ev(s.iter))

        def body(x):
            self.assign(s.target, x)
            self.block(s.body)
        self.run_loop(it, body, s.orelse)

    def run_loop(self, it, body, orelse=(), hint=()):
        if it.h == "ite":
            it = self.simp(it)
        if it.h == "ite":
            a, x, y = it.a
            self.fork(atom(a), lambda: self.run_loop(x, body, orelse, hint), lambda: self.run_loop(y, body, orelse, hint))
            return
        breaks = []
        outer = self

        def go():
            pos = ZERO
            for g in tm.segs_of(it):
                if g.h == "el":
                    self.one_iter(lambda: body(g.a[0]), breaks)
                elif g.h == "sp":
                    x = g.a[0]
                    if x.h == "top":
                        self.havoc_loop(x, body)
                        continue
                    n = self.simp(length(x))
                    if tm.is_int_const(n) and n.a[0] <= 40:
                        for k in range(n.a[0]):
                            self.one_iter(lambda: body(at(x, c(k))), breaks)
                        continue
                    self.sym_loop(n, lambda v: at(x, v), body, breaks, hint)
                else:
                    n = self.simp(g.a[0][0])
                    v = fresh("int")
                    bd = tm.inst_binder(g, [v])[0]
                    one = tm._single(bd)
                    if tm.is_int_const(n) and n.a[0] <= 40:
                        for k in range(n.a[0]):
                            for y in self.flat_el(tm.inst_binder(g, [c(k)])[0]):
                                self.one_iter(lambda: body(y), breaks)
                        continue
                    if one is not None:
                        self.sym_loop(n, lambda w, g=g: tm._single(tm.inst_binder(g, [w])[0]), body, breaks, hint)
                    else:
                        def nested(w, g=g):
                            return tm.inst_binder(g, [w])[0]
                        self.sym_loop(n, nested, lambda inner: self.run_loop(inner, body, (), hint), breaks, hint)
        alive, val, exits, pc0 = self.scoped(go)
        # breaks were collected with conditions relative to this scope
        parts = []
        if alive:
            st_ok = self.st
            if orelse:
                a2, v2, ex2, p2 = self.scoped(lambda: self.block(orelse))
                self.propagate_into(ex2, p2, exits)
                if a2:
                    self.st.pc = and_(p2, self.st.pc)
                    parts.append((self.st.pc, self.st, None))
            else:
                parts.append((self.st.pc, self.st, None))
        for e in exits:
            if e.kind == "break":
                parts.insert(0, (e.pc, e.st, None))
            else:
                self.sink.append(Exit(e.kind, and_(pc0, e.pc), e.st, e.val))
        if not parts:
            raise Dead()
        self.join(parts, pc0)

    def flat_el(self, bd):
        if bd.h == "seq" and all(s.h == "el" for s in bd.a[1]):
            return [s.a[0] for s in bd.a[1]]
        raise AnalysisError("cannot flatten")

    def one_iter(self, f, breaks):
        alive, val, exits, pc0 = self.scoped(f)
        parts = []
        if alive:
            parts.append((self.st.pc, self.st, None))
        for e in exits:
            if e.kind == "continue":
                parts.insert(0, (e.pc, e.st, None))
            else:
                self.sink.append(Exit(e.kind, and_(pc0, e.pc), e.st, e.val))
        if not parts:
            raise Dead()
        self.join(parts, pc0)

    def havoc_loop(self, reason, body):
        st0 = self.st.copy()
        sink0 = self.sink
        self.sink = []
        try:
            body(reason)
        except Dead:
            pass
        st1 = self.st
        self.sink = sink0
        self.st = st0
        for loc in self.changed(st0, st1):
            self.set_loc(loc, top("loop over unknown sequence"))

    def locs(self, st):
        for k, cell in st.heap.items():
            if cell[0] == "frame":
                for n, v in cell[1].items():
                    yield ("v", k, n), v
            elif cell[0] == "inst":
                for n, v in cell[2].items():
                    yield ("a", k, n), v
            elif cell[0] == "iter":
                yield ("p", k), cell[2]
            elif cell[0] == "arr":
                pass
            else:
                yield ("c", k), cell[1]

    def changed(self, st0, st1):
        """locations of st0 whose value differs in st1"""
        out = []
        for k, cell in st0.heap.items():
            cell1 = st1.heap.get(k)
            if cell1 is None or cell1 is cell:
                continue
            if cell[0] == "frame":
                for n, v in cell1[1].items():
                    if cell[1].get(n) is not v:
                        out.append(("v", k, n))
            elif cell[0] == "inst":
                for n, v in cell1[2].items():
                    if cell[2].get(n) is not v:
                        out.append(("a", k, n))
            elif cell[0] == "iter":
                if cell1[1] is not cell[1]:
                    out.append(("i", k))
                elif cell1[2] is not cell[2]:
                    out.append(("p", k))
            elif cell[0] == "arr":
                if cell1 != cell:
                    out.append(("r", k))
            elif cell1[1] is not cell[1]:
                out.append(("c", k))
        return out

    def get_loc(self, loc, st=None):
        st = st or self.st
        cell = st.heap[loc[1]]
        if loc[0] == "v":
            return cell[1].get(loc[2])
        if loc[0] == "a":
            return cell[2].get(loc[2])
        if loc[0] == "p":
            return cell[2]
        if loc[0] in ("r",):
            return mk("arr", cell[1], cell[2])
        return cell[1]

    def set_loc(self, loc, v, st=None):
        st = st or self.st
        cell = st.heap[loc[1]]
        if loc[0] == "v":
            d = dict(cell[1])
            d[loc[2]] = v
            st.heap[loc[1]] = ("frame", d) + cell[2:]
        elif loc[0] == "a":
            d = dict(cell[2])
            d[loc[2]] = v
            st.heap[loc[1]] = ("inst", cell[1], d)
        elif loc[0] == "p":
            st.heap[loc[1]] = ("iter", cell[1], v)
        elif loc[0] == "i":
            st.heap[loc[1]] = ("iter", v, ZERO)
        elif loc[0] == "r":
            if v.h == "arr":
                st.heap[loc[1]] = ("arr", v.a[0], v.a[1])
            else:
                st.heap[loc[1]] = ("any", v)
        else:
            st.heap[loc[1]] = (cell[0], v)

    def phi_for(self, loc, pre):
        if loc[0] == "c":
            k = self.st.heap[loc[1]][0]
            if k == "list":
                p = fresh(("list", None) if ty(pre) is None else self._lty(pre))
                return p, seq("list", [sp(p)])
            if k == "dict":
                p = fresh(("dict", None, None))
                return p, dict_([sp(p)])
            if k == "set":
                p = fresh(("list", None))
                return p, tm.set_(seq("list", [sp(p)]))
        if loc[0] in ("r", "i"):
            p = fresh(None)
            return p, p
        t = ty(pre) if pre is not None else None
        if pre is not None and pre.h == "seq":
            p = fresh((pre.a[0], None))
            return p, seq(pre.a[0], [sp(p)])
        if pre is not None and pre.h == "dict":
            p = fresh(("dict", None, None))
            return p, dict_([sp(p)])
        if pre is NONE:
            t = None    # stays None or becomes anything
        p = fresh("num" if t == "int" and False else t)
        return p, p

    def _lty(self, pre):
        t = ty(pre)
        return ("list", None)

    def sym_loop(self, n, elem, body, breaks, hint=(), peeled=False):
        st0 = self.st
        v = fresh("int")
        tm.RANGE_OF[v] = n
        phis = {}     # loc -> (phi var, initial value term)
        for loc in hint:
            pre = self.get_loc(loc)
            phis[loc] = self.phi_for(loc, pre)
        saved_lv = self.loopvars
        for attempt in range(7):
            self.st = st0.copy()
            for loc, (p, val) in phis.items():
                self.set_loc(loc, val)
            self.add_fact(tm.le(ONE, n) if False else TRUE)
            start = self.st.copy()
            self.loopvars = saved_lv + (v,)
            heap_ids = set(start.heap)

            def run():
                x = elem(v)
                if x is None:
                    x = top("generic element")
                body(x)
            alive, _, exits, pc0 = self.scoped(run)
            self.loopvars = saved_lv
            parts = [(self.st.pc, self.st, None)] if alive else []
            others = []
            for e in exits:
                if e.kind == "continue":
                    parts.insert(0, (e.pc, e.st, None))
                else:
                    others.append(e)
            if parts:
                self.join(parts, TRUE)
                post = self.st
            else:
                post = None
            ch = []
            for x in ([post] if post is not None else []) + [e.st for e in others if e.kind == "break"]:
                for loc in self.changed(start, x):
                    if loc not in ch:
                        ch.append(loc)
            new = [loc for loc in ch if loc not in phis and self.get_loc(loc, st0) is not None]
            if not new or attempt == 6:
                break
            for loc in new:
                pre = self.get_loc(loc, st0)
                phis[loc] = self.phi_for(loc, pre)
        # ---- resolve the loop-carried values
        frozen = {}
        if post is not None:
            self.st = post
            for loc in ch:
                x = self.get_loc(loc, post)
                if loc[0] == "p":
                    frozen[loc] = x
                elif x is None:
                    continue
                else:
                    frozen[loc] = self.freeze_new(x, heap_ids)
        if not peeled and any(self.get_loc(loc, st0) is NONE and any(
                y.h == "isnone" and y.a[0] is p for x in frozen.values() for y in tm.subterms(x)) for loc, (p, _) in phis.items()):
            # "nothing yet" is told from a value: the first round is a special case
            self.st = st0.copy()
            pc = self.st.pc

            def rest():
                self.one_iter(lambda: body(elem(ZERO)), breaks)
                self.sym_loop(sub(n, ONE), lambda w: elem(add(w, ONE)), body, breaks, hint, True)
            self.fork(atom(tm.mk("eq0", n)) if not tm.isc(n) else tm.c(n.a[0] == 0), lambda: None, rest)
            return
        closed = {}   # phi var -> function of iteration index w giving value
        final = {}
        pending = [loc for loc in phis]
        subs = {}     # phi -> closed form at iteration v

        def pre_of(loc):
            return self.get_loc(loc, st0)

        def close_at(loc, mkval):
            """mkval(w): value before iteration w"""
            subs[phis[loc][0]] = self.as_phi(mkval(v))
            final[loc] = mkval(n)
        progress = True
        while pending and progress:
            progress = False
            for loc in list(pending):
                p = phis[loc][0]
                x = frozen.get(loc)
                if x is None:
                    x = phis[loc][1]
                x = subst(x, subs) if subs else x
                if any(depends(x, phis[o][0]) for o in pending if o is not loc):
                    continue
                r = self.classify(loc, p, x, v, pre_of(loc), n)
                if r is None:
                    continue
                close_at(loc, r)
                pending.remove(loc)
                progress = True
        if pending:
            # mutually dependent carried values: one joint opaque fold
            ps = [phis[l][0] for l in pending]
            bodies = [subst(frozen.get(l, phis[l][1]), subs) for l in pending]
            inits = [self.freeze(pre_of(l)) for l in pending]
            for k, loc in enumerate(pending):
                def mkval(w, k=k, loc=loc):
                    f = mk("foldsel", k, tm.close("fold", (w,) + tuple(inits), [v] + ps, bodies))
                    return self.wrap_like(loc, f, pre_of(loc))
                final[loc] = mkval(n)
                subs[phis[loc][0]] = self.as_phi(mkval(v))
        # ---- assemble the state after the loop
        res = st0.copy()
        for loc in ch:
            if loc in phis:
                if loc in final:
                    self.set_loc(loc, final[loc], res)
            elif loc in frozen and loc[1] in res.heap:
                x = subst(frozen[loc], subs) if subs else frozen[loc]
                self.set_loc(loc, subst(x, {v: sub(n, ONE)}), res)
        # log (effects)
        if post is not None and post.log != st0.log and len(post.log) > len(st0.log):
            extra = post.log[len(st0.log):]
            self.st = post
            new = []
            for g, t in extra:
                cond = subst(g, subs)
                new.append((TRUE, mk("effects", tm.close("fm", (n,), [v], [ite(cond, seq_of("list", [subst(self.freeze_new(t, heap_ids), subs)]), EMPTY_LIST)]))))
            res.log = st0.log + tuple(new)
        self.st = res
        self.st.pc = pc0
        # ---- early exits
        if others or post is None:
            conds = []
            anyc = FALSE
            for e in others:
                cnd = subst(e.pc, subs) if subs else e.pc
                conds.append(cnd)
                anyc = or_(anyc, cnd)
            exists = not_(tm.allq(n, v, not_(anyc)))
            for e, cnd in zip(others, conds):
                alone = all(o is e or o.kind == "raise" and e.kind == "raise" for o in others)
                if all(o.kind == e.kind for o in others) and len(others) > 1 and e.kind == "raise":
                    ex = not_(tm.allq(n, v, not_(cnd)))
                elif len(others) == 1:
                    ex = exists
                else:
                    ex = self.first_is(n, v, anyc, cnd)
                stt = res.copy()
                self.st = e.st
                val = self.freeze_new(e.val, heap_ids) if e.val is not None else None
                if val is not None and subs:
                    val = subst(val, subs)
                if e.kind == "raise":
                    if val.h == "exc":
                        val = mk("exc", val.a[0], ())
                    self.sink.append(Exit("raise", and_(pc0, ex), stt, val))
                    continue
                val = self.first(n, v, anyc, val)
                if e.kind == "break":
                    for loc in ch:
                        x = self.get_loc(loc, e.st)
                        if x is None:
                            continue
                        x = self.freeze_new(x, heap_ids)
                        x = subst(x, subs) if subs else x
                        # value of the location at the breaking iteration
                        self.set_loc(loc, self.first(n, v, anyc, x), stt)
                self.sink.append(Exit(e.kind, and_(pc0, ex), stt, val))
            self.st = res
            self.st.pc = and_(pc0, not_(exists))
            self.add_fact(not_(exists), True)
            if post is None:
                # every iteration leaves the loop
                self.st.pc = and_(pc0, eq(n, ZERO))
                if self.known(eq(n, ZERO)) is FALSE:
                    raise Dead()
                self.add_fact(eq(n, ZERO), True)
        if self.st.pc is FALSE:
            raise Dead()

    def first_is(self, n, v, anyc, cnd):
        return as_bool(tm.first_(n, v, anyc, cnd)) if False else atom(mk("truthy", self.first(n, v, anyc, cnd))) \
            if depends(cnd, v) else and_(cnd, not_(tm.allq(n, v, not_(anyc))))

    def first(self, n, v, cond, val):
        if not depends(val, v):
            return val
        if val.h == "seq" and all(s.h == "el" for s in val.a[1]):
            return seq_of(val.a[0], [self.first(n, v, cond, s.a[0]) for s in val.a[1]])
        if cond is TRUE:
            return subst(val, {v: ZERO})
        return tm.close("first", (n,), [v], [cond, val])

    def as_phi(self, val):
        """closed forms replace the phi variable inside sp(phi)/plain use"""
        return val

    def wrap_like(self, loc, f, pre):
        if loc[0] == "c":
            k = self.st.heap.get(loc[1], ("list",))[0] if loc[1] in self.st.heap else "list"
            if k == "dict":
                return dict_([sp(f)])
            if k == "list":
                return seq("list", [sp(f)])
            if k == "set":
                return tm.set_(seq("list", [sp(f)]))
        return f

    def freeze_new(self, t, keep):
        """freeze, but keep references to objects that existed before the loop"""
        if not t.hasref and not self._hasfn(t):
            return t
        if t.h == "ref" and t.a[0] in keep:
            return t
        memo = {}
        for i in keep:
            r = tm._table.get(("ref", (i,)))
            if r is not None:
                memo[r] = r
        return self._freeze(t, memo, ())

    def classify(self, loc, p, x, v, pre, n):
        """closed form of a loop-carried value: function of the iteration count"""
        pre_f = pre
        if not depends(x, p):
            # overwritten in each iteration
            def last(w):
                prev = subst(x, {v: sub(w, ONE)})
                if prev is pre_f:
                    return prev
                if x is pre_f:
                    return pre_f
                return ite(eq(w, ZERO), pre_f, prev)
            return last
        phi0 = p
        if x is p:
            return lambda w: pre_f
        t = ty(p)
        kind = None
        if loc[0] == "c":
            kind = self.st.heap[loc[1]][0] if loc[1] in self.st.heap else None
        # list append
        d = self.strip_prefix(x, p)
        if d is not None and not depends(d, p):
            kindname = pre.a[0] if pre is not None and pre.h == "seq" else None
            if not is_empty_guard(d):
                def f(w):
                    u = fresh("int")
                    tm.RANGE_OF[u] = w
                    seg = tm.fm_seg(w, u, subst(d, {v: u}))
                    return lift(lambda a: seq(a.a[0] if a.h == "seq" else "list", [sp(a), seg]), pre_f)
                return f
            return lambda w: pre_f
        d = self.strip_suffix(x, p)
        if d is not None and not depends(d, p):
            def f(w):
                u = fresh("int")
                tm.RANGE_OF[u] = w
                seg = tm.fm_seg(w, u, subst(d, {v: sub(sub(w, ONE), u)}))
                return lift(lambda a: seq(a.a[0] if a.h == "seq" else "list", [seg, sp(a)]), pre_f)
            return f
        d = self.strip_dict(x, p)
        if d is not None and not depends(d, p):
            def f(w):
                u = fresh("int")
                tm.RANGE_OF[u] = w
                seg = tm.dfm_seg(w, u, subst(d, {v: u}))
                return lift(lambda a: dict_([sp(a), seg]), pre_f)
            return f
        d = self.strip_set(x, p)
        if d is not None and not depends(d, p):
            def f(w):
                u = fresh("int")
                tm.RANGE_OF[u] = w
                seg = tm.fm_seg(w, u, subst(d, {v: u}))
                return lift(lambda a: tm.set_(seq("list", [sp(a.a[0] if a.h == "set" else a), seg])), pre_f)
            return f
        if t in ("int", "num", "gs") or x.h == "poly" or (x.h == "ite" and all(y.h == "poly" or y is p or ty(y) in tm.NUMERIC for y in leaves(x))):
            try:
                d = map_leaves(x, lambda y: sub(y, p))
            except tm.Blowup:
                raise
            if not depends(d, p):
                def f(w):
                    u = fresh("int")
                    tm.RANGE_OF[u] = w
                    return add(pre_f, tm.sum_(w, u, subst(d, {v: u})))
                return f
            d = map_leaves(x, lambda y: div_out(y, p))
            if not depends(d, p) and not any(y.h == "nodiv" for y in leaves(d)):
                def f(w):
                    u = fresh("int")
                    tm.RANGE_OF[u] = w
                    return mul(pre_f, tm.prod_(w, u, subst(d, {v: u})))
                return f
        # string concatenation
        if x.h == "str" and x.a[0] and x.a[0][0] is p and not any(depends(y, p) for y in x.a[0][1:]):
            return None
        # boolean flags
        if t == "bool" or all(y is p or y.h == "c" and isinstance(y.a[0], bool) for y in leaves(x)):
            a = subst(x, {p: FALSE})
            b = subst(x, {p: TRUE})
            if b is TRUE:
                def f(w):
                    u = fresh("int")
                    tm.RANGE_OF[u] = w
                    return or_(as_bool(pre_f), not_(tm.allq(w, u, not_(subst(a, {v: u})))))
                return f
            if a is FALSE:
                def f(w):
                    u = fresh("int")
                    tm.RANGE_OF[u] = w
                    return and_(as_bool(pre_f), tm.allq(w, u, as_bool(subst(b, {v: u}))))
                return f
        inner = {q for q in [p]}
        # general recurrence
        init = pre_f

        def f(w):
            return self.wrap_like(loc, tm.close("fold", (w, init), [v, p], [x]), pre)
        return f

    def strip_prefix(self, x, p):
        if x.h == "ite":
            ds = {}
            for y in leaves(x):
                d = self.strip_prefix(y, p)
                if d is None:
                    return None
                ds[y] = d
            return map_leaves(x, lambda y: ds[y])
        if x is p:
            return EMPTY_LIST
        if x.h == "seq" and x.a[1] and x.a[1][0].h == "sp" and x.a[1][0].a[0] is p:
            return mk("seq", "list", x.a[1][1:])
        return None

    def strip_suffix(self, x, p):
        if x.h == "ite":
            ds = {}
            for y in leaves(x):
                d = self.strip_suffix(y, p)
                if d is None:
                    return None
                ds[y] = d
            return map_leaves(x, lambda y: ds[y])
        if x.h == "seq" and x.a[1] and x.a[1][-1].h == "sp" and x.a[1][-1].a[0] is p:
            return mk("seq", "list", x.a[1][:-1])
        return None

    def strip_dict(self, x, p):
        if x.h == "ite":
            ds = {}
            for y in leaves(x):
                d = self.strip_dict(y, p)
                if d is None:
                    return None
                ds[y] = d
            return map_leaves(x, lambda y: ds[y])
        if x is p:
            return EMPTY_DICT
        if x.h == "dict" and x.a[0] and x.a[0][0].h == "sp" and x.a[0][0].a[0] is p:
            return mk("dict", x.a[0][1:])
        return None

    def strip_set(self, x, p):
        if x.h == "ite":
            ds = {}
            for y in leaves(x):
                d = self.strip_set(y, p)
                if d is None:
                    return None
                ds[y] = d
            return map_leaves(x, lambda y: ds[y])
        if x.h == "set" and any(s.h == "sp" and s.a[0] is p for s in x.a[0].a[1]):
            return mk("seq", "list", tuple(s for s in x.a[0].a[1] if not (s.h == "sp" and s.a[0] is p)))
        return None

    def st_While(self, s):
        breaks = []

        def go():
            for k in range(400):
                cond = self.cond(s.test)
                if cond is FALSE:
                    return
                if cond is TRUE:
                    self.one_iter(lambda: self.block(s.body), breaks)
                    continue
                self.sym_while(s)
                return
            self.sym_while(s)
        alive, val, exits, pc0 = self.scoped(go)
        parts = [(self.st.pc, self.st, None)] if alive else []
        for e in exits:
            if e.kind == "break":
                parts.insert(0, (e.pc, e.st, None))
            else:
                self.sink.append(Exit(e.kind, and_(pc0, e.pc), e.st, e.val))
        if not parts:
            raise Dead()
        self.join(parts, pc0)

    def sym_while(self, s):
        """Unknown number of iterations: carried values become opaque recurrences."""
        st0 = self.st
        phis = {}
        saved_lv = self.loopvars
        for attempt in range(6):
            self.st = st0.copy()
            for loc, (p, val) in phis.items():
                self.set_loc(loc, val)
            start = self.st.copy()
            heap_ids = set(start.heap)
            cond = self.cond(s.test)
            if cond is TRUE or cond is FALSE:
                cond = as_bool(cond)
            self.loopvars = saved_lv + (fresh("int"),)
            alive, _, exits, pc0 = self.scoped(lambda: self.block(s.body))
            self.loopvars = saved_lv
            parts = [(self.st.pc, self.st, None)] if alive else []
            for e in exits:
                if e.kind == "continue":
                    parts.insert(0, (e.pc, e.st, None))
            if not parts:
                self.st = st0
                break
            self.join(parts, TRUE)
            post = self.st
            ch = self.changed(start, post)
            new = [loc for loc in ch if loc not in phis and self.get_loc(loc, st0) is not None]
            if not new:
                break
            for loc in new:
                phis[loc] = self.phi_for(loc, self.get_loc(loc, st0))
        self.st = post
        frozen = {loc: self.freeze_new(self.get_loc(loc, post), heap_ids) for loc in phis}
        ps = [phis[l][0] for l in phis]
        bodies = [cond] + [frozen[l] for l in phis]
        inits = [self.freeze(self.get_loc(l, st0)) for l in phis]
        res = st0.copy()
        self.st = st0
        for k, loc in enumerate(phis):
            f = mk("whlsel", k, tm.close("whl", tuple(inits), ps, bodies))
            self.set_loc(loc, self.wrap_like(loc, f, self.get_loc(loc, st0)), res)
        self.st = res

    # ------------------------------------------------------------ assignment

    def assign(self, target, v):
        if isinstance(target, ast.Name):
            self.setname(target.id, v)
        elif isinstance(target, (ast.Tuple, ast.List)):
            self.unpack(target.elts, v)
        elif isinstance(target, ast.Starred):
            self.assign(target.value, v)
        elif isinstance(target, ast.Attribute):
            o = self.ev(target.value)
            self.setattr(o, target.attr, v, target)
        elif isinstance(target, ast.Subscript):
            o = self.ev(target.value)
            k = self.index_value(target.slice)
            self.setitem(o, k, v, target.value)
        else:
            raise AnalysisError("assign to %s" % type(target).__name__)

    def unpack(self, elts, v):
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if v.h == "ref" and self.cell(v)[0] == "arr" or v.h == "arr":
            s = self.as_seq(v)
        elif v.h in ("seq",):
            s = v
        else:
            s = self.as_seq(v)
        s = self.simp(s)
        if star:
            i = star[0]
            after = len(elts) - i - 1
            for k in range(i):
                self.assign(elts[k], at(s, c(k)))
            mid = lift(lambda a: tm.slice_seq(a, c(i), sub(length(a), c(after))), s)
            self.assign(elts[i].value, self.alloc(("list", self.seqval(mid))))
            for k in range(after):
                self.assign(elts[i + 1 + k], at(s, c(-(after - k))))
            return
        n = len(elts)
        if s.h == "seq" and all(g.h == "el" for g in s.a[1]) and len(s.a[1]) != n:
            self.raise_name("ValueError", "unpack")
        if s.h == "ite":
            bad = lift(lambda a: TRUE if a.h == "seq" and all(g.h == "el" for g in a.a[1]) and len(a.a[1]) != n else FALSE, s)
            if bad is not FALSE:
                self.fork(bad, lambda: self.raise_name("ValueError", "unpack"), lambda: None)
                s = self.simp(s)
        for k in range(n):
            self.assign(elts[k], at(s, c(k)))

    def setattr(self, o, name, v, node=None):
        if o.h == "ref":
            cell = self.cell(o)
            if cell[0] == "inst":
                p = self.class_lookup(cell[1], name)
                d = dict(cell[2])
                d[name] = v
                self.setcell(o, ("inst", cell[1], d))
                return
            if cell[0] == "frame":
                self.frame_set(o, name, v)
                return
        if o.h == "mod":
            self.frame_set(self.modules[o.a[0]].frame, name, v)
            return
        if o.h == "cls":
            CLASSES[o.a[0]].attrs[name] = v
            return
        if o.h == "ite":
            a, x, y = o.a
            self.fork(atom(a), lambda: self.setattr(x, name, v, node), lambda: self.setattr(y, name, v, node))
            return
        if o.h == "inst" and node is not None:
            # value copy: write back through the lvalue
            cls = o.a[0]
            items = dict(o.a[1])
            items[name] = v
            nv = mk("inst", cls, tuple(sorted(items.items())))
            self.write_back(node.value, nv)
            return
        raise AnalysisError("attribute update of an unknown object at %s:%s" % (self.ctx.mod.path, getattr(node, "lineno", 0)))

    def write_back(self, node, nv):
        if isinstance(node, ast.Name):
            self.setname(node.id, nv)
        elif isinstance(node, (ast.Subscript, ast.Attribute)):
            self.assign(node, nv)
        else:
            raise AnalysisError("update of a temporary at %s:%s" % (self.ctx.mod.path, getattr(node, "lineno", 0)))

    def setitem(self, o, k, v, onode=None):
        if o.h == "ite":
            a, x, y = o.a
            self.fork(atom(a), lambda: self.setitem(x, k, v, onode), lambda: self.setitem(y, k, v, onode))
            return
        if o.h == "ref":
            cell = self.cell(o)
            if cell[0] == "dict":
                kk = self.freeze(k)
                self.setcell(o, ("dict", self.dict_set(cell[1], kk, v)))
                return
            if cell[0] == "list":
                self.setcell(o, ("list", self.list_set(cell[1], k, v)))
                return
            if cell[0] == "arr":
                r = self.arr_set(cell, k, v)
                self.setcell(o, r)
                return
            if cell[0] == "inst" and self.class_lookup(cell[1], "__setitem__") is not None:
                self.call_method(o, "__setitem__", [k, v])
                return
            if cell[0] == "any":
                self.setcell(o, ("any", top("item assignment")))
                return
        if o.h == "dict" or (isinstance(ty(o), tuple) and ty(o)[0] == "dict"):
            base = o if o.h == "dict" else dict_([sp(o)])
            self.write_back(onode, self.dict_set(base, self.freeze(k), v))
            return
        if o.h == "seq":
            self.write_back(onode, self.list_set(o, k, v))
            return
        if onode is not None:
            self.write_back(onode, top("item assignment to unknown object"))

    def dict_set(self, d, k, v):
        if d.h == "ite" or k.h == "ite":
            return lift(lambda a, b: self.dict_set(a, b, v), d, k)
        segs = d.a[0] if d.h == "dict" else (sp(d),)
        # overwriting an existing constant key keeps its position
        for i, s in enumerate(segs):
            if s.h == "en" and s.a[0] is k and all(x.h == "en" and tm.keys_differ(x.a[0], k) for x in segs[i + 1:]):
                return dict_(segs[:i] + (en(k, v),) + segs[i + 1:])
            if s.h == "en" and s.a[0] is k and all(x.h == "en" and (x.a[1] is v or x.a[1].h != "ref" and v.h != "ref") for x in segs[i + 1:]):
                # the keys that follow may be the same one
                return dict_(segs[:i] + (en(k, v),) + tuple(en(x.a[0], ite(eq(x.a[0], k), v, x.a[1])) for x in segs[i + 1:]))
        return dict_(tuple(segs) + (en(k, v),))

    def list_set(self, s, k, v):
        if s.h == "ite" or k.h == "ite":
            return lift(lambda a, b: self.list_set(a, b, v), s, k)
        if k.h == "slc":
            if k.a[2] is NONE and s.h == "seq" and all(x is NONE or tm.is_int_const(x) for x in k.a[:2]) and all(g.h == "el" for g in s.a[1]):
                lo, hi, _ = slice(*[None if x is NONE else x.a[0] for x in k.a[:2]]).indices(len(s.a[1]))
                return seq("list", list(s.a[1][:lo]) + [sp(self.as_seq(v))] + list(s.a[1][max(lo, hi):]))
            raise AnalysisError("assignment to a slice of a list")
        if s.h == "seq" and tm.is_int_const(k):
            segs = s.a[1]
            i = k.a[0]
            if i < 0 and all(g.h == "el" for g in segs):
                i += len(segs)
            if i >= 0 and i < len(segs) and all(g.h == "el" for g in segs[:i + 1]):
                return seq(s.a[0], segs[:i] + (el(v),) + segs[i + 1:])
        if s.h == "seq":
            # s[k] = v with a symbolic position
            n = length(s)
            u = fresh("int")
            tm.RANGE_OF[u] = n
            return seq(s.a[0], [tm.fm_seg(n, u, ite(eq(u, k), seq_of("list", [v]), seq_of("list", [at(s, u)])))])
        return top("list item assignment")

    # ------------------------------------------------------------ expressions

    def ev(self, node):
        v = getattr(self, "ev_" + type(node).__name__)(node)
        if v.h in ("attr", "app", "at", "sym", "len") and self.st.facts:
            w = self.rewrites().get(v)
            if w is not None:
                return w
        return v

    def rewrites(self):
        """what the equations of the current path say about single terms"""
        facts = self.st.facts
        if self._rw[0] is not facts:
            d = tm.equations(facts)
            self._rw = (facts, d)
        return self._rw[1]

    _rw = (None, {})

    def ev_Constant(self, n):
        if n.value is Ellipsis:
            return mk("ext", "Ellipsis")
        if isinstance(n.value, complex):
            return mk("cpx", repr(n.value))
        if isinstance(n.value, bytes):
            return mk("bytes", n.value.decode("latin1"))
        return c(n.value)

    def ev_Name(self, n):
        v = self.lookup(n.id)
        if v is UNBOUND:
            self.raise_name("NameError", n.id)
        return v

    def ev_Tuple(self, n):
        return self.build("tuple", n.elts)

    def ev_List(self, n):
        s = self.build("list", n.elts)
        if s.h == "ite":
            return self.alloc(("list", s))
        return self.alloc(("list", s))

    def ev_Set(self, n):
        s = self.build("list", n.elts)
        return self.alloc(("set", tm.set_(self.freeze(s))))

    def build(self, kind, elts):
        segs = []
        for e in elts:
            if isinstance(e, ast.Starred):
                segs.append(sp(self.as_seq(self.ev(e.value))))
            else:
                segs.append(el(self.ev(e)))
        if any(s.h == "sp" for s in segs):
            return seq(kind, segs)
        return mk("seq", kind, tuple(segs))

    def ev_Dict(self, n):
        segs = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                segs.append(sp(self.dictval(self.ev(v))))
            else:
                kk = self.freeze(self.ev(k))
                segs.append(en(kk, self.ev(v)))
        return self.alloc(("dict", dict_(tuple(segs))))

    def dictval(self, v):
        if v.h == "ref":
            cell = self.cell(v)
            if cell[0] == "dict":
                return cell[1]
        if v.h == "ite":
            return lift(self.dictval, self.freeze(v))
        return v

    def ev_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(c(v.value))
            else:
                x = self.ev(v.value)
                conv = {-1: "", 115: "", 114: "r", 97: "a"}[v.conversion]
                if v.format_spec is not None:
                    spec = self.ev(v.format_spec)
                    if isc(spec):
                        conv = conv + spec.a[0] if not conv else conv + ":" + spec.a[0]
                parts.append(self.to_str(x, conv))
        return tm.strcat(parts)

    def to_str(self, x, conv=""):
        if x.h == "ite":
            if x.hasref:
                a, p, q = x.a
                return ite(atom(a), self.to_str(p, conv), self.to_str(q, conv))
            return lift(lambda y: self.to_str(y, conv), x)
        if x.h == "ref":
            cell = self.cell(x)
            if cell[0] == "inst":
                for m in (["__str__", "__repr__"] if conv == "" else ["__repr__"]):
                    if self.class_lookup(cell[1], m) is not None:
                        return self.call_method(x, m, [])
        if x.h == "inst":
            for m in (["__str__", "__repr__"] if conv == "" else ["__repr__"]):
                if self.class_lookup(x.a[0].a[0], m) is not None:
                    return self.call_method(x, m, [])
        return tm.fmt(self.freeze(x), conv)

    def ev_FormattedValue(self, n):
        return self.to_str(self.ev(n.value), "")

    def ev_BoolOp(self, n):
        isand = isinstance(n.op, ast.And)

        def go(i):
            v = self.ev(n.values[i])
            if i == len(n.values) - 1:
                return v
            cond = self.known(self.truth(v))
            if isand:
                return self.fork(cond, lambda: go(i + 1), lambda: v)
            return self.fork(cond, lambda: v, lambda: go(i + 1))
        return go(0)

    def ev_UnaryOp(self, n):
        v = self.ev(n.operand)
        if isinstance(n.op, ast.Not):
            return not_(self.truth(v))
        if isinstance(n.op, ast.USub):
            return self.unop("-", v)
        if isinstance(n.op, ast.UAdd):
            return v
        return top("unary operator")

    def unop(self, op, v):
        if v.h == "ref" and self.cell(v)[0] == "arr":
            cell = self.cell(v)
            return self.alloc(("arr", cell[1], tuple(tm.neg(x) for x in cell[2])))
        if v.h == "arr":
            return mk("arr", v.a[0], tuple(tm.neg(x) for x in v.a[1]))
        r = self.gem_hook("neg", [v])
        if r is not None:
            return r
        v = self.freeze(v)
        if ty(v) in tm.NUMERIC or ty(v) is None or ty(v) == "bool":
            return tm.neg(v)
        return mk("op", "neg", v)

    def gem_hook(self, op, args):
        return None

    def ev_BinOp(self, n):
        a = self.ev(n.left)
        b = self.ev(n.right)
        return self.binop(BINOPS[type(n.op)], a, b)

    def binop(self, op, a, b):
        if a.h == "ite" and (a.hasref or b.hasref) or b.h == "ite" and (b.hasref or a.hasref):
            x = a if a.h == "ite" else b
            g = atom(x.a[0])
            if x is a:
                return self.fork(g, lambda: self.binop(op, a.a[1], b), lambda: self.binop(op, a.a[2], b))
            return self.fork(g, lambda: self.binop(op, a, b.a[1]), lambda: self.binop(op, a, b.a[2]))
        for x, y, nm in ((a, b, "__%s__" % OPNAMES.get(op, op)), (b, a, "__r%s__" % OPNAMES.get(op, op))):
            q = self.inst_class(x)
            if q is not None:
                m = self.class_lookup(q, nm)
                if m is not None:
                    return self.call_method(x, nm, [y])
        r = self.gem_hook(op, [a, b])
        if r is not None:
            return r
        ka, kb = self.cellkind(a), self.cellkind(b)
        if ka == "arr" or kb == "arr" or a.h == "arr" or b.h == "arr":
            return self.arr_op(op, a, b)
        if op == "+" and (ka == "list" or kb == "list" or self.seqlike(a) or self.seqlike(b)):
            kind = "list" if ka == "list" or kb == "list" else None
            if ka == "list" and not (kb == "list" or self.maybe_list(b)) or kb == "list" and not self.maybe_list(a) and ka != "list":
                self.raise_name("TypeError", "concatenation")
            x, y = self.contents(a), self.contents(b)

            def cat(p, q):
                k = kind or self.kindof(p) or self.kindof(q) or "tuple"
                return seq(k, [sp(p), sp(q)])
            r = lift(cat, x, y)
            if kind == "list":
                return self.alloc(("list", r))
            return r
        if op == "*" and (ka == "list" or kb == "list" or self.seqlike(a) or self.seqlike(b)):
            s, n = (a, b) if (ka == "list" or self.seqlike(a)) else (b, a)
            x = self.contents(s)
            r = lift(lambda p, q: self.repeat(p, q), x, self.freeze(n))
            if self.cellkind(s) == "list":
                return self.alloc(("list", r))
            return r
        if ka == "set" or kb == "set" or (a.h == "set" and b.h == "set"):
            return self.setop(op, a, b)
        if op == "+" and (ty(a) == "str" or ty(b) == "str"):
            return tm.strcat([self.freeze(a), self.freeze(b)])
        if op == "%" and ty(a) == "str":
            return self.percent(a, b)
        a, b = self.freeze(a), self.freeze(b)
        if op == "+":
            return self.num(tm.add, op, a, b)
        if op == "-":
            return self.num(tm.sub, op, a, b)
        if op == "*":
            return self.num(tm.mul, op, a, b)
        if op == "/":
            return self.num(tm.div, op, a, b)
        if op == "//":
            return tm.floordiv(a, b)
        if op == "%":
            return tm.mod(a, b)
        if op == "**":
            return tm.power(a, b)
        return mk("op", op, a, b)

    def num(self, f, op, a, b):
        def g(x, y):
            ok = {"int", "num", "gs", None, "bool", "lamarg"}
            if ty(x) in ok and ty(y) in ok and x.h not in ("top_",):
                return f(x, y)
            return mk("op", op, x, y)
        return lift(g, a, b)

    def kindof(self, t):
        if t.h == "seq":
            return t.a[0]
        k = ty(t)
        if tm.is_seq_ty(k):
            return k[0]
        return None

    def maybe_list(self, t):
        k = ty(t)
        return k is None or (isinstance(k, tuple) and k[0] == "list")

    def repeat(self, s, n):
        if tm.is_int_const(n) and n.a[0] <= 64 and s.h == "seq":
            return mk("seq", s.a[0], tuple(s.a[1]) * max(0, n.a[0])) if all(g.h == "el" for g in s.a[1]) else seq(s.a[0], list(s.a[1]) * max(0, n.a[0]))
        k = self.kindof(s) or "list"
        u = fresh("int")
        tm.RANGE_OF[u] = n
        return seq(k, [tm.fm_seg(n, u, mk("seq", "list", tm.segs_of(s)))])

    def seqlike(self, t):
        if t.h == "ite":
            return any(self.seqlike(x) for x in leaves(t))
        return t.h in ("seq", "slice") or tm.is_seq_ty(ty(t))

    def cellkind(self, t):
        if t.h == "ref":
            return self.cell(t)[0]
        return None

    def inst_class(self, t):
        if t.h == "ref":
            cell = self.cell(t)
            if cell[0] == "inst":
                return cell[1]
        if t.h == "inst":
            return t.a[0].a[0]
        return None

    def contents(self, t):
        """sequence term of a list/tuple value, not consuming"""
        if t.h == "ref":
            cell = self.cell(t)
            if cell[0] == "list":
                return cell[1]
            return self.as_seq(t)
        if t.h == "ite" and t.hasref:
            a, x, y = t.a
            return ite(atom(a), self.contents(x), self.contents(y))
        return t

    def percent(self, a, b):
        if isc(a):
            args = b
            parts = []
            s = a.a[0]
            import re
            toks = re.split(r"(%[sdr]|%%|%\.\d+[fge])", s)
            specs = [t for t in toks if t.startswith("%") and t != "%%"]
            seqb = self.freeze(b)
            if seqb.h == "seq" and seqb.a[0] == "tuple" and all(g.h == "el" for g in seqb.a[1]) and len(seqb.a[1]) == len(specs):
                raw = b.a[1] if b.h == "seq" else seqb.a[1]
                vals = [g.a[0] for g in raw]
            elif len(specs) == 1:
                vals = [b]
            elif ty(seqb) is not None and tm.is_seq_ty(ty(seqb)):
                vals = [at(seqb, c(i)) for i in range(len(specs))]
            else:
                return mk("op", "%", a, seqb)
            i = 0
            for t in toks:
                if t == "%%":
                    parts.append(c("%"))
                elif t.startswith("%") and t in specs:
                    conv = {"%s": "", "%r": "r", "%d": "d"}.get(t, t[1:])
                    parts.append(self.to_str(vals[i], conv))
                    i += 1
                else:
                    parts.append(c(t))
            return tm.strcat(parts)
        return mk("op", "%", self.freeze(a), self.freeze(b))

    def setop(self, op, a, b):
        def st(x):
            if x.h == "ref" and self.cell(x)[0] == "set":
                return self.cell(x)[1]
            return self.freeze(x)
        x, y = st(a), st(b)
        if op == "|":
            r = lift(lambda p, q: tm.set_(seq("list", [sp(p.a[0] if p.h == "set" else p), sp(q.a[0] if q.h == "set" else q)])), x, y)
            return self.alloc(("set", r))
        if op in ("-", "&"):
            def diff(p, q):
                if p.h == "set" and all(s.h == "el" for s in p.a[0].a[1]):
                    out = EMPTY_LIST
                    segs = []
                    for s in p.a[0].a[1]:
                        cn = tm.contains(s.a[0], q)
                        if op == "-":
                            cn = not_(cn)
                        segs.append(sp(ite(cn, seq_of("list", [s.a[0]]), EMPTY_LIST)))
                    return map_leaves(seq("list", segs), tm.set_)
                return mk("setop", op, p, q)
            return self.alloc(("set", lift(diff, x, y)))
        return mk("op", op, x, y)

    def ev_Compare(self, n):
        left = self.ev(n.left)
        res = None
        for op, rn in zip(n.ops, n.comparators):
            right = self.ev(rn)
            v = self.compare(op, left, right)
            res = v if res is None else and_(res, v)
            left = right
        return res

    def compare(self, op, a, b):
        t = type(op)
        if t in (ast.Is, ast.IsNot):
            r = lift(tm.is_, self.weak(a), self.weak(b))
            return r if t is ast.Is else not_(r)
        if t is ast.NotEq:
            q = self.inst_class(a)
            if q is not None and self.class_lookup(q, "__ne__") is not None:
                return self.truth(self.call_method(a, "__ne__", [b]))
        if t in (ast.Eq, ast.NotEq):
            r = self.equals(a, b)
            return r if t is ast.Eq else not_(r)
        if t in (ast.In, ast.NotIn):
            r = self.contains(a, b)
            return r if t is ast.In else not_(r)
        q = self.inst_class(a)
        nm = {ast.Lt: "__lt__", ast.LtE: "__le__", ast.Gt: "__gt__", ast.GtE: "__ge__"}[t]
        if q is not None and self.class_lookup(q, nm) is not None:
            return self.truth(self.call_method(a, nm, [b]))
        if self.compare_hook is not None:
            r = self.compare_hook(self, op, a, b)
            if r is not None:
                return r
        a, b = self.freeze(a), self.freeze(b)
        if t is ast.Lt:
            return self.order("lt", a, b)
        if t is ast.LtE:
            return self.order("le", a, b)
        if t is ast.Gt:
            return self.order("lt", b, a)
        return self.order("le", b, a)

    def order(self, k, a, b):
        def f(x, y):
            if x.h == "set" or y.h == "set":
                return atom(mk("subset" + ("" if k == "le" else "_strict"), x, y))
            return tm.lt(x, y) if k == "lt" else tm.le(x, y)
        return lift(f, a, b)

    def weak(self, a):
        return a

    def equals(self, a, b):
        if a.h == "ite" and a.hasref:
            g, x, y = a.a
            return ite(atom(g), self.equals(x, b), self.equals(y, b))
        if b.h == "ite" and b.hasref:
            g, x, y = b.a
            return ite(atom(g), self.equals(a, x), self.equals(a, y))
        if a is b:
            return TRUE
        for x, y in ((a, b), (b, a)):
            q = self.inst_class(x)
            if q is not None:
                if self.class_lookup(q, "__eq__") is not None:
                    return self.truth(self.call_method(x, "__eq__", [y]))
                if self.inst_class(y) is not None:
                    return FALSE
        return eq(self.freeze(a), self.freeze(b))

    def contains(self, x, s):
        if s.h == "ref":
            cell = self.cell(s)
            if cell[0] in ("dict",):
                return tm.in_dict(self.freeze(x), cell[1])
            if cell[0] == "list":
                return lift(lambda t: tm.any_seq(t, lambda y: self.equals(x, y)), cell[1])
            if cell[0] == "set":
                return tm.contains(self.freeze(x), cell[1])
            if cell[0] == "inst" and self.class_lookup(cell[1], "__contains__") is not None:
                return self.truth(self.call_method(s, "__contains__", [x]))
            if cell[0] == "iter":
                return tm.contains(self.freeze(x), self.freeze(self.as_seq(s)))
        if s.h == "seq" and all(g.h == "el" for g in s.a[1]):
            return or_(*[self.equals(x, g.a[0]) for g in s.a[1]])
        k = ty(s)
        if s.h not in ("seq", "dict", "set", "keys", "c", "ite") and (isinstance(k, str) or k is None) and k != "str":
            return as_bool(mk("in", self.freeze(x), self.freeze(s)))
        if k == "str":
            return tm.contains(self.freeze(x), self.freeze(s))
        return tm.contains(self.freeze(x), self.freeze(s))

    def ev_IfExp(self, n):
        cond = self.cond(n.test)
        return self.fork(cond, lambda: self.ev(n.body), lambda: self.ev(n.orelse))

    def ev_Lambda(self, n):
        return self.make_func(n, "<lambda>").term

    def ev_NamedExpr(self, n):
        v = self.ev(n.value)
        self.assign(n.target, v)
        return v

    def ev_Starred(self, n):
        return self.ev(n.value)

    def ev_Yield(self, n):
        v = self.ev(n.value) if n.value is not None else NONE
        cell = self.cell(self.ctx.yields)
        self.setcell(self.ctx.yields, ("list", lift(lambda s: seq("list", [sp(s), el(v)]), cell[1])))
        return NONE

    def ev_YieldFrom(self, n):
        v = self.as_seq(self.ev(n.value))
        cell = self.cell(self.ctx.yields)
        self.setcell(self.ctx.yields, ("list", lift(lambda s, x: seq("list", [sp(s), sp(x)]), cell[1], v)))
        return NONE

    # ---- comprehensions are loops with a hidden accumulator

    def comp(self, n, mkelt, cell):
        # first iterable is evaluated in the enclosing scope
        first = self.as_seq(self.ev(n.generators[0].iter))
        saved = self.ctx
        fr = self.alloc(("frame", {}, self.ctx.frame))
        acc = self.alloc(cell)
        self.ctx = Ctx(saved.fn, fr, saved.mod, saved.depth)
        self.ctx.yields = saved.yields
        loc = ("c", acc.a[0])

        def level(i, it):
            g = n.generators[i]

            def body(x):
                self.assign(g.target, x)
                conds = list(g.ifs)

                def inner():
                    if i + 1 < len(n.generators):
                        level(i + 1, self.as_seq(self.ev(n.generators[i + 1].iter)))
                    else:
                        mkelt(acc)

                def chk(k):
                    if k == len(conds):
                        return inner()
                    cd = self.cond(conds[k])
                    self.fork(cd, lambda: chk(k + 1), lambda: None)
                chk(0)
            self.run_loop(it, body, (), (loc,))
        try:
            level(0, first)
        finally:
            self.ctx = saved
        return acc

    def comp_list(self, n):
        def mkelt(acc):
            v = self.ev(n.elt)
            cell = self.cell(acc)
            self.setcell(acc, ("list", lift(lambda s: seq("list", [sp(s), el(v)]), cell[1])))
        return self.comp(n, mkelt, ("list", EMPTY_LIST))

    def ev_ListComp(self, n):
        return self.comp_list(n)

    def ev_GeneratorExp(self, n):
        acc = self.comp_list(n)
        return self.alloc(("iter", self.cell(acc)[1], ZERO))

    def ev_SetComp(self, n):
        acc = self.comp_list(n)
        return self.alloc(("set", tm.set_(self.freeze(acc))))

    def ev_DictComp(self, n):
        def mkelt(acc):
            k = self.freeze(self.ev(n.key))
            v = self.ev(n.value)
            cell = self.cell(acc)
            self.setcell(acc, ("dict", self.dict_set(cell[1], k, v)))
        return self.comp(n, mkelt, ("dict", EMPTY_DICT))

    # ---- attribute access

    def ev_Attribute(self, n):
        o = self.ev(n.value)
        return self.getattr(o, n.attr, n)

    def getattr(self, o, name, node=None, default=None):
        h = o.h
        if h == "ite":
            g, x, y = o.a
            cond = self.known(atom(g))
            if cond is TRUE:
                return self.getattr(x, name, node, default)
            if cond is FALSE:
                return self.getattr(y, name, node, default)
            if x is UNBOUND:
                return self.getattr(y, name, node, default)
            if y is UNBOUND:
                return self.getattr(x, name, node, default)
            return self.fork(cond, lambda: self.getattr(x, name, node, default), lambda: self.getattr(y, name, node, default))
        if h == "ref":
            cell = self.cell(o)
            k = cell[0]
            if k == "inst":
                return self.inst_getattr(o, cell[1], cell[2], name, default)
            if k == "any":
                return self.getattr(cell[1], name, node, default)
            if k == "arr":
                r = self.arr_attr(o, cell, name)
                if r is not None:
                    return r
            return mk("bm", o, name)
        if h == "inst":
            return self.inst_getattr(o, o.a[0].a[0], dict(o.a[1]), name, default)
        if h == "mod":
            m = self.load(o.a[0])
            v = self.frame_get(m.frame, name)
            if v is None and self.modpath(o.a[0] + "." + name):
                return self.import_module(o.a[0] + "." + name)
            if v is None:
                if default is not None:
                    return default
                return mk("ext", o.a[0] + "." + name)
            if v.h == "ite":
                v = self.drop_unbound(v)
            return v
        if h == "ext":
            if name == "name" and o.a[0].startswith("ufl.sobolevspace."):
                # the name the space is made with
                d = extern.defnode(o.a[0])
                if d is not None and isinstance(d[2], ast.Call) and d[2].args and isinstance(d[2].args[0], ast.Constant):
                    return c(d[2].args[0].value)
            return extern.resolve(o.a[0] + "." + name)
        if h == "cls":
            return self.cls_getattr(o, name, default)
        if h == "super":
            return self.super_getattr(o, name)
        if h == "fn":
            if name == "__name__":
                return c(FUNCS[o.a[0]].name) if o.a[0] in FUNCS else mk("attr", o, name)
            if name in ("register", "dispatch"):
                return mk("bm", o, name)
            return mk("bm", o, name)
        if h == "exc":
            if name == "args":
                return seq_of("tuple", o.a[1])
            return tm.attr(o, name)
        if h in ("seq", "dict", "set", "str", "keys", "sorted", "join"):
            made = {"tuple": tuple, "list": list}.get(o.a[0]) if h == "seq" else dict if h == "dict" else None
            if made is not None and not hasattr(made, name) and name not in ("move_to_end", "default_factory", "most_common", "elements", "subtract", "total", "__missing__"):
                if default is not None:
                    return default
                self.raise_(mk("exc", "AttributeError", (c(name),)))
            return mk("bm", o, name)
        if h == "slc" and name in ("start", "stop", "step"):
            return o.a[("start", "stop", "step").index(name)]
        if h == "c":
            if name in ("real",):
                return o
            if o is NONE and not hasattr(None, name):
                if default is not None:
                    return default
                self.raise_(mk("exc", "AttributeError", (c(name),)))
            return mk("bm", o, name)
        if h == "arr":
            r = self.arr_attr(o, ("arr", o.a[0], o.a[1]), name)
            if r is not None:
                return r
            return mk("bm", o, name)
        k = ty(o)
        if isinstance(k, tuple) or k == "str":
            return mk("bm", o, name)
        if k in tm.NUMERIC and name in ("tolist", "item"):
            # what numpy.array made of a single number
            return mk("scalar_method", o)
        return self.opaque_attr(o, k, name, default)

    def opaque_attr(self, o, k, name, default=None):
        f = self.attr_models.get((k, name))
        if f is not None:
            return f(self, o)
        conc = self.proto_concrete.get(k)
        if conc and name in conc:
            q = self.proto_class[k]
            v = self.class_lookup(q, name)
            if v is not None:
                return self.bind(v, o, q)
        r = self.gem_attr(o, k, name)
        if r is not None:
            return r
        if default is not None and k is not None and not self.may_have(k, name):
            return ite(atom(mk("hasattr", o, name)), mk("attr", o, name), default)
        return tm.attr(o, name)

    def may_have(self, k, name):
        return (k, name) in tm.ATTR_TYPE or (k, name) in tm.CALL_TYPE

    def gem_attr(self, o, k, name):
        return None

    def inst_getattr(self, o, q, attrs, name, default=None):
        v = self.class_lookup(q, name)
        if v is not None and v.h == "prop" and v.a[1] == "property":
            ga = self.class_lookup(q, "__getattr__")
            if ga is not None and self.prelude is not None:
                return self.call(self.frame_get(self.prelude.frame, "property_or_getattr"), [o, v.a[0], ga, c(name)], {})
            return self.call_fn(v.a[0], [o], {})
        if name in attrs:
            x = attrs[name]
            if x.h == "ite":
                x = self.simp(x)
                if any(y is UNBOUND for y in leaves(x)):
                    if v is not None:
                        cls_v = self.bind(v, o, q)
                        x = map_leaves(x, lambda y: cls_v if y is UNBOUND else y)
                    else:
                        x = self.drop_unbound(x)
            return x
        if v is not None:
            if v.h == "prop":
                return self.cached_prop(o, q, v, name)
            return self.bind(v, o, q)
        if name == "__class__":
            return CLASSES[q].term
        if name == "__dict__":
            return dict_(tuple(en(c(k), x) for k, x in sorted(attrs.items())))
        ga = self.class_lookup(q, "__getattr__")
        if ga is not None and (name in ("__setstate__", "__deepcopy__", "__copy__", "__getnewargs__", "__getnewargs_ex__")
                               or not (name.startswith("__") and name.endswith("__"))):
            return self.call_fn(ga, [o, c(name)], {})
        # inherited from an external base class
        for b in CLASSES[q].mro:
            if b.h == "ext" and b.a[0] not in ("builtins.object",):
                r = extern.class_attr(self, b.a[0], name)
                if r is not None:
                    return self.bind_ext(r, o, b)
        if default is not None:
            return default
        if name in ("__init__", "__new__", "__reduce__", "__hash__", "__eq__"):
            return mk("bm", o, name)
        if any(b.h == "ext" and b.a[0] not in ("builtins.object",) for b in CLASSES[q].mro) and not self.known_bases(q):
            return mk("attr", self.freeze(o), name)
        if any(b.h == "ext" and not b.a[0].startswith(("builtins.", "abc.")) and extern.has_member(b.a[0], name) for b in CLASSES[q].mro):
            return mk("attr", self.freeze(o), name)
        if name.startswith("_") and self.ctx.mod.kind == "spec" or any(
                b.h == "cls" and b.a[0].startswith("spec_") for b in CLASSES[q].mro):
            raise AnalysisError("the specification's stand-in has no attribute " + name)
        self.raise_(mk("exc", "AttributeError", (c(name),)))

    def known_bases(self, q):
        ok = ("builtins.object", "abc.ABC", "builtins.Exception")
        return all(b.h == "cls" or b.a[0] in ok or b.a[0].startswith("builtins.") or extern.known_class(b.a[0]) for b in CLASSES[q].mro)

    def bind_ext(self, r, o, b):
        return self.bind(r, o, None)

    def cached_prop(self, o, q, v, name):
        r = self.call_fn(v.a[0], [o], {})
        if o.h == "ref":
            cell = self.cell(o)
            if cell is not None and cell[0] == "inst":
                for y in leaves(r):
                    self.cached_values.add((o, name, y))
                d = dict(cell[2])
                d[name] = r
                # memoised under the attribute name, as functools does
                self.setcell(o, ("inst", cell[1], d))
        return r

    def bind(self, v, o, q):
        if v.h == "fn":
            return mk("bound", v, o)
        if v.h == "prop":
            return self.call_fn(v.a[0], [o], {})
        if v.h == "static":
            return v.a[0]
        if v.h == "clsm":
            t = CLASSES[q].term if q else mk("typeof", self.freeze(o))
            if o.h == "cls":
                t = o
            return mk("bound", v.a[0], t)
        return v

    def cls_getattr(self, o, name, default=None):
        k = CLASSES[o.a[0]]
        if name == "__name__":
            return c(k.name)
        if name == "__qualname__":
            return c(k.name)
        if name == "__module__":
            return c(k.mod.name)
        if name == "__mro__":
            return seq_of("tuple", k.mro)
        v = self.class_lookup(o.a[0], name)
        if v is not None:
            if v.h == "static":
                return v.a[0]
            if v.h == "clsm":
                return mk("bound", v.a[0], o)
            return v
        for b in k.mro:
            if b.h == "ext" and b.a[0] != "builtins.object":
                r = extern.class_attr(self, b.a[0], name)
                if r is not None:
                    if r.h == "static":
                        return r.a[0]
                    if r.h == "clsm":
                        return mk("bound", r.a[0], o)
                    return r
        if name == "__new__":
            return mk("ext", "builtins.object.__new__")
        if default is not None:
            return default
        return mk("clsattr", o, name)

    def super_getattr(self, s, name):
        owner, o = s.a
        q = o.a[0] if o.h == "cls" else self.inst_class(o)
        if q is None:
            q = owner.a[0]
        mro = CLASSES[q].mro
        skip = True
        for b in mro:
            if skip:
                if b is owner:
                    skip = False
                continue
            if b.h == "cls":
                v = CLASSES[b.a[0]].attrs.get(name)
                if v is not None:
                    if v.h == "fn" and name == "__new__":
                        return v
                    return self.bind(v, o, q)
            elif b.a[0] != "builtins.object":
                r = extern.class_attr(self, b.a[0], name)
                if r is not None:
                    return self.bind_ext(r, o, b)
        if name == "__init__":
            if any(b.h == "ext" and b.a[0] == "ufl.sobolevspace.SobolevSpace" for b in CLASSES[q].mro):
                return mk("partial", mk("ext", "ufl.sobolevspace.SobolevSpace.__init__"), (o,), ())
            return mk("nop", 0)
        if name == "__new__":
            return mk("ext", "builtins.object.__new__")
        if name in ("__repr__", "__str__", "__hash__", "__eq__"):
            return mk("bm", mk("object_of", self.freeze(o)), name)
        return mk("attr", mk("super", owner, self.freeze(o)), name)

    # ---- subscripts

    def index_value(self, node):
        if isinstance(node, ast.Slice):
            return mk("slc", *[self.freeze(self.ev(x)) if x is not None else NONE for x in (node.lower, node.upper, node.step)])
        if isinstance(node, ast.Tuple):
            if any(isinstance(x, ast.Starred) for x in node.elts):
                if any(isinstance(x, ast.Slice) for x in node.elts):
                    return top("slices beside starred indices")
                return self.freeze(self.ev(node))
            return seq_of("tuple", [self.index_value(x) for x in node.elts])
        return self.ev(node)

    def ev_Slice(self, n):
        return self.index_value(n)

    def ev_Subscript(self, n):
        o = self.ev(n.value)
        k = self.index_value(n.slice)
        return self.getitem(o, k, n)

    def anticipate_absence(self, d, k):
        """a look-up in a table under a handler for the absence of the key"""
        if d.h != "dict" or not all(x.h == "en" for x in d.a[0]) or not self.trying or not self.anticipated("KeyError"):
            return None
        there = self.known(tm.in_dict(k, d))
        if there is TRUE:
            return None
        return self.fork(there, lambda: self.simp(sel(d, k)), lambda: self.raise_(mk("exc", "KeyError", ())))

    def getitem(self, o, k, node=None):
        if o.h == "ite":
            if o.hasref or any(x.h in ("inst", "arr") for x in leaves(o)):
                g, x, y = o.a
                return self.fork(atom(g), lambda: self.getitem(x, k, node), lambda: self.getitem(y, k, node))
            g, x, y = o.a
            return self.fork(atom(g), lambda: self.getitem(x, k, node), lambda: self.getitem(y, k, node))
        if k.h == "ite" and not k.hasref:
            g, x, y = k.a
            return self.fork(atom(g), lambda: self.getitem(o, x, node), lambda: self.getitem(o, y, node))
        if o.h == "ref":
            cell = self.cell(o)
            kind = cell[0]
            if kind == "list":
                return self.seq_getitem(cell[1], k, True)
            if kind == "dict":
                kk = self.freeze(k)
                r = self.anticipate_absence(cell[1], kk)
                if r is not None:
                    return r
                r = sel(cell[1], kk)
                if r.h == "keyerror":
                    self.raise_(mk("exc", "KeyError", ()))
                if r.h == "ite" and any(x.h == "keyerror" for x in leaves(r)):
                    bad = lift(lambda x: TRUE if x.h == "keyerror" else FALSE, r)
                    return self.fork(bad, lambda: self.raise_(mk("exc", "KeyError", ())), lambda: self.simp(sel(cell[1], kk)))
                return r
            if kind == "arr":
                return self.arr_get(cell, k, o)
            if kind == "inst":
                if self.class_lookup(cell[1], "__getitem__") is not None:
                    return self.call_method(o, "__getitem__", [k])
                self.raise_name("TypeError", "not subscriptable")
            if kind == "any":
                return self.getitem(cell[1], k, node)
            return top("subscript of %s" % kind)
        if o.h == "arr":
            return self.arr_get(("arr", o.a[0], o.a[1]), k)
        if o.h == "inst" and self.class_lookup(o.a[0].a[0], "__getitem__") is not None:
            return self.call_method(o, "__getitem__", [k])
        if o.h == "dict":
            r = self.anticipate_absence(o, self.freeze(k))
            if r is not None:
                return r
            r = sel(o, self.freeze(k))
            if r.h == "keyerror":
                self.raise_(mk("exc", "KeyError", ()))
            return r
        if o.h == "ext" and o.a[0] == "numpy.s_":
            return k
        if o.h in ("seq", "slice", "keys", "sorted") or tm.is_seq_ty(ty(o)) or (isc(o) and isinstance(o.a[0], str)):
            return self.seq_getitem(o, k, False)
        kt = ty(o)
        if isinstance(kt, tuple) and kt[0] == "dict":
            return sel(o, self.freeze(k))
        r = self.gem_getitem(o, k)
        if r is not None:
            return r
        kk = self.freeze(k)
        if kt == "array":
            r = views.with_new_axes(self, o, kk)
            if r is not None:
                return r
        if kk.h == "slc":
            return self.seq_getitem(o, kk, False)
        return at(o, kk)

    def gem_getitem(self, o, k):
        return None

    def seq_getitem(self, s, k, fresh_list):
        if s.h == "ite":
            s = self.simp(s)
        if s.h == "ite":
            g, x, y = s.a
            return self.fork(atom(g), lambda: self.seq_getitem(x, k, fresh_list), lambda: self.seq_getitem(y, k, fresh_list))
        if s.h == "seq" and (k is NONE or tm.is_str_const(k)):
            self.raise_name("TypeError", "indices must be integers or slices")
        if k.h == "slc":
            lo, hi, step = k.a
            r = self.slice(s, lo, hi, step)
            if fresh_list:
                return self.alloc(("list", r))
            return r
        if k.h == "ext":
            return top("index %s" % k.a[0])
        k = self.simp(self.freeze(k))
        r = at(s, k)
        if r.h == "top" and r.a[0] == "index out of range":
            self.raise_(mk("exc", "IndexError", ()))
        if r.h == "ite" and any(x.h == "top" and x.a[0] == "index out of range" for x in leaves(r)):
            bad = lift(lambda x: TRUE if x.h == "top" and x.a[0] == "index out of range" else FALSE, r)
            return self.fork(bad, lambda: self.raise_(mk("exc", "IndexError", ())), lambda: self.under_pc(r))
        return r

    def under_pc(self, r):
        """simplify by the path condition"""
        for x, _ in guarded_leaves(r):
            pass
        good = [(g, x) for x, g in guarded_leaves(r) if and_(self.st.pc, g) is not FALSE]
        if len(good) == 1:
            return good[0][1]
        out = good[-1][1]
        for g, x in reversed(good[:-1]):
            out = ite(g, x, out)
        return out

    def slice(self, s, lo, hi, step):
        n = length(s)

        def norm(x, dflt):
            if x is NONE:
                return dflt
            if tm.is_int_const(x):
                if x.a[0] < 0:
                    return add(n, x)
                return x
            # slice bounds are assumed to lie within the sequence
            return x
        lo2, hi2 = norm(lo, ZERO), norm(hi, n)
        if tm.is_int_const(n) and tm.is_int_const(lo2) and tm.is_int_const(hi2):
            a, b = max(0, min(lo2.a[0], n.a[0])), max(0, min(hi2.a[0], n.a[0]))
            if step is NONE or step is ONE:
                b = max(a, b)
                return tm.slice_seq(s, c(a), c(b))
            if tm.is_int_const(step):
                if lo is NONE and hi is NONE and step.a[0] < 0:
                    idx = range(n.a[0])[::step.a[0]]
                else:
                    idx = range(n.a[0])[(None if lo is NONE else lo.a[0]):(None if hi is NONE else hi.a[0]):step.a[0]]
                kind = self.kindof(s) or "list"
                return seq_of(kind, [at(s, c(i)) for i in idx])
        if step is not NONE and step is not ONE:
            if step is c(-1) and lo is NONE and hi is NONE:
                return self.reverse(s)
            return mk("stepslice", s, lo, hi, step)
        if tm.is_int_const(lo2) and s.h == "seq" and lo2.a[0] > 0:
            # s[k:] of a sequence with fewer definite elements: leave to slice_seq
            pass
        return tm.slice_seq(s, lo2, hi2)

    def reverse(self, s):
        if s.h == "ite":
            return lift(self.reverse, s)
        if s.h == "rev":
            return s.a[0]
        if s.h == "seq":
            out = []
            for g in reversed(s.a[1]):
                if g.h == "el":
                    out.append(g)
                elif g.h == "sp":
                    out.append(sp(mk("rev", g.a[0])))
                else:
                    (v,), (b,) = tm.open_(g)
                    n = g.a[0][0]
                    b2 = map_leaves(b, self.reverse)
                    out.append(tm.fm_seg(n, v, subst(b2, {v: sub(sub(n, ONE), v)})))
            return seq(s.a[0], out)
        return mk("rev", s)

    # ------------------------------------------------------------ calls

    def ev_Call(self, n):
        # super() needs the lexical class
        if isinstance(n.func, ast.Name) and n.func.id == "super":
            if not n.args:
                fn = self.ctx.fn
                cls = fn.cls
                first = fn.node.args.args[0].arg
                o = self.lookup(first)
                return mk("super", CLASSES[cls].term, o)
            a = [self.ev(x) for x in n.args]
            return mk("super", a[0], a[1])
        # mutating methods on values reached through lvalues
        if isinstance(n.func, ast.Attribute):
            o = self.ev(n.func.value)
            f = self.getattr(o, n.func.attr, n.func)
        else:
            f = self.ev(n.func)
        args = []
        for x in n.args:
            if isinstance(x, ast.Starred):
                s = self.as_seq(self.ev(x.value))
                args.append(sp(s))
            else:
                args.append(self.ev(x))
        kwargs = {}
        for kw in n.keywords:
            if kw.arg is None:
                d = self.dictval(self.ev(kw.value))
                if d.h == "dict" and all(s.h == "en" and tm.is_str_const(s.a[0]) for s in d.a[0]):
                    for s in d.a[0]:
                        kwargs[s.a[0].a[0]] = s.a[1]
                else:
                    kwargs["**"] = d if "**" not in kwargs else dict_([sp(kwargs["**"]), sp(d)])
            else:
                kwargs[kw.arg] = self.ev(kw.value)
        saved = getattr(self, "callnode", None)
        self.callnode = n
        try:
            return self.call(f, args, kwargs)
        finally:
            self.callnode = saved

    def expand(self, args):
        """flatten starred arguments if they have a known number of elements"""
        out = []
        for a in args:
            if a.h == "sp":
                s = self.simp(a.a[0])
                if s.h == "seq" and all(g.h == "el" for g in s.a[1]):
                    out.extend(g.a[0] for g in s.a[1])
                else:
                    n = self.simp(length(s)) if s.h != "ite" else None
                    if n is not None and tm.is_int_const(n) and n.a[0] <= 20:
                        out.extend(at(s, c(i)) for i in range(n.a[0]))
                    else:
                        out.append(sp(s))
            else:
                out.append(a)
        return out

    def call(self, f, args, kwargs):
        args = self.expand(args)
        for i, a in enumerate(args):
            if a.h == "sp" and a.a[0].h == "ite":
                g, x, y = a.a[0].a
                return self.fork(atom(g), lambda: self.call(f, args[:i] + [sp(x)] + args[i + 1:], kwargs),
                                 lambda: self.call(f, args[:i] + [sp(y)] + args[i + 1:], kwargs))
        h = f.h
        if h == "ite":
            g, x, y = f.a
            return self.fork(atom(g), lambda: self.call(x, args, kwargs), lambda: self.call(y, args, kwargs))
        if h == "fn":
            return self.call_fn(f, args, kwargs)
        if h == "bound":
            return self.call(f.a[0], [f.a[1]] + args, kwargs)
        if h == "cls":
            return self.construct(f, args, kwargs)
        if h == "bm":
            return self.call_bm(f.a[0], f.a[1], args, kwargs)
        if h == "scalar_method" and not args:
            return f.a[0]
        if h == "partial":
            kw = dict(f.a[2])
            kw.update(kwargs)
            return self.call(f.a[0], list(f.a[1]) + args, kw)
        if h == "pyf":
            return PYF[f.a[0]](self, args, kwargs)
        if h == "nop":
            return NONE
        if h == "lam":
            n = f.a[1]
            if len(args) == n and not kwargs:
                return tm.inst_binder(f, [self.freeze(a) for a in args])[0]
        if h == "ref":
            cell = self.cell(f)
            if cell[0] == "inst":
                if self.class_lookup(cell[1], "__call__") is not None:
                    return self.call_method(f, "__call__", args, kwargs)
        if h == "inst" and self.class_lookup(f.a[0].a[0], "__call__") is not None:
            return self.call_method(f, "__call__", args, kwargs)
        if h == "ext":
            b = self.bound_ext.get(f.a[0])
            if b is not None:
                return self.call(b, args, kwargs)
            m = self.models.get(f.a[0])
            if m is not None:
                r = m(self, args, kwargs)
                if r is not None:
                    return r
            p = f.a[0].split(".")
            if len(p) == 3 and p[0] == "builtins" and p[1] in ("str", "list", "tuple", "dict", "set", "frozenset") and args and args[0].h != "sp":
                # unbound method of a built-in class
                return self.call(self.getattr(args[0], p[2]), args[1:], kwargs)
            return self.opaque_call(f, args, kwargs)
        if h == "attr":
            k = ty(f.a[0])
            m = self.methods.get((k, f.a[1])) or self.methods.get(("*", f.a[1]))
            if m is not None:
                r = m(self, f.a[0], args, kwargs)
                if r is not None:
                    return r
        if h == "c" and f is NONE:
            self.raise_name("TypeError", "not callable")
        return self.opaque_call(f, args, kwargs)

    def opaque_call(self, f, args, kwargs):
        f = self.freeze(f)
        args = [self.freeze(a) for a in args]
        kwargs = {k: self.freeze(v) for k, v in kwargs.items()}
        return opaque_app(self, f, args, kwargs)

    def call_method(self, o, name, args, kwargs=None):
        return self.call(self.getattr(o, name), list(args), kwargs or {})

    def call_fn(self, f, args, kwargs):
        args = self.expand(args)
        fo = FUNCS.get(f.a[0])
        if fo is None:
            return self.opaque_call(f, args, kwargs)
        if fo.qual in self.opaque_funcs:
            if self.unfolding != fo.qual:
                r = opaque_app(self, mk("fn", fo.qual), [self.freeze(a) for a in args], {k: self.freeze(v) for k, v in kwargs.items()}, fo)
                return self.supposed.get(r, r)
            self.unfolding = None
        if fo.dispatch is not None and fo.dispatch:
            return self.dispatch(fo, args, kwargs)
        if fo.memo:
            return self.remembered(fo, args, kwargs)
        return self.invoke(fo, args, kwargs)

    def remembered(self, fo, args, kwargs):
        """the results of a cached function are the same objects each time"""
        key = (fo.qual, tuple(args), tuple(sorted(kwargs.items(), key=lambda p: p[0])))
        old = self.memo.get(key)
        if old is not None and all(x.a[0] in self.st.heap for x in tm.subterms(old) if x.h == "ref"):
            return old
        r = self.invoke(fo, args, kwargs)
        if any(x.h == "ref" for x in tm.subterms(r)):
            self.memo[key] = r
        return r

    def dispatch(self, fo, args, kwargs):
        x = args[0]
        if x.h == "ite":
            g, p, q = x.a
            return self.fork(atom(g), lambda: self.dispatch(fo, [p] + args[1:], kwargs), lambda: self.dispatch(fo, [q] + args[1:], kwargs))
        # later registrations of the same class win; more specific classes first
        table = []
        for k, fn in fo.dispatch:
            table = [(a, b) for a, b in table if a is not k] + [(k, fn)]
        q = self.inst_class(x)
        if q is not None:
            # the first registered class of the resolution order
            for k in CLASSES[q].mro:
                for a, fn in table:
                    if a is k:
                        return self.call(fn, args, kwargs)
            if not any(k.h == "ext" for k in CLASSES[q].mro):
                return self.invoke(fo, args, kwargs)
        ordered = []
        for k, fn in table:
            i = 0
            while i < len(ordered) and not (self.isinst_rel(k, ordered[i][0]) is True):
                i += 1
            ordered.insert(i, (k, fn))

        def go(i):
            if i == len(ordered):
                return self.invoke(fo, args, kwargs)
            k, fn = ordered[i]
            cnd = self.known(self.isinstance(x, k))
            return self.fork(cnd, lambda: self.call(fn, args, kwargs), lambda: go(i + 1))
        return go(0)

    def invoke(self, fo, args, kwargs):
        self.callcount += 1
        if self.callcount > self.max_calls:
            raise tm.Blowup("too many calls")
        depth = (self.ctx.depth if self.ctx else 0) + 1
        active = [s for s in self.stack if s[0] is fo]
        frozen = None
        if active and not kwargs and fo.mod.kind == "repo":
            # the same call, on the same objects, within itself never returns
            if active[-1][1] == tuple(args):
                frozen = tuple(self.freeze(a) for a in args)
                if active[-1][2] == frozen:
                    self.raise_name("RecursionError")
        if active and (depth > self.MAXDEPTH or self.symbolic_recursion(active, args, kwargs)):
            return opaque_app(self, mk("fn", fo.qual), [self.freeze(a) for a in args], {k: self.freeze(v) for k, v in kwargs.items()}, fo)
        if fo.mod.kind == "repo":
            self.touched[fo.qual.split("#")[0]] = (fo.mod.path, fo.node.lineno)
        env = self.bindargs(fo, args, kwargs)
        if env is None:
            return opaque_app(self, mk("fn", fo.qual), [self.freeze(a) for a in args], {k: self.freeze(v) for k, v in kwargs.items()}, fo)
        fr = self.alloc(("frame", env, fo.closure))
        saved = self.ctx
        self.ctx = Ctx(fo, fr, fo.mod, depth)
        self.stack.append((fo, tuple(args), frozen))
        if fo.isgen is None:
            fo.isgen = not isinstance(fo.node, ast.Lambda) and has_yield(fo.node)
        if fo.isgen:
            self.ctx.yields = self.new_list()
        try:
            if isinstance(fo.node, ast.Lambda):
                alive, val, exits, pc0 = self.scoped(lambda: self.ev(fo.node.body))
            else:
                alive, val, exits, pc0 = self.scoped(lambda: self.block(fo.node.body))
                val = NONE
        finally:
            ctx = self.ctx
            self.ctx = saved
            self.stack.pop()
        parts = []
        for e in exits:
            if e.kind == "return":
                parts.append((e.pc, e.st, e.val))
            else:
                self.sink.append(Exit(e.kind, and_(pc0, e.pc), e.st, e.val))
        if alive:
            parts.append((self.st.pc, self.st, val))
        if not parts:
            raise Dead()
        r = self.join(parts, pc0)
        if fo.isgen:
            return self.alloc(("iter", self.cell(ctx.yields)[1], ZERO))
        return r

    def symbolic_recursion(self, active, args, kwargs):
        if len(active) >= 12:
            return True
        if not args:
            return len(active) >= 2
        x = args[0]
        if x.h in ("c", "seq", "ref", "cls", "ext", "inst", "dict"):
            # structural recursion on known objects unless it repeats
            return any(a[1] == tuple(args) for a in active) and len(active) >= 2
        return True

    def bindargs(self, fo, args, kwargs):
        a = fo.node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        env = {}
        i = 0
        args = list(args)
        npos = len(params)
        if any(x.h == "sp" for x in args):
            k = next(j for j, x in enumerate(args) if x.h == "sp")
            if not a.vararg or k < npos and not (k == npos):
                # distribute a sequence of unknown length over the remaining parameters
                if a.vararg and k < npos:
                    s = seq("tuple", [x if x.h == "sp" else el(x) for x in args[k:]])
                    need = npos - k
                    head = args[:k] + [at(s, c(j)) for j in range(need)]
                    rest = tm.slice_seq(s, c(need), length(s))
                    for p, v in zip(params, head):
                        env[p] = v
                    env[a.vararg.arg] = rest if rest.h == "seq" else seq("tuple", [sp(rest)])
                    return self.bind_rest(fo, env, kwargs, a, params, npos)
                s = seq("tuple", [x if x.h == "sp" else el(x) for x in args[k:]])
                nreq = npos - len(fo.defaults)
                names = [p for p in params[k:] if p not in kwargs]
                if not names:
                    return None
                need = [p for p in names if params.index(p) < nreq] or names
                args = args[:k] + [at(s, c(j)) for j in range(len(need))]
        for p, v in zip(params, args):
            env[p] = v
        if len(args) > npos:
            rest = args[npos:]
            if not a.vararg:
                self.raise_name("TypeError", "too many positional arguments for %s" % fo.name)
            env[a.vararg.arg] = seq("tuple", [x if x.h == "sp" else el(x) for x in rest])
        elif a.vararg:
            env[a.vararg.arg] = EMPTY_TUPLE
        return self.bind_rest(fo, env, kwargs, a, params, len(args))

    def bind_rest(self, fo, env, kwargs, a, params, given):
        extra = {}
        star = kwargs.get("**")
        kwnames = [p.arg for p in a.kwonlyargs]
        for k, v in kwargs.items():
            if k == "**":
                continue
            if k in params or k in kwnames:
                if k in env:
                    self.raise_name("TypeError", "multiple values for %s" % k)
                env[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                self.raise_name("TypeError", "unexpected keyword %s" % k)
        nd = len(fo.defaults)
        for j, p in enumerate(params):
            if p not in env:
                d = j - (len(params) - nd)
                dv = fo.defaults[d] if d >= 0 else None
                if star is not None:
                    v = self.star_get(star, p, dv)
                    if v is not None:
                        env[p] = v
                        continue
                if dv is None:
                    self.raise_name("TypeError", "missing argument %s of %s" % (p, fo.name))
                env[p] = dv
        for p in kwnames:
            if p not in env:
                if p in fo.kwdefaults:
                    env[p] = fo.kwdefaults[p]
                elif star is not None:
                    env[p] = self.star_get(star, p, None)
                else:
                    self.raise_name("TypeError", "missing keyword argument %s" % p)
        if a.kwarg:
            segs = []
            if star is not None:
                segs.append(sp(star))
            segs += [en(c(k), v) for k, v in extra.items()]
            env[a.kwarg.arg] = self.alloc(("dict", dict_(tuple(segs))))
        return env

    def star_get(self, star, p, dv):
        d = self.freeze(star)
        cnd = self.known(tm.in_dict(c(p), d))
        if cnd is TRUE:
            return sel(d, c(p))
        if cnd is FALSE:
            return dv
        if dv is None:
            return sel(d, c(p))
        return ite(cnd, sel(d, c(p)), dv)

    def construct(self, cls, args, kwargs):
        k = CLASSES[cls.a[0]]
        hook = self.inst_hooks.get(k.qual)
        if hook is not None:
            r = hook(self, cls, args, kwargs)
            if r is not None:
                return r
        new = self.class_lookup(k.qual, "__new__")
        if new is not None:
            fn = new.a[0] if new.h == "static" else new
            o = self.call_fn(fn, [cls] + list(args), kwargs)
            return self.init_result(o, cls, args, kwargs)
        if any(b.h == "ext" and b.a[0].split(".")[-1] in ("Exception", "ValueError", "TypeError", "RuntimeError", "NotImplementedError") for b in k.mro):
            return mk("exc", k.name, tuple(self.freeze(a) for a in args))
        o = self.alloc(("inst", k.qual, {}))
        return self.init_result(o, cls, args, kwargs)

    def init_result(self, o, cls, args, kwargs):
        if o.h == "ite":
            g, x, y = o.a
            return self.fork(atom(g), lambda: self.init_result(x, cls, args, kwargs), lambda: self.init_result(y, cls, args, kwargs))
        q = self.inst_class(o)
        if q is None or cls not in CLASSES[q].mro:
            return o
        init = self.class_lookup(q, "__init__")
        if init is not None:
            self.call_fn(init, [o] + list(args), kwargs)
        else:
            for b in CLASSES[q].mro:
                if b.h == "ext" and b.a[0] != "builtins.object":
                    r = extern.class_attr(self, b.a[0], "__init__")
                    if r is not None:
                        self.call(self.bind(r, o, q), list(args), kwargs)
                        break
        return o

    def isinstance(self, x, k):
        if x.h == "ite":
            g, a, b = x.a
            return ite(atom(g), self.isinstance(a, k), self.isinstance(b, k))
        if k.h == "seq":
            return or_(*[self.isinstance(x, s.a[0]) for s in k.a[1] if s.h == "el"])
        if k.h == "ref" or k.h == "op":
            k = self.freeze(k)
            if k.h == "seq":
                return self.isinstance(x, k)
        q = self.inst_class(x)
        if q is not None:
            if k.h == "cls":
                return TRUE if k in CLASSES[q].mro else FALSE
            if k.h == "ext":
                if k in CLASSES[q].mro:
                    return TRUE
                return TRUE if any(b.h == "ext" and extern.subclass(b.a[0], k.a[0]) for b in CLASSES[q].mro) else FALSE
        name = k.a[0].split(".")[-1] if k.h in ("ext",) else None
        if x.h == "exc" and k.h == "ext":
            import builtins
            a, b = getattr(builtins, str(x.a[0]), None), getattr(builtins, name, None)
            if not k.a[0].startswith("builtins.") or b is None:
                return FALSE
            if isinstance(a, type) and isinstance(b, type):
                return TRUE if issubclass(a, b) else FALSE
            if b in (Exception, BaseException, object):
                return TRUE
        pykind = self.pykind(x)
        if pykind is not None:
            if k.h == "cls":
                return FALSE
            if k.h == "ext":
                table = {"tuple": {"tuple", "Sequence", "Iterable", "Collection"}, "list": {"list", "Sequence", "Iterable", "Collection"},
                         "dict": {"dict", "Mapping", "Iterable", "Collection"}, "int": {"int", "Integral", "Number", "Real", "integer_"},
                         "num": {"float", "Number", "Real", "floating_"}, "bool": {"bool", "int", "Integral", "Number"}, "str": {"str", "Iterable", "Sequence", "Collection"},
                         "none": {"NoneType"}, "set": {"set", "Set", "Iterable", "Collection"}, "fn": {"Callable", "FunctionType"}, "arr": {"ndarray", "Iterable"},
                         "cls": {"type"}, "slc": {"slice"}, "iter": {"Iterator", "Iterable", "Generator"}}
                if k.a[0].startswith("builtins.") or k.a[0].startswith("collections") or k.a[0].startswith("numbers") or k.a[0].startswith("numpy"):
                    if pykind == "num" and name == "int":
                        return FALSE
                    return TRUE if name in table.get(pykind, ()) else FALSE
                return FALSE
        t = ty(x)
        r = self.proto_isinstance(x, t, k)
        if r is not None:
            return r
        return atom(mk("isinst", self.freeze(x), k))

    def proto_isinstance(self, x, t, k):
        return None

    def pykind(self, x):
        if x.h == "ref":
            kk = self.cell(x)[0]
            return kk if kk in ("list", "dict", "set", "arr", "iter") else None
        if x.h == "seq":
            return x.a[0]
        if x.h in ("dict", "set", "arr"):
            return x.h
        if x.h in ("fn", "lam", "bound", "partial", "bm"):
            return "fn"
        if x.h == "cls":
            return "cls"
        if x.h == "slc":
            return "slc"
        t = ty(x)
        if t in ("int", "num", "bool", "str", "none", "fn"):
            return t
        if isinstance(t, tuple):
            return t[0]
        return None

    def type_of(self, x):
        if x.h == "ite":
            return lift(self.type_of, x) if not x.hasref else ite(atom(x.a[0]), self.type_of(x.a[1]), self.type_of(x.a[2]))
        q = self.inst_class(x)
        if q is not None:
            return CLASSES[q].term
        k = self.pykind(x)
        if k is not None:
            return mk("ext", "builtins." + {"num": "float", "none": "NoneType"}.get(k, k))
        return mk("typeof", self.freeze(x))

    def builtin_len(self, x):
        if x.h == "ref":
            cell = self.cell(x)
            if cell[0] == "inst":
                return self.call_method(x, "__len__", [])
            if cell[0] == "arr":
                return c(cell[1][0])
            if cell[0] == "set":
                return length(cell[1])
            return self.simp(length(cell[1]))
        if x.h == "ite" and x.hasref:
            return ite(atom(x.a[0]), self.builtin_len(x.a[1]), self.builtin_len(x.a[2]))
        if x.h == "arr":
            return c(x.a[0][0])
        if x.h == "inst":
            return self.call_method(x, "__len__", [])
        return length(x)

    # arrays are provided by models
    def arr_op(self, op, a, b):
        return top("array operation")

    def arr_get(self, cell, k):
        return top("array item")

    def arr_set(self, cell, k, v):
        return ("any", top("array item assignment"))

    def arr_attr(self, o, cell, name):
        return None

    def call_bm(self, o, name, args, kwargs):
        return self.builtin_method(o, name, args, kwargs)

    def builtin_method(self, o, name, args, kwargs):
        raise NotImplementedError


PYF = {}


def div_out(y, p):
    """y / p if p divides y exactly once"""
    items = tm._poly_items(y)
    if items is None:
        return mk("nodiv", 0)
    out = []
    for co, mono in items:
        e = dict(mono).get(p, 0)
        if e != 1:
            return mk("nodiv", 0)
        out.append((co, tuple((x, k) for x, k in mono if x is not p)))
    return tm._from_items(out)


def is_empty_guard(d):
    return all(x.h == "seq" and not x.a[1] for x in leaves(d))


def has_yield(node):
    stack = list(node.body)
    while stack:
        x = stack.pop()
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(x))
    return False


def opaque_app(I, f, args, kwargs, fo=None):
    """Uninterpreted call with arguments normalised to the callee's signature."""
    params = None
    if fo is not None:
        a = fo.node.args
        params = ([p.arg for p in a.posonlyargs + a.args], fo.defaults, bool(a.vararg), bool(a.kwarg))
    elif f.h == "ext":
        params = extern.signature(f.a[0])
    pos, kw = list(args), dict(kwargs)
    if params is not None and not any(x.h == "sp" for x in pos) and "**" not in kw:
        names, defaults, va, vk = params
        if len(pos) <= len(names):
            bound = {}
            ok = True
            for p, v in zip(names, pos):
                bound[p] = v
            for k, v in kw.items():
                if k in bound:
                    ok = False
                bound[k] = v
            if ok:
                nd = len(defaults)
                for p, d in zip(names[len(names) - nd:], defaults):
                    if p in bound and d is not None and bound[p] is d:
                        del bound[p]
                # leading required parameters stay positional, the rest by name
                out = []
                for p in names[:len(names) - nd]:
                    if p in bound:
                        out.append(bound.pop(p))
                    else:
                        break
                pos, kw = out, bound
    args2 = tuple(pos)
    kw2 = tuple(sorted(kw.items()))
    ites = [x for x in args2 if x.h == "ite"] + [v for _, v in kw2 if v.h == "ite"]
    return tm.app(f, args2, kw2)


from . import extern, views  # noqa: E402
