"""Specification driven checks: each case of specs/<id>.py names observable
quantities of the implementation and the value the property demands."""
import ast
import os
import time

from . import terms as tm
from . import interp, models, domain, compare as cmp, views
from .terms import mk, c, ty, top, NONE, TRUE, FALSE, sym, seq, seq_of, el, sp, ite, and_, or_, show
from .interp import Dead, AnalysisError

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

BASE_TYPES = {"int": "int", "num": "num", "str": "str", "bool": "bool", "any": None, "fn": "fn"}


def parse_type(node):
    if isinstance(node, ast.Constant) and isinstance(node.value, str):
        node = ast.parse(node.value, mode="eval").body
    if isinstance(node, ast.Name):
        return BASE_TYPES.get(node.id, node.id)
    if isinstance(node, ast.Constant) and node.value is None:
        return None
    if isinstance(node, ast.Subscript):
        h = node.value.id
        if h == "dict":
            return ("dict", parse_type(node.slice.elts[0]), parse_type(node.slice.elts[1]))
        return (h, parse_type(node.slice))
    if isinstance(node, ast.BinOp) and isinstance(node.op, ast.Mult):
        return ("fixed", parse_type(node.left), node.right.value)
    raise ValueError(ast.dump(node))


INSTANCE = []        # when deciding at an instance: the lengths of unknown tuples
# (name, lengths of tuple parameters, of index shapes, of value shapes, of index tuples of point sets)
INSTANCES = ({"param": 2, "index_shape": 1, "value_shape": 1, "indices": 1}, {"param": 2, "index_shape": 2, "value_shape": 0, "indices": 1},
             {"param": 3, "index_shape": 1, "value_shape": 2, "indices": 2})


def _instance_attr(o, name):
    """collaborators of known rank, when an instance is looked at"""
    if not INSTANCE or name not in INSTANCE[-1] or ty(o) not in ("Element", "FiatElement", "PointSet"):
        return None
    t = tm.ATTR_TYPE.get((ty(o), name))
    if t not in (("tuple", "int"), ("tuple", "Index")):
        return None
    s = mk("attr", o, name)
    return seq_of("tuple", [mk("at", s, c(k)) for k in range(INSTANCE[-1][name])])


tm.ATTR_RULES.append(_instance_attr)


def make_param(name, t):
    if INSTANCE and isinstance(t, tuple) and t[0] in ("tuple", "list"):
        t = ("fixed", t, INSTANCE[-1]["param"])
    if isinstance(t, tuple) and t[0] == "fixed":
        kind, et = t[1]
        return seq_of(kind, [sym("%s%d" % (name, k), et) for k in range(t[2])])
    return sym(name, t)


def _raises(I, args, kw):
    if not args:
        return mk("refused", 0)
    return mk("raises", I.freeze(args[0]))


def _undefined(I, args, kw):
    return mk("anyval", 0)


def _opaque(I, args, kw):
    """leave a function of the code unopened; optionally declare what it returns"""
    f = args[0]
    if f.h == "prop":
        f = f.a[0]
    if f.h == "bound":
        f = f.a[0]
    if f.h != "fn":
        I.missing.add("an opaque function")
        return NONE
    I.opaque_funcs.add(interp.FUNCS[f.a[0]].qual)
    if len(args) > 1:
        tm.FN_TYPE[f.a[0]] = parse_type(ast.parse(args[1].a[0], mode="eval").body)
    return NONE


def _expects(I, args, kw):
    """exceptions with which the construction of the objects of a case may be refused"""
    I.expected.update(a.a[0] for a in args)
    return NONE


def _unfold(I, args, kw):
    """one call of an otherwise unopened function"""
    f = args[0]
    if f.h != "fn":
        raise AnalysisError("the function to be opened is gone")
    I.unfolding = interp.FUNCS[f.a[0]].qual
    try:
        return I.call(f, list(args[1:]), kw)
    finally:
        I.unfolding = None


def _suppose(I, args, kw):
    """suppose(f, value, *args): this call of an unopened function gives the value"""
    f = args[0]
    if f.h != "fn":
        raise AnalysisError("the unopened function is gone")
    old, I.supposed = I.supposed, {}
    t = I.freeze(I.call(f, list(args[2:]), kw))
    I.supposed = dict(old)
    I.supposed[t] = args[1]
    return NONE


def _scalings(I, args, kw):
    """scalings(M, weights): for each row of a matrix the degrees of its
    non-zero entries under scaling, by the degrees of the unknowns in them
    (a weight applies to every unknown whose name is it followed by digits)"""
    M = I.freeze(args[0])
    a = domain.known_entries(M)
    if a is None or len(a[1]) != 2:
        return top("matrix with unknown entries")
    weights = {s.a[0].a[0]: s.a[1] for s in I.freeze(args[1]).a[0]}

    def weight(t):
        if t.h == "sym":
            w = weights.get(t.a[0].rstrip("0123456789"))
            return tm.Fraction(w.a[0]) if w is not None else None
        if t.h == "app" and t.a[0].h == "ext" and not t.hastop:
            # functions of quantities without scaling
            return tm.Fraction(0) if all(weight(x) == 0 for x in tm.subterms(t) if x.h == "sym") else None
        return None
    rows = []
    m, n = a[1]
    for i in range(m):
        degs = []
        for j in range(n):
            d = tm.scaling(I.freeze(a[2][i * n + j]), weight)
            if d is None:
                return top("entry (%d, %d) has no known scaling: %s" % (i, j, show(I.freeze(a[2][i * n + j]))[:600]))
            if d == "mixed":
                degs.append(c("mixed"))
            elif d != "zero":
                degs.append(c(d))
        degs = sorted(set(degs), key=lambda t: str(t.a[0]))
        rows.append(seq_of("tuple", degs))
    return seq_of("list", rows)


def _bind(I, args, kw):
    """bind(external callable, replacement): the replacement is called instead"""
    if args[0].h != "ext":
        raise AnalysisError("only external callables can be bound")
    I.bound_ext[args[0].a[0]] = args[1]
    return NONE


def _fresh(I, args, kw):
    """fresh(f): what f gives when nothing has been asked of the loaded program before: the state of modules and classes is the one after
    loading"""
    keep = I.st
    I.st = keep.copy()
    I.st.heap.update(I.loaded[0])
    memo, I.memo = I.memo, {}
    attrs = [(n, k, k.attrs) for n, k in interp.CLASSES.items()]
    for n, k, a in attrs:
        k.attrs = dict(I.loaded[1].get(n, a))
    try:
        r = I.freeze(I.call(args[0], [], {}))
        pc, facts = I.st.pc, I.st.facts
        I.st = keep.copy()
        I.st.pc, I.st.facts = pc, facts
        return r
    finally:
        for n, k, a in attrs:
            k.attrs = a


def _sym(I, args, kw):
    return sym(args[0].a[0], args[1].a[0] if len(args) > 1 else None)


interp.PYF.update({"prelude.map_entries": views.map_entries, "spec.raises": _raises, "spec.undefined": _undefined, "spec.opaque": _opaque, "spec.sym": _sym, "spec.unfold": _unfold, "spec.suppose": _suppose, "spec.bind": _bind, "spec.expects": _expects, "spec.scalings": _scalings, "spec.fresh": _fresh})
EXTRA = {n: mk("pyf", "spec." + n) for n in ("raises", "undefined", "opaque", "sym", "unfold", "suppose", "bind", "expects", "scalings", "fresh")}


def new_interp(repo=None):
    I = interp.Interp(repo)
    models.install(I)
    domain.install(I)
    load_prelude(I)
    I.spec_names = EXTRA
    return I


def load_prelude(I):
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "prelude.src")
    with open(path) as f:
        m = I.load_source("finatcheck_prelude", path, f.read(), {"map_entries": mk("pyf", "prelude.map_entries")})
    I.prelude = m
    tm.INST_HAS_EQ = lambda cls: I.class_lookup(cls.a[0], "__eq__") is not None
    for ext, name in (("gem.node.Memoizer", "Memoizer"), ("numpy.vectorize", "vectorize")):
        I.models[ext] = lambda I, args, kw, name=name: I.call(I.frame_get(m.frame, name), list(args), kw)


class Obligation:
    def __init__(self, case, key):
        self.case, self.key = case, key
        self.verdict = None
        self.detail = []
        self.seconds = 0
        self.functions = {}


def outcome(I, thunk):
    """single guarded term describing the behaviour of a thunk"""
    sink0, st0 = I.sink, I.st
    I.sink = []
    I.st = st0.copy()
    I.st.pc = TRUE
    parts = []
    try:
        try:
            v = I.call(thunk, [], {})
            parts.append((I.st.pc, observe(I, v)))
        except Dead:
            pass
        for e in I.sink:
            if e.kind == "raise":
                I.st = e.st
                v = e.val
                nm = v.a[0] if v is not None and v.h == "exc" else (v.a[0].split(".")[-1] if v is not None and v.h == "ext" else None)
                parts.append((e.pc, mk("raises", c(nm)) if nm else mk("raisesany", 0)))
            else:
                parts.append((e.pc, tm.top("exit %s" % e.kind)))
    finally:
        I.sink, I.st = sink0, st0
    if not parts:
        return tm.top("no outcome")
    r = parts[-1][1]
    for pc, v in reversed(parts[:-1]):
        r = ite(pc, v, r)
    facts = list(st0.facts)
    while facts:
        at, v = facts.pop(0)
        r = cmp.deep(r, at, v)
        facts = [x for x in (tm.literal(cmp.deep(g, at, v), w) for g, w in facts) if x is not None]
    return r


def observe(I, v):
    t = I.freeze(v)
    return norm_out(t)


def norm_out(t):
    """lists, tuples and iterators with the same members are observed alike"""
    def f(x):
        if x.h == "seq" and x.a[0] != "list":
            return mk("seq", "list", x.a[1])
        if x.h == "inst" or x.h == "fn" and False:
            return x
        return x
    return t


def failure(e):
    if isinstance(e, (tm.Blowup, AnalysisError, RecursionError)):
        return "%s: %s" % (type(e).__name__, e)
    tb = e.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    return "the analysis does not cover this code: %s: %s (%s:%d)" % (type(e).__name__, e, os.path.basename(tb.tb_frame.f_code.co_filename), tb.tb_lineno)


def run_case(I, m, node, keys=None):
    """evaluate one case function; returns obligations"""
    fr = m.frame
    f = I.frame_get(fr, node.name)
    params = [make_param(a.arg, parse_type(a.annotation) if a.annotation is not None else None) for a in node.args.args]
    out = []
    tm.LEN_UF.clear()
    here = I.ctx, I.stack, I.loopvars
    I.sink = []
    st0 = I.st
    I.st = st0.copy()
    I.loaded = dict(st0.heap), {n: dict(k.attrs) for n, k in interp.CLASSES.items()}
    I.assumed = []
    I.stated = []
    I.supposed = {}
    I.memo = {}
    I.bound_ext = {}
    I.expected = set()
    if I.module_opaque is None:
        I.module_opaque = set(I.opaque_funcs)
    I.opaque_funcs = set(I.module_opaque)
    tm.reset_budget()
    I.touched = {}
    try:
        try:
            r = I.call(f, params, {})
        except Dead:
            ob = Obligation(node.name, "<setup>")
            ob.verdict = "violated"
            ob.detail = ["the constructor or set-up raises on every path: %s" % ", ".join(show(e.val) for e in I.sink if e.val is not None)]
            return [ob]
        except Exception as e:
            I.ctx, I.stack, I.loopvars = here
            I.unfolding = None
            ob = Obligation(node.name, "<setup>")
            ob.verdict = "undecided"
            ob.detail = [failure(e)]
            return [ob]
        setup = dict(I.touched)
        # paths on which the set-up raises are outside the obligations, and have to be expected
        refused = I.sink
        I.sink = []
        base = I.st.pc
        for g in I.assumed:
            base = and_(base, I.known(g))
        # a path on which the set-up raises knows what the case states, but not what follows from going on
        cmp.FACTS[0] = tuple(I.stated)
        ob = setup_refusals(I, node.name, refused, setup)
        cmp.FACTS[0] = tuple(I.st.facts)
        if ob is not None:
            out.append(ob)
        d = I.cell(r)[1] if r.h == "ref" else r
        for s in d.a[0]:
            key = s.a[0].a[0]
            if keys and key not in keys:
                continue
            pair = s.a[1]
            impl, spec = pair.a[1][0].a[0], pair.a[1][1].a[0]
            ob = Obligation(node.name, key)
            t0 = time.time()
            I.touched = {}
            tm.reset_budget()
            try:
                for _ in range(4):
                    known = len(tm.LEN_UF)
                    a = outcome(I, impl)
                    ob.functions = dict(setup, **I.touched)
                    b = outcome(I, spec)
                    # equalities of lengths found on the way apply throughout
                    if len(tm.LEN_UF) == known:
                        break
                wrong = kind_mismatch(a, b, key)
                a, b = norm_lists(a), norm_lists(b)
                if base is not TRUE:
                    a, b = ite(base, a, mk("anyval", 0)), ite(base, b, mk("anyval", 0))
                r = cmp.compare(a, b, free=I.opaque_funcs)
                if r.verdict == "undecided":
                    for env, r2 in numeric_instances(a, b, I):
                        if r2.diffs:
                            r = r2
                            ob.detail.append("for %s:" % ", ".join("%s = %s" % (show(k, 6), v) for k, v in env.items()))
                            break
                ob.verdict = r.verdict
                ob.impl, ob.spec = a, b
                if wrong and ob.verdict != "violated":
                    ob.verdict = "violated"
                    ob.detail.append(wrong)
                if r.diffs:
                    ob.sig = r.diffs[0][1].dig.hex()[:16]
                for path, x, y in r.diffs[:3]:
                    ob.detail.append("when %s: the code gives %s but the property requires %s" % (cmp.describe(path), show(x, 9), show(y, 9)))
                if not r.diffs:
                    for path, x, y, why in r.unknown[:3]:
                        ob.detail.append("undecided (%s) when %s: %s vs %s" % (why, cmp.describe(path), show(x, 8), show(y, 8)))
            except Exception as e:
                I.ctx, I.stack, I.loopvars = here
                I.unfolding = None
                ob.verdict = "undecided"
                ob.detail = [failure(e)]
            if ob.verdict == "violated" and I.missing:
                ob.verdict = "undecided"
                ob.detail = ["the specification names %s, which the code no longer has" % ", ".join(sorted(I.missing))]
            ob.seconds = time.time() - t0
            out.append(ob)
    finally:
        I.st = st0
        I.sink = []
    return out


def numeric_instances(a, b, I):
    """integer division by an unknown number can be decided for particular numbers"""
    leaves = []
    seen = set()

    def leaf(x):
        if x.h in ("sym", "at", "attr", "app", "len") and not any(y.h in ("bv", "top", "ix") for y in tm.subterms(x)) \
                and (x.h == "len" and x.a[0].h in ("sym", "attr", "app", "at") or tm.ty(x) == "int"):
            leaves.append(x)
            return
        for y in tm._flat(x.a):
            if y not in seen:
                seen.add(y)
                leaf(y)
    for t in (a, b):
        for x in tm.subterms(t):
            if x.h in ("floordiv", "mod"):
                leaf(x)
    leaves = sorted(set(leaves), key=lambda t: t.dig)
    if not leaves or len(leaves) > 8:
        return
    for shift in range(3):
        # a cell is the one entity of its own dimension
        env = {x: tm.ONE if x.h == "len" and any(y.h == "attr" and y.a[1] == "get_dimension" for y in tm.subterms(x))
               else c((2, 3, 5, 4)[(k + shift) % 4]) for k, x in enumerate(leaves)}
        try:
            yield env, cmp.compare(tm.subst(a, env), tm.subst(b, env), free=I.opaque_funcs)
        except tm.Blowup:
            return


def setup_refusals(I, case, exits, functions):
    """the objects a case is about have to exist: their construction may raise only what the case expects"""
    ob = Obligation(case, "<setup>")
    r = c(0)
    for e in exits:
        v = e.val
        nm = v.a[0] if v is not None and v.h == "exc" else (v.a[0].split(".")[-1] if v is not None and v.h == "ext" else None)
        if nm not in I.expected:
            r = ite(e.pc, mk("raises", c(nm)) if nm else mk("raisesany", 0), r)
    if r is c(0):
        return None
    ob.functions = functions
    for g in I.assumed:
        r = ite(I.known(g), r, c(0))
    try:
        res = cmp.compare(r, c(0), free=I.opaque_funcs)
    except tm.Blowup as e:
        ob.verdict, ob.detail = "undecided", [failure(e)]
        return ob
    ob.verdict = res.verdict
    if ob.verdict == "holds":
        return None
    for path, x, y in res.diffs[:3]:
        ob.detail.append("when %s: the construction of the objects the property is about gives %s" % (cmp.describe(path), show(x, 9)))
    for path, x, y, why in res.unknown[:3]:
        ob.detail.append("undecided (%s) when %s: the construction gives %s" % (why, cmp.describe(path), show(x, 8)))
    ob.sig = r.dig.hex()[:16]
    if ob.verdict == "violated" and I.missing:
        ob.verdict = "undecided"
    return ob


def absorb(x):
    """f(0)*prod(f(1 + k) for k < n - 1) is prod(f(k) for k < n), likewise for sums (they only arise for n > 0)"""
    def rest(y, kind):
        if y.h != kind or y.a[1] != 1:
            return None
        m = y.a[0][0]
        n = tm.add(m, tm.ONE)
        if m.h != "poly" or n.h == "poly" and any(not mono for _, mono in n.a[0]):
            return None
        fv, (b,) = tm.open_(y)
        full = tm.subst(b, {fv[0]: tm.sub(fv[0], tm.ONE)})
        return tm.subst(full, {fv[0]: tm.ZERO}), tm.close(kind, (n,), fv, [full])
    items = []
    changed = False
    for co, mono in x.a[0]:
        mono = list(mono)
        for k, (y, e) in enumerate(mono):
            r = rest(y, "prod") if e == 1 else None
            if r is not None and (r[0], 1) in mono:
                mono[k] = (r[1], 1)
                mono.remove((r[0], 1))
                changed = True
                break
        items.append((co, mono))
    for k, (co, mono) in enumerate(items):
        r = rest(mono[0][0], "sum") if len(mono) == 1 and mono[0][1] == 1 else None
        if r is not None:
            j = [i for i, (c2, m2) in enumerate(items) if c2 == co and list(m2) == [(r[0], 1)]]
            if j:
                items[k] = (co, [(r[1], 1)])
                del items[j[0]]
                changed = True
                break
    if not changed:
        return x
    r = tm.ZERO
    for co, mono in items:
        t = c(co)
        for y, e in mono:
            t = tm.mul(t, tm.power(y, c(e)) if e != 1 else y)
        r = tm.add(r, t)
    return r


def kinds(t):
    out = set()
    for x in tm.leaves(t):
        k = x.a[0] if x.h == "seq" else tm.ty(x)[0] if tm.is_seq_ty(tm.ty(x)) else None
        if k in ("tuple", "list", "iter"):
            out.add(k)
    return out


def kind_mismatch(a, b, key):
    """an iterator can be read once only, and shapes and degrees are concatenated with and compared to tuples"""
    p, q = kinds(a), kinds(b)
    if p == {"iter"} and q and "iter" not in q:
        return "the code gives an iterator, which can be read only once, but the property requires a %s" % " or ".join(sorted(q))
    if p == {"list"} and q == {"tuple"} and key.split()[-1].split("_")[-1] in ("shape", "degree", "indices"):
        return "the code gives a list but the property requires a tuple"
    return None


def norm_lists(t):
    def f(x):
        if x.h == "poly" and any(y.h in ("prod", "sum") for _, mono in x.a[0] for y, _ in mono):
            return absorb(x)
        if x.h == "seq":
            if len(x.a[1]) == 1 and x.a[1][0].h == "sp" and tm.is_seq_ty(tm.ty(x.a[1][0].a[0])):
                return x.a[1][0].a[0]
            if x.a[0] != "tuple":
                return mk("seq", "tuple", x.a[1])
        return x
    return tm.map_term(t, f)


def load_spec(I, pid):
    path = os.path.join(HERE, "specs", pid + ".py")
    with open(path) as f:
        src = f.read()
    extra = dict(EXTRA)
    m = I.load_source("spec_" + pid, path, src, extra)
    cases = [n for n in m.tree.body if isinstance(n, ast.FunctionDef) and n.name.startswith("case_")]
    return m, cases


def run_spec(pid, only=None, repo=None, verbose=False):
    I = new_interp(repo)
    m, cases = load_spec(I, pid)
    obs = []
    for node in cases:
        if only and only not in node.name:
            continue
        obs.extend(run_case(I, m, node))
    return I, obs


# ---------------------------------------------------------------- whole properties

class PropertyResult:
    def __init__(self):
        self.obligations = []
        self.explanation = ""
        self.rule = ""
        self.modules = 0


def repo_root():
    return interp.REPO


def instances(pid, cases, obligations):
    """What stays undecided for collaborators of any rank may be refuted for particular ranks. Only a definite
    difference counts: an obligation that merely holds at instances stays undecided."""
    force = os.environ.get("FINATCHECK_INSTANCES") == "all"
    left = {}
    for o in obligations:
        if o.verdict == "undecided" or force:
            left.setdefault(o.case, {})[o.key] = o
    t0 = time.time()
    for inst in INSTANCES:
        if not any(left.values()) or time.time() - t0 > 120 and not force:
            return
        I = new_interp()
        INSTANCE.append(inst)
        try:
            m, _ = load_spec(I, pid)
            for node in cases:
                todo = left.get(node.name)
                if not todo:
                    continue
                everything = "<setup>" in todo
                for o in run_case(I, m, node, None if everything else set(todo)):
                    if o.verdict != "violated" or o.key == "<setup>":
                        continue
                    if everything:
                        old = left[node.name].pop("<setup>", None)
                        if old is not None:
                            obligations.remove(old)
                        obligations.append(o)
                    else:
                        k = [j for j, x in enumerate(obligations) if x is todo.get(o.key)]
                        if not k:
                            continue
                        obligations[k[0]] = o
                        del todo[o.key]
                    o.detail.insert(0, "for tuples of %(param)d members, index shapes of rank %(index_shape)d, value shapes of rank "
                                    "%(value_shape)d, %(indices)d point indices:" % inst)
        finally:
            INSTANCE.pop()


def run_property(pid, tier="quick"):
    from . import rules
    res = PropertyResult()
    exps = []
    I = new_interp()
    path = os.path.join(HERE, "specs", pid + ".py")
    if os.path.exists(path) and pid not in rules.RULES:
        m, cases = load_spec(I, pid)
        doc = ast.get_docstring(m.tree) or ""
        exps.append(doc)
        for node in cases:
            if node.name.endswith("_thorough") and tier != "thorough":
                continue
            res.obligations.extend(run_case(I, m, node))
        instances(pid, cases, res.obligations)
        res.rule = ("each obligation is one observable of the implementation, computed for unknown arguments by abstract "
                    "interpretation of the current source into a normal form, compared with the value the specification demands")
    for f in rules.RULES.get(pid, ()):
        I2 = new_interp()
        obs = f(I2, tier)
        res.obligations.extend(obs)
        exps.append((f.__doc__ or f.__name__).strip())
        I = I2 if not I.modules else I
    res.explanation = " ".join(" ".join(e.split()) for e in exps) or pid
    res.rule = res.rule or "each obligation is one construct of the source to which the stated rule applies"
    res.modules = len(I.modules)
    return res
