"""Rules that are decided by dedicated analyses rather than by a specification case."""
import ast
import hashlib

from .interp import CLASSES, FUNCS
from .terms import c

RULES = {}


def rule(pid):
    def deco(f):
        RULES.setdefault(pid, []).append(f)
        return f
    return deco


def obligation(case, key, verdict, detail, where=None):
    from .check import Obligation
    o = Obligation(case, key)
    o.verdict = verdict
    o.detail = [detail] if isinstance(detail, str) else list(detail)
    o.sig = hashlib.md5(str(detail).encode()).hexdigest()[:8]
    if where is not None:
        o.functions = dict([where])
    return o


# ---------------------------------------------------------------- C23: interfaces

# what a value in a class body is, seen from an instance
def kind_of(v):
    if v.h == "prop":
        return "attribute"
    if v.h == "fn":
        return "method"
    if v.h == "static":
        return "method" if v.a[0].h == "fn" else None
    if v.h == "clsm":
        return "method"
    if v.h in ("c", "seq", "dict"):
        return "attribute"
    return None


def func_of(v):
    if v.h in ("prop", "static", "clsm"):
        v = v.a[0]
    if v.h == "fn":
        return FUNCS.get(v.a[0])
    return None


def parameters(v):
    """(names, defaults by name, takes further positionals, takes further keywords, keyword-only names)"""
    fo = func_of(v)
    if fo is None or isinstance(fo.node, ast.Lambda):
        return None
    a = fo.node.args
    names = [p.arg for p in a.posonlyargs + a.args]
    if v.h != "static":
        names = names[1:]
    defaults = dict(zip(names[len(names) - len(fo.defaults):], fo.defaults)) if fo.defaults else {}
    kwonly = [p.arg for p in a.kwonlyargs]
    for k, d in fo.kwdefaults.items():
        defaults[k] = d
    return names, defaults, a.vararg is not None, a.kwarg is not None, kwonly


def signature_faults(base, own):
    """how calls that the base signature allows fail, or mean something else, with the other"""
    names, defaults, star, kw, kwonly = base
    onames, odefaults, ostar, okw, okwonly = own
    faults = []
    for i, n in enumerate(names):
        if i < len(onames):
            if onames[i] != n:
                faults.append("parameter %d is called %s instead of %s" % (i + 1, onames[i], n))
                continue
        elif not (ostar and (okw or n in okwonly)):
            faults.append("has no parameter %s" % n)
            continue
        elif n not in okwonly:
            continue
        if n in defaults:
            if n not in odefaults:
                faults.append("parameter %s has no default" % n)
            elif defaults[n].h == "c" and odefaults[n].h == "c" and (type(defaults[n].a[0]) is not type(odefaults[n].a[0]) or defaults[n] is not odefaults[n]):
                faults.append("parameter %s defaults to %r instead of %r" % (n, odefaults[n].a[0], defaults[n].a[0]))
    for n in onames[len(names):]:
        if n not in odefaults and n not in kwonly:
            faults.append("requires another parameter %s" % n)
    for n in okwonly:
        if n not in odefaults and n not in kwonly and n not in names:
            faults.append("requires another keyword %s" % n)
    for n in kwonly:
        if n not in onames and n not in okwonly and not okw:
            faults.append("has no keyword %s" % n)
    return faults


def exported(I, *modules):
    res = {}
    for name in modules:
        m = I.load(name)
        for n, v in I.st.heap[m.frame.a[0]][1].items():
            if v.h == "cls" and not n.startswith("_"):
                res.setdefault(v.a[0], "%s.%s" % (name, n))
    return res


def line_of(v, k):
    fo = func_of(v)
    return (k.qual, (k.mod.path, fo.node.lineno if fo is not None else k.node.lineno))


@rule("C23")
def interfaces(I, tier):
    """For every class that is exported, and every member of every class it derives from, the member that an instance finds is of the
    same kind (readable attribute or method) as the one declared there, accepts every call the declared one accepts (names, order and
    defaults of parameters), and nothing declared abstract is left without an implementation."""
    obs = []
    names = exported(I, "finat", "finat.ufl", "finat.mixed", "finat.point_set", "finat.quadrature", "finat.physically_mapped")
    derived = {b.a[0] for q in CLASSES for b in CLASSES[q].mro[1:] if b.h == "cls"}
    public = set(exported(I, "finat", "finat.ufl"))
    done = set()
    for q in sorted(names):
        k = CLASSES[q]
        if k.mod.kind != "repo":
            continue
        concrete = q in public or q not in derived
        seen = set()
        for b in k.mro[1:]:
            if b.h != "cls":
                continue
            bk = CLASSES[b.a[0]]
            for n, declared in sorted(bk.attrs.items()):
                if n.startswith("__"):
                    continue
                owner, found = None, None
                for x in k.mro:
                    if x.h == "cls" and n in CLASSES[x.a[0]].attrs:
                        owner, found = CLASSES[x.a[0]], CLASSES[x.a[0]].attrs[n]
                        break
                key = "%s.%s as in %s" % (owner.name, n, bk.name)
                where = line_of(found, owner)
                if n not in seen and concrete:
                    seen.add(n)
                    fo = func_of(found)
                    if fo is not None and fo.abstract:
                        if not is_interface(q):
                            obs.append(obligation("abstract", "%s.%s" % (k.name, n), "violated", "%s declares %s abstract and %s has no implementation of it" % (owner.name, n, k.name), where))
                    elif fo is not None:
                        obs.append(obligation("abstract", "%s.%s" % (k.name, n), "holds", "", where))
                if n.startswith("_") or found is declared:
                    continue
                if (owner, n, bk) in done:
                    continue
                done.add((owner, n, bk))
                want, have = kind_of(declared), kind_of(found)
                if want is None or have is None:
                    obs.append(obligation("kind", key, "undecided", "%s is neither a plain method nor an attribute" % n, where))
                    continue
                if want != have:
                    obs.append(obligation("kind", key, "violated", "%s declares the %s %s; in %s it is %s" % (bk.name, want, n, owner.name, "an attribute" if have == "attribute" else "a method"), where))
                    continue
                faults = []
                if want == "method" and is_interface(b.a[0]):
                    p, o = parameters(declared), parameters(found)
                    if p is None or o is None:
                        obs.append(obligation("signature", key, "undecided", "the parameters of %s are unknown" % n, where))
                        continue
                    faults = signature_faults(p, o)
                obs.append(obligation("signature", key, "violated" if faults else "holds", "%s.%s: %s" % (owner.name, n, "; ".join(faults)), where))
    return obs


def is_interface(q):
    """declares members of its own that are abstract"""
    return any(func_of(v) is not None and func_of(v).abstract for v in CLASSES[q].attrs.values())


# ---------------------------------------------------------------- C22: citations

def with_citations(I, pid, stand_in, prefix):
    from . import check
    I.aliases["firedrake_citations"] = stand_in
    m, cases = check.load_spec(I, pid)
    obs = []
    for node in cases:
        if stand_in is None and node.name == "case_declared":
            continue
        for o in check.run_case(I, m, node):
            o.key = prefix + o.key
            obs.append(o)
    return obs


@rule("C22")
def citations_present(I, tier):
    """With citation support present, modelled by a table of declared entries filled by executing the module level of the package
    abstractly, constructing an element of any class never registers a key that is not in the table."""
    return with_citations(I, "C22", "citations", "with support, ")


@rule("C22")
def citations_absent(I, tier):
    """With citation support absent (its import raises ImportError) no class touches it while constructing an element."""
    return with_citations(I, "C22", None, "without support, ")
