"""Static facts about the installed third-party packages (gem, FIAT, ufl).

Their sources are parsed, never imported: re-exports are followed so that one
object has one name, integer constants are read, constructor signatures are
used to normalise the arguments of uninterpreted calls, and class hierarchies
are read for isinstance tests.
"""
import ast
import os

from .terms import mk, c, NONE

ROOTS = ("gem", "FIAT", "ufl", "sympy")
_mods = {}
_resolved = {}
_sigs = {}


def site():
    from .interp import SITE
    return SITE


def _path(mod):
    s = site()
    if s is None:
        return None
    base = os.path.join(s, *mod.split("."))
    if os.path.isfile(base + ".py"):
        return base + ".py"
    p = os.path.join(base, "__init__.py")
    return p if os.path.isfile(p) else None


class ModInfo:
    def __init__(self, name, path):
        self.name = name
        self.path = path
        self.defs = {}
        self.stars = []
        with open(path) as f:
            tree = ast.parse(f.read())
        self.scan(tree.body)

    def scan(self, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                self.defs[s.name] = s
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.defs[t.id] = s.value
                    elif isinstance(t, ast.Tuple) and isinstance(s.value, ast.Tuple) and len(t.elts) == len(s.value.elts):
                        for x, y in zip(t.elts, s.value.elts):
                            if isinstance(x, ast.Name):
                                self.defs[x.id] = y
            elif isinstance(s, ast.ImportFrom):
                m = s.module or ""
                if s.level:
                    pkg = self.name.split(".")
                    if not self.path.endswith("__init__.py"):
                        pkg = pkg[:-1]
                    if s.level > 1:
                        pkg = pkg[:-(s.level - 1)]
                    m = ".".join(pkg + ([m] if m else []))
                for al in s.names:
                    if al.name == "*":
                        self.stars.append(m)
                    else:
                        self.defs[al.asname or al.name] = ("from", m, al.name)
            elif isinstance(s, ast.Import):
                for al in s.names:
                    if al.asname:
                        self.defs[al.asname] = ("mod", al.name)
                    else:
                        self.defs[al.name.split(".")[0]] = ("mod", al.name.split(".")[0])
            elif isinstance(s, ast.Try):
                self.scan(s.body)
            elif isinstance(s, ast.If):
                self.scan(s.body)


def modinfo(mod):
    if mod in _mods:
        return _mods[mod]
    p = _path(mod)
    info = None
    if p is not None and mod.split(".")[0] in ROOTS:
        try:
            info = ModInfo(mod, p)
        except SyntaxError:
            info = None
    _mods[mod] = info
    return info


def find(mod, name, seen=()):
    """(defining module, name, node) of `name` looked up in module `mod`"""
    if (mod, name) in seen:
        return None
    info = modinfo(mod)
    if info is None:
        return None
    d = info.defs.get(name)
    if d is not None:
        if isinstance(d, tuple):
            if d[0] == "from":
                r = find(d[1], d[2], seen + ((mod, name),))
                if r is not None:
                    return r
                if modinfo(d[1] + "." + d[2]) is not None:
                    return (d[1] + "." + d[2], None, None)
                return (d[1], d[2], None)
            return (d[1], None, None)
        if isinstance(d, ast.Name):
            r = find(mod, d.id, seen + ((mod, name),))
            if r is not None:
                return r
        return (mod, name, d)
    for s in info.stars:
        r = find(s, name, seen + ((mod, name),))
        if r is not None:
            return r
    if modinfo(mod + "." + name) is not None:
        return (mod + "." + name, None, None)
    return None


SHORT = (("gem.gem.", "gem."),)


def resolve(name):
    r = _resolved.get(name)
    if r is None:
        r = _resolve(name)
        _resolved[name] = r
    return r


def _resolve(name):
    root = name.split(".")[0]
    if root == "np":
        name = "numpy" + name[2:]
    if name == "numpy.newaxis":
        return NONE
    if root not in ROOTS:
        return mk("ext", CANON.get(name, name))
    mod, _, last = name.rpartition(".")
    if not mod:
        return mk("ext", name)
    if modinfo(mod) is None:
        return mk("ext", name)
    f = find(mod, last)
    if f is None:
        return mk("ext", name)
    m, n, node = f
    if n is None:
        return mk("ext", m)
    if isinstance(node, ast.Constant) and isinstance(node.value, (int, str)) and not isinstance(node.value, bool):
        return c(node.value)
    full = m + "." + n
    if m == "gem.gem":
        full = "gem." + n
    if m.split(".")[0] not in ROOTS:
        full = CANON.get(full, full)
    return mk("ext", full)


CANON = {"np": "numpy", "functools.cached_property": "functools.cached_property"}


def defnode(name):
    if name.startswith("gem.") and name.count(".") == 1:
        r = find("gem.gem", name[4:])
        if r is not None and r[2] is not None:
            return r
    mod, _, last = name.rpartition(".")
    if not mod or modinfo(mod) is None:
        return None
    r = find(mod, last)
    return r if r is not None and r[2] is not None else None


def mro(name, depth=0):
    """names of a class and its (statically visible) ancestors"""
    d = defnode(name)
    out = [name]
    if d is None or not isinstance(d[2], ast.ClassDef) or depth > 10:
        return out
    for b in d[2].bases:
        bn = None
        if isinstance(b, ast.Name):
            f = find(d[0], b.id)
            if f is not None and f[1] is not None:
                bn = resolve(f[0] + "." + f[1]).a[0]
            else:
                bn = "builtins." + b.id
        elif isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name):
            f = find(d[0], b.value.id)
            if f is not None and f[1] is None:
                bn = f[0] + "." + b.attr
        if bn:
            for x in mro(bn, depth + 1):
                if x not in out:
                    out.append(x)
    return out


def subclass(a, b):
    if a == b:
        return True
    if not isinstance(a, str) or not isinstance(b, str):
        return None
    da, db = defnode(a), defnode(b)
    if b in mro(a):
        return True
    if a in mro(b):
        return None
    if da is not None and db is not None:
        return False
    return None


_members = {}


def has_member(name, attr):
    """whether instances of an external class may have the attribute"""
    got = _members.get(name)
    if got is None:
        got = set()
        for q in mro(name):
            d = defnode(q)
            if d is None:
                if q != "builtins.object":
                    got.add("*")
                continue
            for n in ast.walk(d[2]):
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    got.add(n.name)
                elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    got.add(n.attr)
                elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    got.add(n.id)
                elif isinstance(n, ast.Constant) and isinstance(n.value, str):
                    got.add(n.value)    # slots
        _members[name] = got
    return attr in got or "*" in got or "__getattr__" in got


def known_class(name):
    return defnode(name) is not None


def _default(node):
    try:
        v = ast.literal_eval(node)
    except Exception:
        return None
    if v is None or isinstance(v, (int, str, float, bool)):
        return c(v)
    if v == ():
        return mk("seq", "tuple", ())
    return None


def signature(name):
    if name in _sigs:
        return _sigs[name]
    r = None
    d = defnode(name)
    if d is not None:
        node = d[2]
        fn = None
        skip = 0
        if isinstance(node, ast.FunctionDef):
            fn = node
        elif isinstance(node, ast.ClassDef):
            for cn in mro(name):
                dd = defnode(cn)
                if dd is None or not isinstance(dd[2], ast.ClassDef):
                    continue
                cands = [s for s in dd[2].body if isinstance(s, ast.FunctionDef) and s.name in ("__init__", "__new__")]
                if cands:
                    fn = cands[-1] if cands[-1].name == "__init__" else cands[0]
                    for s in cands:
                        if s.name == "__init__":
                            fn = s
                    skip = 1
                    break
        if fn is not None and not fn.args.vararg:
            a = fn.args
            names = [p.arg for p in a.posonlyargs + a.args][skip:]
            r = (names, [_default(x) for x in a.defaults], False, bool(a.kwarg))
            if len(r[1]) > len(names):
                r = None
    _sigs[name] = r
    return r


SOURCE_MODULES = {"ufl.finiteelement"}


def class_attr(I, name, attr):
    """attribute of an external class whose source takes part in the analysis"""
    return None
