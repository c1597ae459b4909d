"""Development aid: systematic small changes of every function, run through the checks that analyse the function
(and, for the ones no check reports, through the tests), to find behaviour that no property constrains.
python3 dev/mutate.py list|run FILE-SUBSTRING [out.json]"""
import ast
import glob
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


def coverage():
    cov = {}
    for f in glob.glob(V + "/evidence/*.json"):
        pid = os.path.basename(f)[:-5]

        def find(o):
            if isinstance(o, dict):
                if "obligations" in o and isinstance(o.get("functions"), list):
                    for x in o["functions"]:
                        if " (" in x:
                            cov.setdefault(x.rsplit(" (", 1)[1].rstrip(")"), set()).add(pid)
                for v in o.values():
                    find(v)
            elif isinstance(o, list):
                for v in o:
                    find(v)
        find(json.load(open(f)))
    return cov


CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.Div: "*", ast.FloorDiv: "*", ast.Mod: "//", ast.Pow: "*", ast.MatMult: "*"}
NAMES = {"min": "max", "max": "min", "all": "any", "any": "all", "sorted": "list", "reversed": "list", "tuple": "list", "sum": "max", "Product": "Sum", "Sum": "Product", "zip": "product"}


class Src:
    def __init__(self, text):
        self.text = text
        self.starts = [0]
        for l in text.splitlines(True):
            self.starts.append(self.starts[-1] + len(l.encode()))
        self.b = text.encode()

    def span(self, n):
        return self.starts[n.lineno - 1] + n.col_offset, self.starts[n.end_lineno - 1] + n.end_col_offset

    def get(self, n):
        a, b = self.span(n)
        return self.b[a:b].decode()

    def put(self, n, new):
        a, b = self.span(n)
        return (self.b[:a] + new.encode() + self.b[b:]).decode()


def mutants_of(S, fn):
    """(line, description, new text)"""
    out = []

    def add(n, new, what):
        out.append((n.lineno, what, S.put(n, new)))
    skip = set()
    body = fn.body
    if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
        skip.add(id(body[0]))
    for n in ast.walk(fn):
        if isinstance(n, ast.Raise) or isinstance(n, ast.Assert):
            for x in ast.walk(n):
                skip.add(id(x))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip.add(id(n)); skip.add(id(n.value))
        if isinstance(n, (ast.JoinedStr,)):
            for x in ast.walk(n):
                skip.add(id(x))
        if isinstance(n, ast.Call) and ast.unparse(n.func) in ("Citations", "Citations().register", "warnings.warn", "warn", "print"):
            for x in ast.walk(n):
                skip.add(id(x))
        if isinstance(n, ast.FunctionDef) and n is not fn:
            pass
    for dec in fn.decorator_list:
        for x in ast.walk(dec):
            skip.add(id(x))
    for a in fn.args.defaults:
        pass
    for n in ast.walk(fn):
        if id(n) in skip or n is fn:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = S.get(n.left), S.get(n.comparators[0])
            add(n, "(%s) %s (%s)" % (l, CMP[type(n.ops[0])], r), "compare")
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            add(n, op.join("(%s)" % S.get(v) for v in n.values), "boolop")
            for k in range(len(n.values)):
                rest = [S.get(v) for j, v in enumerate(n.values) if j != k]
                add(n, (" and " if isinstance(n.op, ast.And) else " or ").join("(%s)" % x for x in rest), "drop operand %d" % k)
        elif isinstance(n, ast.UnaryOp):
            add(n, "(%s)" % S.get(n.operand), "drop unary")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            l, r = S.get(n.left), S.get(n.right)
            add(n, "((%s) %s (%s))" % (l, BIN[type(n.op)], r), "binop")
            if isinstance(n.op, (ast.Sub, ast.Div, ast.FloorDiv, ast.MatMult)) or isinstance(n.op, ast.Add) and isinstance(n.left, (ast.Tuple, ast.Name, ast.Call)):
                add(n, "((%s) %s (%s))" % (r, {ast.Sub: "-", ast.Div: "/", ast.FloorDiv: "//", ast.MatMult: "@", ast.Add: "+"}[type(n.op)], l), "swap operands")
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                add(n, str(not n.value), "bool")
            elif isinstance(n.value, (int, float)):
                add(n, "(%s + 1)" % S.get(n), "const+1")
                if n.value:
                    add(n, "(%s - 1)" % S.get(n), "const-1")
            elif isinstance(n.value, str) and n.value and S.get(n)[0] in "'\"":
                add(n, repr(n.value + "_"), "string")
            elif n.value is None:
                pass
        elif isinstance(n, ast.If) and not isinstance(n.test, ast.Constant):
            add(n.test, "True", "if True")
            add(n.test, "False", "if False")
        elif isinstance(n, ast.IfExp):
            add(n, "(%s)" % S.get(n.body), "ifexp body")
            add(n, "(%s)" % S.get(n.orelse), "ifexp else")
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Continue, ast.Break)):
            add(n, "pass", "delete statement")
            if isinstance(n, ast.AugAssign):
                add(n, "%s = %s" % (S.get(n.target), S.get(n.value)), "plain assign")
        elif isinstance(n, ast.Call):
            args = [S.get(a) for a in n.args]
            if len(args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]) and not n.keywords:
                a, b = S.span(n.args[0])[0], S.span(n.args[1])[1]
                out.append((n.lineno, "swap args", (S.b[:a] + (args[1] + ", " + args[0]).encode() + S.b[b:]).decode()))
            f = S.get(n.func)
            rest = args + [("%s=%s" % (k.arg, S.get(k.value)) if k.arg else "**" + S.get(k.value)) for k in n.keywords]
            for k in range(len(n.keywords)):
                r2 = rest[:len(args) + k] + rest[len(args) + k + 1:]
                add(n, "%s(%s)" % (f, ", ".join(r2)), "drop keyword %s" % n.keywords[k].arg)
            if len(n.args) > 1:
                add(n, "%s(%s)" % (f, ", ".join(rest[:len(args) - 1] + rest[len(args):])), "drop last argument")
            last = f.split(".")[-1]
            if last in NAMES:
                add(n.func, f[:len(f) - len(last)] + NAMES[last], "call %s" % NAMES[last])
            if isinstance(n.func, ast.Name) and len(args) == 1 and n.func.id in ("sorted", "tuple", "list", "reversed", "abs", "set", "deepcopy", "copy", "dict"):
                add(n, "(%s)" % args[0], "drop call")
        elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            add(n, "return None", "return None")
        elif isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)):
            for g in n.generators:
                for t in g.ifs:
                    add(t, "True", "drop filter")
        elif isinstance(n, ast.Tuple) and isinstance(getattr(n, "ctx", None), ast.Load) and len(n.elts) == 2 and not any(isinstance(e, ast.Starred) for e in n.elts):
            a, b = S.span(n.elts[0])[0], S.span(n.elts[1])[1]
            out.append((n.lineno, "swap tuple", (S.b[:a] + (S.get(n.elts[1]) + ", " + S.get(n.elts[0])).encode() + S.b[b:]).decode()))
        elif isinstance(n, ast.Slice):
            if n.lower is not None and n.upper is not None:
                add(n, "%s:" % S.get(n.lower) + (":" + S.get(n.step) if n.step else ""), "drop upper")
                add(n, ":%s" % S.get(n.upper), "drop lower")
    res, seen = [], set()
    for l, w, t in out:
        if t in seen or t == S.text:
            continue
        seen.add(t)
        try:
            new = ast.parse(t)
        except SyntaxError:
            continue
        if ast.dump(new) == ast.dump(ast.parse(S.text)):
            continue
        res.append((l, w, t))
    return res


def all_mutants(sub):
    cov = coverage()
    out = []
    for p in sorted(glob.glob(REPO + "/finat/**/*.py", recursive=True)):
        rel = os.path.relpath(p, REPO)
        if not re.search(sub, rel):
            continue
        S = Src(open(p).read())
        tree = ast.parse(S.text)

        def walk(n, q):
            for ch in ast.iter_child_nodes(n):
                if isinstance(ch, ast.FunctionDef):
                    pids = cov.get("%s:%d" % (rel, ch.lineno), set())
                    for l, w, t in mutants_of(S, ch):
                        out.append((rel, q + ch.name, l, w, t, sorted(pids)))
                elif isinstance(ch, ast.ClassDef):
                    walk(ch, q + ch.name + ".")
                else:
                    walk(ch, q)
        walk(tree, "")
    return out


def run(m, tests=True):
    rel, q, l, w, t, pids = m
    d = tempfile.mkdtemp(prefix="fc_m_")
    try:
        shutil.copytree(REPO + "/finat", d + "/finat", ignore=shutil.ignore_patterns("__pycache__"))
        open(os.path.join(d, rel), "w").write(t)
        und = []
        for pid in pids:
            e = dict(os.environ, FINATCHECK_REPO=d, FINATCHECK_EVID=d + "/evid")
            try:
                r = subprocess.run([sys.executable, "-m", "finatcheck", pid], cwd=V, capture_output=True, text=True, env=e, timeout=300)
            except subprocess.TimeoutExpired:
                und.append(pid + ":timeout")
                continue
            if r.returncode == 1:
                return "killed " + pid
            if r.returncode:
                und.append(pid + ":broken")
            if "UNDECIDED" in r.stdout:
                und.append(pid + ":undecided")
        if not tests:
            return "alive " + " ".join(und)
        shutil.copytree(REPO + "/test", d + "/test", ignore=shutil.ignore_patterns("__pycache__"))
        e = dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1")
        try:
            r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "test"], cwd=d, capture_output=True, text=True, env=e, timeout=400)
        except subprocess.TimeoutExpired:
            return "tests time out " + " ".join(und)
        return ("SURVIVES " if r.returncode == 0 else "tests fail ") + " ".join(und)
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    ms = all_mutants(sys.argv[2])
    if sys.argv[1] == "list":
        from collections import Counter
        print(len(ms), Counter(m[0] for m in ms), Counter(bool(m[5]) for m in ms))
        sys.exit()
    out = open(sys.argv[3], "a")
    done = set()
    for line in open(sys.argv[3]):
        j = json.loads(line)
        done.add((j["f"], j["q"], j["l"], j["w"], j["t"]))

    def text(m):
        return m[4].splitlines()[m[2] - 1].strip()
    ms = [m for m in ms if (m[0], m[1], m[2], m[3], text(m)) not in done]
    random.Random(1).shuffle(ms)
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "7"))) as ex:
        for m, r in zip(ms, ex.map(run, ms)):
            out.write(json.dumps({"f": m[0], "q": m[1], "l": m[2], "w": m[3], "t": text(m), "r": r}) + "\n")
            out.flush()
