"""Every node kind of both symbolic back ends: the handler reached by the
node's class builds the expression node of the same operation over the
translated operands, in their order; other kinds are refused."""
import gem
import numpy
import sympy
import symengine

from finat.sympy2gem import sympy2gem


class Mapper:
    """translates operands, which stand for themselves here"""

    def __init__(self, bindings=None):
        self.bindings = bindings or {}

    def __call__(self, node):
        if isinstance(node, Operand):
            return node.value
        return sympy2gem(node, self)


class Bindings:
    """gives every symbol its own value"""

    def __init__(self, *pairs):
        self.pairs = pairs

    def __getitem__(self, symbol):
        for s, v in self.pairs:
            if s is symbol:
                return v
        raise KeyError(symbol)

    def get(self, symbol, default=None):
        for s, v in self.pairs:
            if s is symbol:
                return v
        return default


class Operand:
    def __init__(self, value):
        self.value = value


class Add(sympy.Add):
    def __init__(self, *args):
        self.args = args


class SAdd(symengine.Add):
    def __init__(self, *args):
        self.args = args


class Mul(sympy.Mul):
    def __init__(self, *args):
        self.args = args


class SMul(symengine.Mul):
    def __init__(self, *args):
        self.args = args


class Pow(sympy.Pow):
    def __init__(self, *args):
        self.args = args


class SPow(symengine.Pow):
    def __init__(self, *args):
        self.args = args


class Abs(sympy.Abs):
    def __init__(self, *args):
        self.args = args


class SAbs(symengine.Abs):
    def __init__(self, *args):
        self.args = args


class Not(sympy.Not):
    def __init__(self, *args):
        self.args = args


class SNot(symengine.Not):
    def __init__(self, *args):
        self.args = args


class Or(sympy.Or):
    def __init__(self, *args):
        self.args = args


class SOr(symengine.Or):
    def __init__(self, *args):
        self.args = args


class And(sympy.And):
    def __init__(self, *args):
        self.args = args


class SAnd(symengine.And):
    def __init__(self, *args):
        self.args = args


class Eq(sympy.Eq):
    def __init__(self, *args):
        self.args = args


class SEq(symengine.Eq):
    def __init__(self, *args):
        self.args = args


class Gt(sympy.Gt):
    def __init__(self, *args):
        self.args = args


class Ge(sympy.Ge):
    def __init__(self, *args):
        self.args = args


class Lt(sympy.Lt):
    def __init__(self, *args):
        self.args = args


class SLt(symengine.Lt):
    def __init__(self, *args):
        self.args = args


class Le(sympy.Le):
    def __init__(self, *args):
        self.args = args


class SLe(symengine.Le):
    def __init__(self, *args):
        self.args = args


class ITE(sympy.ITE):
    def __init__(self, *args):
        self.args = args


class Piecewise(sympy.Piecewise):
    def __init__(self, *args):
        self.args = args


class SPiecewise(symengine.Piecewise):
    def __init__(self, *args):
        self.args = args


class Rational(sympy.Rational):
    def __init__(self, p, q):
        self.p, self.q = p, q

    def as_numer_denom(self):
        return self.p, self.q


class SRational(symengine.Rational):
    def __init__(self, p, q):
        self.p, self.q = p, q

    def as_numer_denom(self):
        return self.p, self.q


class Integer(sympy.Integer):
    def __init__(self, n):
        self.n = n

    def __int__(self):
        return self.n


class SInteger(symengine.Integer):
    def __init__(self, n):
        self.n = n

    def __int__(self):
        return self.n


class Float(sympy.Float):
    def __init__(self, x):
        self.x = x

    def __float__(self):
        return self.x


class SFloat(symengine.Float):
    def __init__(self, x):
        self.x = x

    def __float__(self):
        return self.x


class Symbol(sympy.Symbol):
    def __init__(self):
        pass


class SSymbol(symengine.Symbol):
    def __init__(self):
        pass


class OtherFunction(sympy.Function):
    def __init__(self, *args):
        self.args = args


class SOtherFunction(symengine.Expr):
    def __init__(self, *args):
        self.args = args


class Foreign:
    def __init__(self, *args):
        self.args = args


class Yes(sympy.logic.boolalg.BooleanTrue):
    def __init__(self):
        pass

    def __bool__(self):
        return True


class No(sympy.logic.boolalg.BooleanFalse):
    def __init__(self):
        pass

    def __bool__(self):
        return False


def go(node):
    return sympy2gem(node, Mapper())


def case_arithmetic(a: "gem", b: "gem", d: "gem"):
    x, y, z = Operand(a), Operand(b), Operand(d)
    out = {}
    for n, kind in [("sympy", Add), ("symengine", SAdd)]:
        out["sum, " + n] = (lambda kind=kind: go(kind(x, y, z)), lambda: gem.Sum(gem.Sum(a, b), d))
    for n, kind in [("sympy", Mul), ("symengine", SMul)]:
        out["product, " + n] = (lambda kind=kind: go(kind(x, y, z)), lambda: gem.Product(gem.Product(a, b), d))
    for n, kind in [("sympy", Pow), ("symengine", SPow)]:
        out["power, " + n] = (lambda kind=kind: go(kind(x, y)), lambda: gem.Power(a, b))
    for n, kind in [("sympy", Rational), ("symengine", SRational)]:
        out["quotient, " + n] = (lambda kind=kind: go(kind(x, y)), lambda: gem.Division(a, b))
    for n, kind in [("sympy", Abs), ("symengine", SAbs)]:
        out["absolute value, " + n] = (lambda kind=kind: go(kind(x)), lambda: gem.MathFunction("abs", a))
    return out


def case_logic(a: "gem", b: "gem", d: "gem"):
    x, y, z = Operand(a), Operand(b), Operand(d)
    out = {}
    for n, kind in [("sympy", Not), ("symengine", SNot)]:
        out["not, " + n] = (lambda kind=kind: go(kind(x)), lambda: gem.LogicalNot(a))
    for n, kind in [("sympy", Or), ("symengine", SOr)]:
        out["or, " + n] = (lambda kind=kind: go(kind(x, y, z)), lambda: gem.LogicalOr(gem.LogicalOr(a, b), d))
    for n, kind in [("sympy", And), ("symengine", SAnd)]:
        out["and, " + n] = (lambda kind=kind: go(kind(x, y, z)), lambda: gem.LogicalAnd(gem.LogicalAnd(a, b), d))
    return out


def case_comparison(a: "gem", b: "gem"):
    x, y = Operand(a), Operand(b)
    out = {}
    for n, kind, op in [("==, sympy", Eq, "=="), ("==, symengine", SEq, "=="), (">, sympy", Gt, ">"), (">=, sympy", Ge, ">="),
                        ("<, sympy", Lt, "<"), ("<, symengine", SLt, "<"), ("<=, sympy", Le, "<="), ("<=, symengine", SLe, "<=")]:
        out[n] = (lambda kind=kind: go(kind(x, y)), lambda op=op: gem.Comparison(op, a, b))
    return out


def case_numbers(n: "int", q: "int", r: "num", f: "bool"):
    return {
        "integer, sympy": (lambda: go(Integer(n)), lambda: gem.Literal(n)),
        "integer, symengine": (lambda: go(SInteger(n)), lambda: gem.Literal(n)),
        "integer, plain": (lambda: go(n), lambda: gem.Literal(n)),
        "float, sympy": (lambda: go(Float(r)), lambda: gem.Literal(r)),
        "float, symengine": (lambda: go(SFloat(r)), lambda: gem.Literal(r)),
        "float, plain": (lambda: go(2.5), lambda: gem.Literal(2.5)),
        "quotient of integers": (lambda: go(Rational(Integer(n), Integer(q))), lambda: gem.Division(gem.Literal(n), gem.Literal(q))),
        "true": (lambda: go(Yes()), lambda: gem.Literal(True)),
        "false": (lambda: go(No()), lambda: gem.Literal(False)),
        "plain truth value": (lambda: go(f), lambda: gem.Literal(f)),
    }


def case_symbols(a: "gem", b: "gem"):
    x, y = Symbol(), Symbol()
    u, v = SSymbol(), SSymbol()
    m = lambda: Mapper(Bindings((x, a), (y, b), (u, b), (v, a)))
    return {
        "sympy": (lambda: [sympy2gem(s, m()) for s in (x, y)], lambda: [a, b]),
        "symengine": (lambda: [sympy2gem(s, m()) for s in (u, v)], lambda: [b, a]),
        "unbound": (lambda: sympy2gem(Symbol(), m()), lambda: raises("KeyError")),
    }


def case_conditional(a: "gem", b: "gem", d: "gem", p: "gem", q: "gem", r: "gem"):
    x, y, z = Operand(a), Operand(b), Operand(d)
    s, t, u = Operand(p), Operand(q), Operand(r)
    nan = lambda: gem.Literal(float("nan"))
    out = {"if-then-else": (lambda: go(ITE(s, x, y)), lambda: gem.Conditional(p, a, b))}
    for n, kind in [("sympy", Piecewise), ("symengine", SPiecewise)]:
        out["otherwise, " + n] = (lambda kind=kind: go(kind((x, s), (y, t), (z, Yes()))), lambda: gem.Conditional(p, a, gem.Conditional(q, b, d)))
        out["plain otherwise, " + n] = (lambda kind=kind: go(kind((x, s), (y, True))), lambda: gem.Conditional(p, a, b))
        out["after otherwise, " + n] = (lambda kind=kind: go(kind((x, s), (y, True), (z, u))), lambda: gem.Conditional(p, a, b))
        out["no otherwise, " + n] = (lambda kind=kind: go(kind((x, s), (y, t), (z, u))),
                                     lambda: gem.Conditional(p, a, gem.Conditional(q, b, gem.Conditional(r, d, nan()))))
        out["only otherwise, " + n] = (lambda kind=kind: go(kind((x, True))), lambda: a)
        out["never, " + n] = (lambda kind=kind: go(kind((x, False), (y, s))), lambda: gem.Conditional(gem.Literal(False), a, gem.Conditional(p, b, nan())))
    return out


def case_refused(a: "gem"):
    x = Operand(a)
    return {
        "function, sympy": (lambda: go(OtherFunction(x)), lambda: raises("NotImplementedError")),
        "function, symengine": (lambda: go(SOtherFunction(x)), lambda: raises("NotImplementedError")),
        "foreign": (lambda: go(Foreign(x)), lambda: raises("AssertionError")),
        "foreign text": (lambda: go("x"), lambda: raises("AssertionError")),
    }


def case_nested(a: "gem", b: "gem", n: "int"):
    x, y = Symbol(), SSymbol()
    m = lambda: Mapper(Bindings((x, a), (y, b)))
    return {"tree": (lambda: sympy2gem(Add(Mul(Integer(n), x), SPow(y, SInteger(2))), m()),
                     lambda: gem.Sum(gem.Product(gem.Literal(n), a), gem.Power(b, gem.Literal(2))))}
