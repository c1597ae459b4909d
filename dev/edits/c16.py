F = "finat/sympy2gem.py"
EDITS = [
    ("bug", "C16", F, 'gem.Comparison(">", *map', 'gem.Comparison(">=", *map'),
    ("bug", "C16", F, 'gem.Comparison("<", *map(self, node.args))', 'gem.Comparison("<", *map(self, reversed(node.args)))'),
    ("bug", "C16", F, "gem.Division(*(map(self, node.as_numer_denom())))", "gem.Division(*(map(self, node.as_numer_denom()[::-1])))"),
    ("bug", "C16", F, "for v, c in reversed(pieces):", "for v, c in pieces:"),
    ("same", "C16", F, "            expr = self(v)\n            break", "            expr = self(v)"),
    ("bug", "C16", F, "@sympy2gem.register(symengine.Le)\n", ""),
    ("bug", "C16", F, "@sympy2gem.register(sympy.Lt)\n@sympy2gem.register(symengine.Lt)", "@sympy2gem.register(sympy.Lt)\n@sympy2gem.register(symengine.Le)"),
    ("bug", "C16", F, "    return reduce(gem.LogicalAnd, map", "    return reduce(gem.LogicalOr, map"),
    ("bug", "C16", F, "gem.Conditional(*map(self, node.args))", "gem.Conditional(self(node.args[0]), *map(self, node.args[:0:-1]))"),
    ("bug", "C16", F, "gem.Conditional(self(c), self(v), expr)", "gem.Conditional(self(c), expr, self(v))"),
    ("bug", "C16", F, "    return gem.Literal(float(node))", "    return gem.Literal(int(node))"),
    ("bug", "C16", F, "@sympy2gem.register(sympy.Float)\n", ""),
    ("bug", "C16", F, "sympy.logic.boolalg.BooleanTrue)) and c:", "sympy.logic.boolalg.BooleanTrue)):"),
    ("same", "C16", F, "isinstance(c, (bool, numpy.bool, sympy.logic.boolalg.BooleanTrue)) and c", "isinstance(c, sympy.logic.boolalg.BooleanTrue) and c"),
    ("bug", "C16", F, "    return self.bindings[node]", "    return self.bindings.get(node, gem.Zero())"),
    ("bug", "C16", F, '    raise NotImplementedError("no handler for sympy/symengine node type %s" % type(node))', '    return gem.Zero()'),
    ("bug", "C16", F, "    return gem.Power(*map(self, node.args))", "    base, exponent = map(self, node.args)\n    return gem.Power(exponent, base)"),
    ("same", "C16", F, "    return gem.Power(*map(self, node.args))", "    base, exponent = node.args\n    return gem.Power(self(base), self(exponent))"),
    ("same", "C16", F, "    return reduce(gem.Sum, map(self, node.args))", "    first, *rest = [self(a) for a in node.args]\n    total = first\n    for r in rest:\n        total = gem.Sum(total, r)\n    return total"),
    ("same", "C16", F, """    expr = None
    pieces = []
    for v, c in node.args:
        if isinstance(c, (bool, numpy.bool, sympy.logic.boolalg.BooleanTrue)) and c:
            expr = self(v)
            break
        pieces.append((v, c))
    if expr is None:
        expr = gem.Literal(float("nan"))
    for v, c in reversed(pieces):
        expr = gem.Conditional(self(c), self(v), expr)
    return expr
""", """    def build(args):
        if not args:
            return gem.Literal(float("nan"))
        (v, c), *others = args
        if isinstance(c, (bool, numpy.bool, sympy.logic.boolalg.BooleanTrue)) and c:
            return self(v)
        return gem.Conditional(self(c), self(v), build(others))

    return build(list(node.args))
"""),
    ("same", "C16", F, "@sympy2gem.register(sympy.Lt)\n", "@sympy2gem.register(sympy.StrictLessThan)\n"),
    ("same", "C16", F, """@sympy2gem.register(sympy.Gt)
def sympy2gem_gt(node, self):
    return gem.Comparison(">", *map(self, node.args))
""", """def _comparison(op):
    def handler(node, self):
        lhs, rhs = map(self, node.args)
        return gem.Comparison(op, lhs, rhs)
    return handler


sympy2gem_gt = sympy2gem.register(sympy.Gt, _comparison(">"))
"""),
]
