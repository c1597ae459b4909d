"""Protocol types of the collaborating objects and transfer functions for the
libraries FInAT is written against (gem, numpy, FIAT, UFL)."""
from . import terms as tm
from . import interp, extern
from . import gemdom as gd
from .terms import (T, mk, c, NONE, TRUE, FALSE, ZERO, ONE, isc, sym, top, fresh, ty, ite, lift, and_, or_, not_, eq, add,
                    sub, mul, seq, seq_of, el, sp, length, at, subst, map_leaves, leaves, atom)
from .models import MODELS, model, prefix_sums, as_tuple
from .interp import AnalysisError, CLASSES

tup = lambda t: ("tuple", t)   # noqa: E731
lst = lambda t: ("list", t)   # noqa: E731
dct = lambda k, v: ("dict", k, v)   # noqa: E731
ENT_DOFS = dct(None, dct("int", lst("int")))
TAB = dct(tup("int"), "gem")

# ---------------------------------------------------------------- protocol types

ATTRS = {
    "Element": {
        "cell": "Cell", "complex": "Cell", "degree": None, "formdegree": None, "index_shape": tup("int"), "value_shape": tup("int"),
        "mapping": "str", "fiat_equivalent": "FiatElement", "entity_permutations": dct(None, dct("int", dct(None, lst("int")))),
        "_entity_support_dofs": ENT_DOFS, "_entity_closure_dofs": ENT_DOFS,
    },
    "Cell": {
        "cells": tup("Cell"), "product": "Cell", "sub_entities": dct(None, dct("int", lst(tup(None)))), "shape": "int",
        "topology": dct(None, dct("int", tup("int"))), "dimension": None, "connectivity": None, "vertices": None,
    },
    "PointSet": {
        "points": "array", "indices": tup("Index"), "dimension": "int", "expression": "gem", "factors": tup("PointSet"), "point": None,
        "_points_expr": "gem",
    },
    "QuadratureRule": {
        "point_set": "PointSet", "weights": "array", "weight_expression": "gem", "factors": tup("QuadratureRule"),
        "extrinsic_orientation_permutation_map": None, "ref_el": "Cell",
    },
    "FiatElement": {
        "ref_el": "Cell", "_formdegree": None, "order": "int", "value_shape": tup("int"),
    },
    "Index": {"extent": "int", "name": None},
    "gem": {"shape": tup("int"), "free_indices": tup("Index"), "T": "gem", "children": tup("gem"), "array": "array"},
    "gs": {"shape": tup("int"), "free_indices": tup("Index"), "children": tup("gem")},
    "array": {"shape": tup("int"), "T": "array", "dtype": None, "ndim": "int", "size": "int"},
    "UflElement": {
        "embedded_superdegree": None, "embedded_subdegree": None, "reference_value_shape": tup("int"), "reference_value_size": "int",
        "pullback": None, "sub_elements": tup("UflElement"), "num_sub_elements": "int", "cell": "UflCell", "basix_sobolev_space": None,
        "sobolev_space": None, "_is_linear": "bool",
    },
    "UflCell": {
        "topological_dimension": "int", "cellname": "str", "sub_cells": tup("UflCell"),
    },
}
METHODS = {
    "Element": {
        "entity_dofs": ENT_DOFS, "entity_closure_dofs": ENT_DOFS, "entity_support_dofs": ENT_DOFS, "space_dimension": "int",
        "basis_evaluation": TAB, "point_evaluation": TAB,
    },
    "Cell": {
        "get_topology": dct(None, dct("int", tup("int"))), "get_dimension": None, "get_spatial_dimension": "int",
        "construct_subelement": "Cell", "get_shape": "int", "is_simplex": "bool", "volume": "num", "get_vertices": None,
        "sub_entities": None, "get_entity_transform": "fn", "get_connectivity": None,
    },
    "FiatElement": {
        "entity_dofs": ENT_DOFS, "entity_closure_dofs": ENT_DOFS, "space_dimension": "int", "value_shape": tup("int"), "degree": "int",
        "tabulate": None, "mapping": tup("str"), "get_reference_element": "Cell", "get_reference_complex": "Cell", "get_formdegree": None,
        "entity_permutations": dct(None, dct("int", dct(None, lst("int")))), "get_order": "int", "dual_basis": lst("Functional"),
        "is_nodal": "bool",
    },
    "UflElement": {
        "value_shape": tup("int"), "degree": None, "family": "str", "mapping": "str", "shortstr": "str", "is_cellwise_constant": "bool",
        "num_restricted_sub_elements": "int", "restricted_sub_elements": tup("UflElement"), "variant": None, "quadrature_scheme": None,
        "symmetry": dct(None, None), "restriction_domain": None, "cell": "UflCell",
    },
    "UflCell": {
        "topological_dimension": "int", "geometric_dimension": "int", "cellname": "str", "facet_types": tup("UflCell"),
        "sub_cells": tup("UflCell"), "num_vertices": "int",
    },
    "array": {"flatten": "array", "reshape": "array", "transpose": "array", "copy": "array", "tolist": None, "astype": "array", "sum": None,
              "max": None, "min": None, "dot": "array"},
}
SIGS = {
    # default values of protocol methods: calls are normalised to this signature
    ("Element", "basis_evaluation"): (("order", "ps", "entity", "coordinate_mapping"), (NONE, NONE)),
    ("Element", "point_evaluation"): (("order", "refcoords", "entity"), (NONE,)),
    ("Element", "dual_evaluation"): (("fn",), ()),
    ("FiatElement", "tabulate"): (("order", "points", "entity"), (NONE,)),
    ("Cell", "construct_subelement"): (("dimension",), ()),
    ("FiatElement", "value_shape"): ((), ()),
}
SELFS = ("Element", "Cell", "PointSet", "QuadratureRule", "FiatElement", "UflElement", "UflCell")

EXT_CALLS = {
    "FIAT.polynomial_set.mis": lst(tup("int")),
    "FIAT.reference_element.make_lattice": lst(tup("num")),
    "numpy.asarray": "array", "numpy.array": "array", "numpy.zeros": "array", "numpy.ones": "array", "numpy.eye": "array",
    "numpy.linalg.norm": "num", "numpy.allclose": "bool", "numpy.dot": None, "numpy.unravel_index": tup("int"),
    "gem.Variable": "gem", "gem.MathFunction": "gs", "gem.Comparison": "gs", "gem.LogicalAnd": "gs", "gem.LogicalOr": "gs",
    "gem.LogicalNot": "gs", "gem.Conditional": "gem", "gem.MinValue": "gs", "gem.MaxValue": "gs", "gem.Concatenate": "gem",
    "gem.Failure": "gem", "gem.SparseLiteral": "gem", "gem.FlexiblyIndexed": "gem", "gem.reshape": "gem", "gem.view": "gem",
    "gem.Identity": "gem", "gem.Inverse": "gem", "gem.Solve": "gem",
    "FIAT.reference_element.TensorProductCell": "Cell", "FIAT.reference_element.ufc_cell": "Cell",
    "FIAT.reference_element.TensorProductCell._split_slices": lst("slice"),
    "FIAT.reference_element.UFCInterval": "Cell", "FIAT.reference_element.flatten_reference_cube": "Cell",
    "FIAT.quadrature.GaussLegendreQuadratureLineRule": "FiatRule",
}


def setup_types():
    for t, d in ATTRS.items():
        for k, v in d.items():
            if v is not None:
                tm.ATTR_TYPE[(t, k)] = v
    for t, d in METHODS.items():
        for k, v in d.items():
            if v is not None:
                tm.CALL_TYPE[(t, k)] = v
    for k, v in EXT_CALLS.items():
        if v is not None:
            tm.EXT_CALL_TYPE[k] = v


GEM = ("gem", "gs")


def is_gem(t):
    if t.h == "ite":
        return any(is_gem(x) for x in leaves(t))
    return ty(t) in GEM


# ---------------------------------------------------------------- gem models

def fz(I, x):
    return I.freeze(x)


def args_of(I, args, kw, names, defaults=()):
    """bind to parameter names"""
    if any(a.h == "sp" for a in args):
        return None
    out = {}
    for n, a in zip(names, args):
        out[n] = a
    for k, v in kw.items():
        out[k] = v
    miss = [n for n in names if n not in out]
    for n, d in zip(names[len(names) - len(defaults):], defaults):
        out.setdefault(n, d)
    return [out[n] for n in names] if all(n in out for n in names) else None


@model("gem.Index")
def _Index(I, args, kw):
    a = args_of(I, args, kw, ("name", "extent"), (NONE, NONE))
    e = I.freeze(a[1])
    return gd.new_index(I, None if e is NONE else e)


@model("gem.indices")
def _indices(I, args, kw):
    return lift(lambda n: gd.new_indices(I, n), I.freeze(args[0]))


def idxseq(I, x):
    s = I.freeze(I.as_seq(x))
    return lift(gd.as_idx, s)


def enough(I, args, kw, n):
    """too few arguments are a TypeError"""
    if len(args) + len(kw) < n and not any(a.h == "sp" for a in args):
        I.raise_name("TypeError", "missing argument")


@model("gem.partial_indexed")
def _partial_indexed(I, args, kw):
    return indexed(I, args, kw, True)


@model("gem.Indexed")
def _Indexed(I, args, kw):
    return indexed(I, args, kw, False)


def indexed(I, args, kw, partial):
    enough(I, args, kw, 2)
    a = args_of(I, args, kw, ("t", "multiindex"))
    if a is None:
        a = [args[0], list(kw.values())[0]] if len(args) == 1 else args
    t, idx = gemval(I, a[0]), idxseq(I, a[1])
    if t.h != "ite" and idx.h != "ite" and not t.hastop and not idx.hastop:
        sh = gd.shape_of(t)
        d = tm.sub(tm.length(idx), tm.length(sh)) if sh is not None and sh.h == "seq" else ZERO
        if tm.is_int_const(d) and (d.a[0] > 0 or d.a[0] < 0 and not partial):
            I.raise_name("AssertionError", "number of indices")
    return gd.gi(t, idx)


@model("gem.ComponentTensor")
def _CT(I, args, kw):
    enough(I, args, kw, 2)
    a = args_of(I, args, kw, ("expression", "multiindex"))
    return gd.gct(gemval(I, a[0]), idxseq(I, a[1]))


@model("gem.IndexSum", "gem.index_sum")
def _IS(I, args, kw):
    enough(I, args, kw, 2)
    a = args_of(I, args, kw, ("summand", "multiindex"))
    return gd.gsum(gemval(I, a[0]), idxseq(I, a[1]))


def gemval(I, x):
    x = I.freeze(x)
    return lift(lambda y: gd.garr(y) if y.h in ("arr",) else y, x)


@model("gem.as_gem")
def _as_gem(I, args, kw):
    return gemval(I, args[0])


@model("gem.Sum")
def _Sum(I, args, kw):
    return gadd(*[gemval(I, a) for a in args])


@model("gem.Product")
def _Product(I, args, kw):
    enough(I, args, kw, 2)
    return mul(*[gemval(I, a) for a in args])


@model("gem.Division")
def _Div(I, args, kw):
    return tm.div(*[gemval(I, a) for a in args])


@model("gem.Comparison")
def _Comparison(I, args, kw):
    """a > b is b < a"""
    if len(args) != 3 or kw or not isc(args[0]):
        return None
    op, a, b = args[0].a[0], gemval(I, args[1]), gemval(I, args[2])
    if op in (">", ">="):
        op, a, b = {">": "<", ">=": "<="}[op], b, a
    if op in ("==", "!="):
        a, b = sorted((a, b), key=lambda t: t.dig)
    return lift(lambda x, y: tm.app(tm.ext("gem.Comparison"), (c(op), x, y)), a, b)


def _logical(name):
    def f(I, args, kw):
        if len(args) != 2 or kw:
            return None

        def parts(t):
            if t.h == "app" and t.a[0] is tm.ext(name):
                return list(t.a[1])
            return [t]
        return lift(lambda x, y: tm.app(tm.ext(name), tuple(sorted(set(parts(x) + parts(y)), key=lambda t: t.dig))), *[gemval(I, a) for a in args])
    model(name)(f)


_logical("gem.LogicalAnd")
_logical("gem.LogicalOr")


@model("gem.Conditional")
def _Conditional(I, args, kw):
    if len(args) != 3 or kw:
        return None

    def f(x, y, z):
        if x in (tm.TRUE, tm.FALSE):
            return y if x is tm.TRUE else z
        return tm.app(tm.ext("gem.Conditional"), (x, y, z))
    return lift(f, *[gemval(I, a) for a in args])


@model("gem.Power")
def _Pow(I, args, kw):
    return tm.power(*[gemval(I, a) for a in args])


def gadd(a, b):
    def f(x, y):
        if x.h == "gzero" and y is not ZERO:
            return y
        if y.h == "gzero" and x is not ZERO:
            return x
        if x is ZERO and y.h == "gzero":
            return y
        return add(x, y)
    return lift(f, a, b)


def gmul(a, b):
    """product through the overloaded operator (componentwise for tensors)"""
    def f(x, y):
        for p, q in ((x, y), (y, x)):
            if p.h == "gzero":
                return p if gd.shape_of(q).h != "attr" or True else p
        sx, sy = _rank0(x), _rank0(y)
        if sx is False and sy is not None:
            return comp(x, lambda z: mul(z, y if sy else gd.gi(y, comp.idx)))
        if sy is False and sx:
            return comp(y, lambda z: mul(x, z))
        return mul(x, y)
    return lift(f, a, b)


def comp(t, f):
    sh = gd.shape_of(t)
    F = fresh("ixf")
    u = fresh("int")
    n = length(sh)
    tm.RANGE_OF[u] = n
    gd.EXTENT[F] = ((u,), at(sh, u))
    idx = seq("tuple", [tm.fm_seg(n, u, seq_of("list", [mk("ix", F, (u,))]))])
    comp.idx = idx
    return gd.gct(f(gd.gi(t, idx)), idx)


def _rank0(t):
    """True: scalar, False: tensor, None: unknown"""
    if isc(t) or ty(t) in ("int", "num"):
        return True
    if t.h in ("gsum", "gdelta"):
        return True
    if t.h in ("gct", "gzero", "garr"):
        return False
    if t.h == "poly":
        rs = [_rank0(x) for co, mono in t.a[0] for x, e in mono]
        if any(r is False for r in rs):
            return False
        if all(r for r in rs):
            return True
        return None
    if t.h == "app" and t.a[0].h == "ext" and tm.EXT_CALL_TYPE.get(t.a[0].a[0]) == "gs":
        return True
    return None


@model("gem.Zero")
def _Zero(I, args, kw):
    a = args_of(I, args, kw, ("shape",), (interp.EMPTY_TUPLE,))
    if a is None:
        a = [list(kw.values())[0] if not args else args[0]]
    return gd.gzero(idxseq(I, a[0])) if True else None


@model("gem.Literal", "gem.ListTensor")
def _Literal(I, args, kw):
    x = I.freeze(args[0])
    if x.h == "seq" and False:
        return None
    return gd.garr(x)


@model("gem.Delta")
def _Delta(I, args, kw):
    enough(I, args, kw, 2)
    return gd.gdelta(I.freeze(args[0]), I.freeze(args[1]))


@model("gem.optimise.sum_factorise")
def _sf(I, args, kw):
    a = args_of(I, args, kw, ("sum_indices", "factors"))
    if a is None:
        return None
    idx = idxseq(I, a[0])
    fac = I.freeze(I.as_seq(a[1]))
    return gd.gsum(tm.prod_seq(fac), idx)


@model("gem.optimise.delta_elimination")
def _de(I, args, kw):
    if len(args) == 2 and not any(a.h == "sp" for a in args):
        return seq_of("tuple", [I.freeze(args[0]), I.freeze(args[1])])
    return None


@model("gem.optimise.traverse_product")
def _tp(I, args, kw):
    return seq_of("tuple", [interp.EMPTY_TUPLE, seq_of("tuple", [gemval(I, args[0])])])


@model("gem.optimise.constant_fold_zero")
def _ident_seq(I, args, kw):
    return I.freeze(I.as_seq(args[0]))


@model("gem.optimise.contraction", "gem.optimise.aggressive_unroll")
def _ident(I, args, kw):
    return gemval(I, args[0])


def gem_hook(I, op, args):
    if any(a.hasref and a.h != "ref" for a in args):
        pass
    fr = []
    anyg = False
    for a in args:
        if a.h == "ref":
            if I.cell(a)[0] == "arr":
                return None
            fr.append(a)
        else:
            if is_gem(a):
                anyg = True
            fr.append(a)
    if not anyg:
        return None
    if any(a.h == "ref" for a in fr):
        return None
    fr = [I.freeze(a) for a in fr]
    if op == "neg":
        return tm.neg(fr[0])
    a, b = fr
    if not (is_gem(a) or ty(a) in tm.NUMERIC or ty(a) is None) or not (is_gem(b) or ty(b) in tm.NUMERIC or ty(b) is None):
        return None
    if op == "+":
        return gadd(a, b)
    if op == "-":
        return gadd(a, tm.neg(b))
    if op == "*":
        return gmul(a, b)
    if op == "/":
        return tm.div(a, b)
    if op == "**":
        return tm.power(a, b)
    if op == "@":
        return gmatmul(I, a, b)
    return mk("op", op, a, b)


def known_entries(x):
    """the array of a tensor whose entries are all known"""
    if x.h == "garr" and x.a[0].h == "arr" and x.a[0].a[0]:
        return ("arr", x.a[0].a[0], x.a[0].a[1])
    if x.h == "garr" and x.a[0].h == "seq":
        return to_arr(None, x.a[0])
    return None


def gmatmul(I, a, b):
    def f(x, y):
        p, q = known_entries(x), known_entries(y)
        if p is not None and q is not None:
            r = I.freeze(arr_dot(I, p, q))
            return gd.garr(r) if r.h == "arr" else r
        shx, shy = gd.shape_of(x), gd.shape_of(y)
        nx, ny = length(shx), length(shy)
        if tm.is_int_const(nx) and tm.is_int_const(ny) and nx.a[0] and ny.a[0]:
            def new(ext):
                F = fresh("ixf")
                gd.EXTENT[F] = ((), ext)
                return mk("ix", F, ())
            i = [new(at(shx, c(k))) for k in range(nx.a[0])]
            j = [new(at(shy, c(k))) for k in range(1, ny.a[0])]
            e = mul(gd.gi(x, seq_of("tuple", i)), gd.gi(y, seq_of("tuple", [i[-1]] + j)))
            return gd.gct(gd.gsum(e, seq_of("tuple", [i[-1]])), seq_of("tuple", i[:-1] + j))
        return mk("op", "@", x, y)
    return lift(f, a, b)


def gem_attr(I, o, k, name):
    if gd.is_variable(o) and name in ("shape", "name", "free_indices"):
        return {"shape": gd.shape_of(o), "name": o.a[1][0], "free_indices": interp.EMPTY_TUPLE}[name]
    if o.h in ("gct", "gi", "gsum", "gdelta", "gzero", "garr") or o.h == "poly" and ty(o) == "gs":
        if name == "shape":
            return gd.shape_of(o)
        if name == "T":
            if known_entries(o) is not None:
                return gd.garr(I.freeze(arr_transpose(I, known_entries(o))))
            n = length(gd.shape_of(o))
            idx = gd.new_indices(I, n)
            return gd.gct(gd.gi(o, idx), I.reverse(idx))
        return None
    if k == "gem" and name == "T":
        n = length(gd.shape_of(o))
        idx = gd.new_indices(I, n)
        return gd.gct(gd.gi(o, idx), I.reverse(idx))
    if o.h == "ix" and name == "extent":
        r = gd.extent_of(o)
        return r if r is not gd.UNKNOWN_EXTENT else tm.attr(o, "extent")
    return None


def gem_rows(I, o):
    """iteration over a tensor: its first index"""
    sh = I.simp(gd.shape_of(o))
    if known_entries(o) is not None:
        sh = seq_of("tuple", [c(n) for n in known_entries(o)[1]])
    if sh.h == "seq" and sh.a[1] and sh.a[1][0].h == "el" and tm.is_int_const(sh.a[1][0].a[0]):
        return seq_of("list", [gd.gi(o, seq_of("tuple", [c(k)])) for k in range(sh.a[1][0].a[0].a[0])])
    return None


def gem_getitem(I, o, k):
    t = ty(o)
    if o.h == "sview":
        kk = I.freeze(k)
        return lift(lambda x: views.index(o, [g.a[0] for g in x.a[1]] if x.h == "seq" and all(g.h == "el" for g in x.a[1]) else [x]) or tm.mk("at", o, x), kk)
    if t in GEM:
        kk = I.freeze(k)

        def f(x):
            if x.h == "slc":
                return mk("at", o, x)
            if x.h == "seq" or tm.is_seq_ty(ty(x)):
                return gd.gi(o, gd.as_idx(x)) if x.h == "seq" else gd.gi(o, seq("tuple", [sp(x)]))
            return gd.gi(o, seq_of("tuple", [x]))
        return lift(f, kk)
    return None


# ---------------------------------------------------------------- protocol objects

PROTO_BASE = {"Element": "finat.finiteelementbase.FiniteElementBase", "PointSet": "finat.point_set.AbstractPointSet",
              "QuadratureRule": "finat.quadrature.AbstractQuadratureRule", "UflElement": "finat.ufl.finiteelementbase.FiniteElementBase"}


def proto_isinstance(I, x, t, k):
    if not isinstance(t, str):
        return None
    base = PROTO_BASE.get(t)
    if k.h == "cls":
        if base is None:
            if t in ("Cell", "FiatElement", "gem", "gs", "Index", "UflCell", "array"):
                return FALSE
            return None
        if base not in CLASSES:
            I.load(base.rpartition(".")[0])
        if base in CLASSES:
            b = CLASSES[base]
            if k in b.mro:
                return TRUE
            if b.term not in CLASSES[k.a[0]].mro:
                # a class unrelated to the protocol, unless used as a mix-in
                if k.a[0].split(".")[-1] in ("PhysicallyMappedElement", "PiolaMappedElement", "DirectlyDefinedElement", "NeedsCoordinateMappingElement", "MappedTabulation"):
                    return None
                return FALSE
        return None
    if k.h == "ext":
        n = k.a[0]
        if n in ("builtins.int", "builtins.str", "builtins.tuple", "builtins.list", "builtins.dict", "builtins.float", "builtins.set") \
                or n.startswith("collections.") or n.startswith("numbers.") or n in ("builtins.Exception", "builtins.BaseException"):
            return FALSE
        if t in ("gem", "gs"):
            if x.h == "app" and x.a[0] is k:
                return TRUE
            if n in ("gem.Node", "gem.gem.Node", "gem.node.Node"):
                return TRUE
            if x.h == "gzero":
                return TRUE if n in ("gem.Zero", "gem.Constant", "gem.Terminal") else FALSE
            if not n.startswith("gem"):
                return FALSE
        if t == "Index":
            if n in ("gem.Index", "gem.IndexBase"):
                return TRUE
            return FALSE if x.h == "ix" else None
        if t in ("Element", "PointSet", "QuadratureRule") and (n.startswith("gem") or n.startswith("FIAT") or n.startswith("ufl")):
            return FALSE
        if t == "array":
            return TRUE if n == "numpy.ndarray" else FALSE
        if t == "Cell" and n in ("FIAT.reference_element.Cell",):
            return TRUE
        if t == "UflElement" and n in ("ufl.finiteelement.AbstractFiniteElement",):
            return TRUE
        if t == "UflCell" and n in ("ufl.cell.AbstractCell",):
            return TRUE
    return None


def norm_method(f, args, kw):
    """opaque protocol method calls: defaults dropped, arguments by position"""
    if f.h != "attr":
        return None
    k = ty(f.a[0])
    if not isinstance(k, str):
        return None
    s = SIGS.get((k, f.a[1]))
    if s is None:
        return None
    names, defaults = s
    if any(a.h == "sp" for a in args) or len(args) > len(names):
        return None
    kws = dict(kw)
    bound = dict(zip(names, args))
    if any(n in bound or n not in names for n in kws):
        return None
    bound.update(kws)
    nd = len(defaults)
    dv = dict(zip(names[len(names) - nd:], defaults))
    pos = []
    out = {}
    for n in names[:len(names) - nd]:
        if n not in bound:
            return None
        pos.append(bound[n])
    for n in names[len(names) - nd:]:
        if n in bound and bound[n] is not dv[n]:
            out[n] = bound[n]
    a2, k2 = tuple(pos), tuple(sorted(out.items()))
    if a2 == tuple(args) and k2 == tuple(kw):
        return None
    return tm.app(f, a2, k2)


tm.APP_RULES.append(norm_method)

TPC = "FIAT.reference_element.TensorProductCell"


def tpc_cells(o):
    """factor cells of a product cell built by FIAT's constructor, as a tuple"""
    if o.h == "app" and o.a[0].h == "ext" and o.a[0].a[0] == TPC and not o.a[2]:
        return seq("tuple", [a if a.h == "sp" else el(a) for a in o.a[1]])
    return None


def tpc_attr(o, name):
    if name == "cells":
        return tpc_cells(o)
    return None


def tpc_method(f, args, kw):
    """product cells: dimensions and sub-cells are those of the factors"""
    if f.h != "attr" or kw:
        return None
    cells = tpc_cells(f.a[0])
    if cells is None:
        return None
    name = f.a[1]
    if name == "get_spatial_dimension" and not args:
        return tm.sum_seq(tm.map_seq("tuple", cells, lambda x, k: seq_of("tuple", [tm.app(tm.attr(x, name), ())])))
    if name in ("get_dimension", "get_shape") and not args:
        if name == "get_shape":
            return None
        return tm.map_seq("tuple", cells, lambda x, k: seq_of("tuple", [tm.app(tm.attr(x, name), ())]))
    if name == "construct_subelement" and len(args) == 1 and args[0].h == "seq":
        if length(args[0]) is length(cells):
            return tm.app(mk("ext", TPC), tm.map_seq("tuple", cells, lambda x, k: seq_of("tuple", [
                tm.app(tm.attr(x, name), (at(args[0], k),))])).a[1]) if False else None
    return None


tm.ATTR_RULES.append(tpc_attr)
tm.APP_RULES.append(tpc_method)


def _mis(f, args, kw):
    """multi-indices of length m summing to n, in FIAT's order"""
    if f.h == "ext" and f.a[0] == "FIAT.polynomial_set.mis" and len(args) == 2 and not kw:
        m, n = args
        if tm.is_int_const(m) and tm.is_int_const(n) and m.a[0] > 0 and m.a[0] * n.a[0] < 40:
            def mis(m, n):
                if m == 1:
                    return [(n,)]
                if n == 0:
                    return [(0,) * m]
                return [(n - i,) + foo for i in range(n + 1) for foo in mis(m - 1, i)]
            return seq_of("list", [seq_of("tuple", [c(k) for k in t]) for t in mis(int(m.a[0]), int(n.a[0]))])
    return None


tm.APP_RULES.append(_mis)


# ---------------------------------------------------------------- numpy

def N(*names):
    return model(*["numpy." + n for n in names])


@N("prod")
def _np_prod(I, args, kw):
    s = I.freeze(I.as_seq(args[0]))
    if s.h == "seq" and s.a[1] and all(g.h == "el" and I.inst_class(g.a[0]) is not None for g in s.a[1]):
        r = s.a[1][0].a[0]
        for g in s.a[1][1:]:
            r = I.binop("*", r, g.a[0])
        return r
    return lift(lambda x: tm.prod_seq(x), s)


@N("sum")
def _np_sum(I, args, kw):
    if len(args) == 1 and set(kw) <= {"dtype"}:
        s = I.freeze(I.as_seq(args[0]))

        def tot(x):
            if x.h == "seq" and all(tm.seg_ty(g) in tm.NUMERIC for g in x.a[1]) or x.h != "seq" and tm.is_seq_ty(ty(x)) and ty(x)[1] in tm.NUMERIC:
                return tm.sum_seq(x)
            return tm.app(tm.ext("numpy.sum"), (x,))
        return lift(tot, s)
    return None


@N("allclose")
def _np_allclose(I, args, kw):
    kw = {k: I.freeze(v) for k, v in kw.items()}
    names = ("rtol", "atol", "equal_nan")
    for k, v in zip(names, args[2:]):
        kw[k] = I.freeze(v)
    if len(args) < 2 or set(kw) - set(names):
        return None
    x, y = I.freeze(args[0]), I.freeze(args[1])
    if kw.get("rtol") is not None and kw["rtol"].h == "c" and kw["rtol"].a[0] == 0 and x.h != "ite" and y.h != "ite":
        # without a relative tolerance the comparison is symmetric
        x, y = sorted((x, y), key=lambda t: t.dig)
    if x is y:
        return tm.TRUE
    tols = [kw.get("rtol", c(1e-5)), kw.get("atol", c(1e-8))]
    if x.h == "arr" and y.h == "arr" and x.a[0] == y.a[0] and "equal_nan" not in kw and all(tm.is_num_const(t) for t in tols + list(x.a[1]) + list(y.a[1])):
        r, t = (float(v.a[0]) for v in tols)
        return tm.TRUE if all(abs(float(p.a[0]) - float(q.a[0])) <= t + r * abs(float(q.a[0])) for p, q in zip(x.a[1], y.a[1])) else tm.FALSE
    return tm.app(mk("ext", "numpy.allclose"), (x, y), tuple(sorted(kw.items())))


@N("isclose")
def _np_isclose(I, args, kw):
    x, y = (I.freeze(a) for a in args[:2]) if len(args) >= 2 else (NONE, NONE)
    if isc(x) and isc(y) and ty(x) in ("int", "num") and ty(y) in ("int", "num") and len(args) == 2 and not kw:
        a, b = float(x.a[0]), float(y.a[0])
        return tm.TRUE if abs(a - b) <= 1e-8 + 1e-5 * abs(b) else tm.FALSE
    return None


@N("cumsum")
def _np_cumsum(I, args, kw):
    s = I.freeze(I.as_seq(args[0]))
    return lift(lambda x: cumsum(x), s)


def cumsum(s):
    return prefix_sums(s)


@N("transpose")
def _np_transpose(I, args, kw):
    if len(args) == 1 and not kw:
        x = I.freeze(args[0])
        if x.h == "sview":
            return views.transpose(x, None)
        if ty(x) == "array" or x.h == "app":
            return None
        return mk("nptrans", x)
    if len(args) == 2 and not kw:
        x, ax = I.freeze(args[0]), I.freeze(args[1])
        if x.h == "sview" and ax.h == "seq" and all(g.h == "el" and tm.is_int_const(g.a[0]) for g in ax.a[1]):
            return views.transpose(x, [g.a[0].a[0] for g in ax.a[1]])
    return None


@N("ravel_multi_index")
def _np_ravel(I, args, kw):
    if len(args) != 2 or kw:
        return None
    x, shape = I.freeze(args[0]), I.freeze(I.as_seq(args[1]))
    if x.h == "nptrans":
        s = x.a[0]
        if s.h == "ite" or shape.h == "ite":
            return lift(lambda p, q: map_ravel(p, q), s, shape)
        return map_ravel(s, shape)
    return lift(ravel, x, shape)


def map_ravel(s, shape):
    s = s if s.h == "seq" else seq("list", [sp(s)])
    return seq("list", list(tm.map_seq("list", s, lambda t, k: seq_of("list", [ravel(t, shape)])).a[1]))


def ravel(t, shape):
    """row-major flattening of a multi-index"""
    if t.h == "ite" or shape.h == "ite":
        return lift(ravel, t, shape)
    n = length(shape)
    if tm.is_int_const(n) and (t.h != "seq" or length(t) is n):
        r = ZERO
        for k in range(n.a[0]):
            r = add(mul(r, at(shape, c(k))), at(t, c(k)))
        return r
    return mk("ravel", as_tuple(t) if t.h == "seq" else t, as_tuple(shape) if shape.h == "seq" else shape)


@tm.rebuilds("ravel")
def _rb_ravel(h, t, shape):
    return ravel(t, shape)


@N("unravel_index")
def _np_unravel(I, args, kw):
    kw = dict(kw)
    order = kw.pop("order", args[2] if len(args) == 3 else c("C"))
    if len(args) not in (2, 3) or kw or order not in (c("C"), c("F")):
        return None
    x, shape = I.freeze(args[0]), I.freeze(I.as_seq(args[1]))
    if order is c("F"):
        shape = I.freeze(I.call(mk("ext", "builtins.tuple"), [I.call(mk("ext", "builtins.reversed"), [shape], {})], {}))
        if not tm.is_int_const(length(shape)):
            return None
        return lift(lambda x, s: unravel(x, s) if s.h == "ite" else seq("tuple", tuple(reversed(unravel(x, s).a[1]))), x, shape)
    return lift(unravel, x, shape)


def unravel(x, shape):
    if x.h == "ite" or shape.h == "ite":
        return lift(unravel, x, shape)
    n = length(shape)
    if tm.is_int_const(n):
        out = []
        r = x
        for k in reversed(range(n.a[0])):
            if k == 0:
                out.append(r)
            else:
                d = at(shape, c(k))
                out.append(tm.mod(r, d))
                r = tm.floordiv(r, d)
        return seq_of("tuple", list(reversed(out)))
    return mk("unravel", x, as_tuple(shape) if shape.h == "seq" else shape)


@tm.rebuilds("unravel")
def _rb_unravel(h, x, s):
    return unravel(x, s)


tm.LEN_RULES.append(lambda t: length(t.a[1]) if t.h == "unravel" else None)


def cart_len(t):
    """members of a cartesian product have as many entries as there are factors"""
    if t.h == "at" and t.a[0].h == "cart":
        return length(t.a[0].a[0])
    return None


tm.LEN_RULES.append(cart_len)


def attr_proto_types():
    pass


# ---------------------------------------------------------------- concrete small arrays

def shape_const(I, x):
    x = I.freeze(x)
    if tm.is_int_const(x):
        return (x.a[0],)
    if x.h == "seq" and all(g.h == "el" and tm.is_int_const(g.a[0]) for g in x.a[1]):
        return tuple(g.a[0].a[0] for g in x.a[1])
    return None


def size_of(sh):
    n = 1
    for k in sh:
        n *= k
    return n


@N("zeros", "ones", "empty")
def _np_zeros(I, args, kw):
    sh = shape_const(I, args[0] if args else kw.get("shape", NONE))
    if sh is None or size_of(sh) > 20000:
        return None
    return I.alloc(("arr", sh, (ZERO,) * size_of(sh)))


def _np_ones(I, args, kw):
    sh = shape_const(I, args[0] if args else kw.get("shape", NONE))
    if sh is None or size_of(sh) > 20000:
        return None
    dt = kw.get("dtype", args[1] if len(args) > 1 else None)
    one = TRUE if dt is not None and dt.h in ("ext", "cls") and dt.a[0] in ("builtins.bool", "numpy.bool_") else ONE
    return I.alloc(("arr", sh, (one,) * size_of(sh)))


MODELS["numpy.ones"] = _np_ones


@N("full")
def _np_full(I, args, kw):
    kw = dict(kw)
    kw.pop("dtype", None)
    args = list(args[:2]) + [kw.pop(k) for k in ("shape", "fill_value")[len(args):] if k in kw]
    if len(args) != 2 or kw:
        return None
    sh = shape_const(I, args[0])
    a = to_arr(I, args[1])
    if sh is None or size_of(sh) > 20000 or a is not None and a[1] != ():
        return None
    return I.alloc(("arr", sh, (I.freeze(args[1]),) * size_of(sh)))


def _np_full_like(I, args, kw):
    a = to_arr(I, args[0]) if args else None
    if a is None or len(args) != 2 or set(kw) - {"dtype"}:
        return None
    return I.alloc(("arr", a[1], (I.freeze(args[1]),) * len(a[2])))


def _np_ones_like(I, args, kw):
    a = to_arr(I, args[0]) if args else None
    if a is None or len(args) != 1 or set(kw) - {"dtype"}:
        return None
    return I.alloc(("arr", a[1], (ONE,) * len(a[2])))


MODELS["numpy.full_like"] = _np_full_like
MODELS["numpy.ones_like"] = _np_ones_like
MODELS["numpy.empty_like"] = lambda I, args, kw: _np_zl(I, args, kw)


def blocks(I, x):
    """the members of a sequence of arrays of known shape, or None"""
    s = I.freeze(I.as_seq(x))
    if s.h != "seq" or not s.a[1] or any(g.h != "el" for g in s.a[1]):
        return None
    out = [to_arr(I, g.a[0]) for g in s.a[1]]
    return None if any(a is None for a in out) else out


def join_axis(I, parts, axis):
    nd = len(parts[0][1])
    if any(len(a[1]) != nd for a in parts) or nd == 0:
        return None
    if axis < 0:
        axis += nd
    if not 0 <= axis < nd or any(a[1][:axis] + a[1][axis + 1:] != parts[0][1][:axis] + parts[0][1][axis + 1:] for a in parts):
        return None
    lead = size_of(parts[0][1][:axis])
    out = []
    for k in range(lead):
        for a in parts:
            n = size_of(a[1][axis:])
            out.extend(a[2][k * n:(k + 1) * n])
    sh = parts[0][1]
    return I.alloc(("arr", sh[:axis] + (sum(a[1][axis] for a in parts),) + sh[axis + 1:], tuple(out)))


def const_axis(I, args, kw, at_, default):
    x = I.freeze(kw["axis"]) if "axis" in kw else I.freeze(args[at_]) if len(args) > at_ else c(default)
    return x.a[0] if tm.is_int_const(x) else None


@N("concatenate")
def _np_concatenate(I, args, kw):
    parts = blocks(I, args[0]) if args and not set(kw) - {"axis"} and len(args) <= 2 else None
    axis = const_axis(I, args, kw, 1, 0)
    if parts is None or axis is None:
        return None
    return join_axis(I, parts, axis)


@N("vstack")
def _np_vstack(I, args, kw):
    parts = blocks(I, args[0]) if len(args) == 1 and not kw else None
    if parts is None:
        return None
    return join_axis(I, [("arr", (1,) + a[1], a[2]) if len(a[1]) == 1 else a for a in parts], 0)


@N("hstack")
def _np_hstack(I, args, kw):
    parts = blocks(I, args[0]) if len(args) == 1 and not kw else None
    if parts is None:
        return None
    return join_axis(I, parts, 0 if len(parts[0][1]) == 1 else 1)


@N("stack")
def _np_stack(I, args, kw):
    parts = blocks(I, args[0]) if args and not set(kw) - {"axis"} and len(args) <= 2 else None
    axis = const_axis(I, args, kw, 1, 0)
    if parts is None or axis is None or axis < 0 or axis > len(parts[0][1]) or any(a[1] != parts[0][1] for a in parts):
        return None
    return join_axis(I, [("arr", a[1][:axis] + (1,) + a[1][axis:], a[2]) for a in parts], axis)


@N("outer")
def _np_outer(I, args, kw):
    x, y = (to_arr(I, a) for a in args) if len(args) == 2 and not kw else (None, None)
    if x is None or y is None:
        return None
    return I.alloc(("arr", (len(x[2]), len(y[2])), tuple(I.binop("*", p, q) for p in x[2] for q in y[2])))


@N("arange")
def _np_arange(I, args, kw):
    xs = [I.freeze(a) for a in args]
    if not 1 <= len(xs) <= 3 or set(kw) - {"dtype"} or not all(tm.is_int_const(x) for x in xs):
        return None
    ns = list(range(*[x.a[0] for x in xs]))
    return I.alloc(("arr", (len(ns),), tuple(c(n) for n in ns))) if ns else None


@N("matmul")
def _np_matmul(I, args, kw):
    return I.binop("@", args[0], args[1]) if len(args) == 2 and not kw else None


@N("diag_indices")
def _np_diag_indices(I, args, kw):
    n = I.freeze(args[0]) if args else NONE
    if len(args) != 1 or kw or not tm.is_int_const(n):
        return None
    row = lambda: seq_of("list", [c(k) for k in range(n.a[0])])
    return seq_of("tuple", [row(), row()])


@N("diag")
def _np_diag(I, args, kw):
    a = to_arr(I, args[0]) if len(args) == 1 and not kw else None
    if a is None:
        return None
    if len(a[1]) == 1:
        n = a[1][0]
        return I.alloc(("arr", (n, n), tuple(a[2][i] if i == j else ZERO for i in range(n) for j in range(n))))
    if len(a[1]) == 2:
        m, n = a[1]
        return I.alloc(("arr", (min(m, n),), tuple(a[2][k * n + k] for k in range(min(m, n)))))
    return None


@N("eye", "identity")
def _np_eye(I, args, kw):
    n = I.freeze(args[0])
    m = I.freeze(args[1]) if len(args) > 1 else I.freeze(kw.get("M", n))
    m = n if m is NONE else m
    if not tm.is_int_const(n) or not tm.is_int_const(m) or len(args) > 2 or set(kw) - {"dtype", "M"}:
        return None
    n, m = n.a[0], m.a[0]
    return I.alloc(("arr", (n, m), tuple(ONE if i == j else ZERO for i in range(n) for j in range(m))))


def to_arr(I, x):
    """array cell of a nested list of known shape, or None"""
    if x.h == "ref":
        cell = I.cell(x)
        if cell[0] == "arr":
            return cell
        if cell[0] == "list":
            x = cell[1]
        elif cell[0] == "iter":
            return None
    if x.h == "arr":
        return ("arr", x.a[0], x.a[1])
    if x.h == "seq":
        if not all(g.h == "el" for g in x.a[1]):
            return None
        subs = [to_arr(I, g.a[0]) for g in x.a[1]]
        if all(s is None for s in subs):
            if I is not None and all(I.inst_class(g.a[0]) is not None for g in x.a[1]):
                return ("arr", (len(subs),), tuple(I.freeze(g.a[0]) for g in x.a[1]))
            if any(g.a[0].h in ("seq", "ref") or tm.is_seq_ty(ty(g.a[0])) or ty(g.a[0]) == "array" for g in x.a[1]):
                return None
            return ("arr", (len(subs),), tuple(g.a[0] for g in x.a[1]))
        if any(s is None for s in subs) or len({s[1] for s in subs}) != 1:
            return None
        return ("arr", (len(subs),) + subs[0][1], tuple(v for s in subs for v in s[2]))
    return None


@N("array", "asarray")
def _np_array(I, args, kw):
    a = to_arr(I, args[0])
    if a is not None and size_of(a[1]) > 0:
        if all(ty(v) in tm.NUMERIC or ty(v) in GEM or v.h in ("ite", "inst") or ty(v) is None for v in a[2]):
            return I.alloc(a)
    x = I.freeze(args[0])
    if ty(x) == "array" and (len(args) == 1 and not kw):
        return x
    if ty(x) in tm.NUMERIC and len(args) == 1 and not kw:
        return x    # an array without dimensions
    if len(args) == 1 and not kw:
        if x.h == "seq" and len(x.a[1]) == 1 and x.a[1][0].h == "el" and ty(x.a[1][0].a[0]) == "array":
            r = views.with_new_axes(I, x.a[1][0].a[0], NONE)
            if r is not None:
                return r
        return views.np_array_seq(x)
    return None


@N("zeros_like")
def _np_zl(I, args, kw):
    a = to_arr(I, args[0])
    if a is not None:
        return I.alloc(("arr", a[1], (ZERO,) * len(a[2])))
    return None


@N("ndindex")
def _np_ndindex(I, args, kw):
    if len(args) == 1:
        s = I.freeze(I.as_seq(args[0])) if not tm.is_int_const(args[0]) else seq_of("tuple", [args[0]])
    else:
        s = seq_of("tuple", [I.freeze(a) for a in args])

    def f(x):
        # a cartesian product of ranges
        if x.h == "seq" and all(g.h == "el" for g in x.a[1]):
            return I.as_seq(MODELS["itertools.product"](I, [MODELS["builtins.range"](I, [g.a[0]], {}) for g in x.a[1]], {}))
        return mk("ndindex", x)
    return lift(f, s)


def flat_pos(sh, idx):
    pos = 0
    for k, n in zip(idx, sh):
        if k < 0:
            k += n
        if not 0 <= k < n:
            return None
        pos = pos * n + k
    return pos


def is_ellipsis(k):
    return isc(k) and k.a[0] is Ellipsis or k.h == "ext" and k.a[0] == "Ellipsis"


def sel_axes(I, sh, k):
    """per-axis index lists for a numpy style key; None if symbolic"""
    ks = [g.a[0] for g in k.a[1]] if k.h == "seq" and k.a[0] == "tuple" and all(g.h == "el" for g in k.a[1]) else [k]
    if k.h == "app" and k.a[0] is mk("ext", "numpy.ix_"):
        axes = []
        for x in k.a[1]:
            v = ints_of(I, x)
            if v is None:
                return None
            axes.append(v)
        for n in sh[len(axes):]:
            axes.append(list(range(n)))
        return axes, [False] * len(axes), None
    axes, drop = [], []
    ell = [i for i, x in enumerate(ks) if is_ellipsis(x)]
    if ell:
        i = ell[0]
        ks = ks[:i] + [mk("slc", NONE, NONE, NONE)] * (len(sh) - len(ks) + 1) + ks[i + 1:]
    if len(ks) > len(sh):
        if all(tm.is_int_const(x) or x.h == "slc" for x in ks):
            I.raise_name("IndexError", "too many indices for array")
        return None
    fancy = []
    for x, n in zip(ks, sh):
        x = I.freeze(x)
        if tm.is_int_const(x):
            j = x.a[0] + (n if x.a[0] < 0 else 0)
            if not 0 <= j < n:
                I.raise_name("IndexError", "array index out of range")
            axes.append([j])
            drop.append(True)
        elif x.h == "slc":
            b = []
            for y in x.a:
                if y is NONE:
                    b.append(None)
                elif tm.is_int_const(y):
                    b.append(y.a[0])
                else:
                    return None
            axes.append(list(range(n))[slice(*b)])
            drop.append(False)
        else:
            v = ints_of(I, x)
            if v is None:
                return None
            v = [j + n if j < 0 else j for j in v]
            if any(not 0 <= j < n for j in v):
                I.raise_name("IndexError", "array index out of range")
            axes.append(v)
            drop.append(False)
            fancy.append(len(axes) - 1)
    for n in sh[len(ks):]:
        axes.append(list(range(n)))
        drop.append(False)
    return axes, drop, (fancy if len(fancy) > 1 else None)


def ints_of(I, x):
    x = I.freeze(x)
    vs = x.a[1] if x.h == "arr" and len(x.a[0]) == 1 else [g.a[0] for g in x.a[1]] if x.h == "seq" and all(g.h == "el" for g in x.a[1]) else []
    if vs and all(v is TRUE or v is FALSE for v in vs):
        # a mask
        return [k for k, v in enumerate(vs) if v is TRUE]
    if x.h == "arr" and len(x.a[0]) == 1 and all(tm.is_int_const(v) for v in x.a[1]):
        return [v.a[0] for v in x.a[1]]
    if x.h == "seq" and all(g.h == "el" and tm.is_int_const(g.a[0]) for g in x.a[1]):
        return [g.a[0].a[0] for g in x.a[1]]
    return None


def positions(sh, axes, drop, fancy):
    import itertools
    if fancy:
        n = max(len(axes[f]) for f in fancy)
        cols = {f: (axes[f] * n if len(axes[f]) == 1 else axes[f]) for f in fancy}
        out = []
        rest = [a for i, a in enumerate(axes) if i not in fancy]
        for j in range(n):
            for r in itertools.product(*rest):
                it = iter(r)
                out.append(flat_pos(sh, [cols[i][j] if i in fancy else next(it) for i in range(len(sh))]))
        shape = (n,) + tuple(len(a) for i, a in enumerate(axes) if i not in fancy and not drop[i])
        return out, shape
    out = [flat_pos(sh, t) for t in itertools.product(*axes)]
    shape = tuple(len(a) for a, d in zip(axes, drop) if not d)
    return out, shape


def arr_get(I, cell, k, o=None):
    k = I.freeze(k)
    if k.h == "ite":
        g, x, y = k.a
        return I.fork(atom(g), lambda: arr_get(I, cell, x, o), lambda: arr_get(I, cell, y, o))
    r = sel_axes(I, cell[1], k)
    if r is None:
        if len(cell[1]) == 1 and k.h not in ("seq", "slc"):
            return at(seq_of("tuple", [I.freeze(v) for v in cell[2]]), k)
        return mk("at", mk("arr", cell[1], tuple(I.freeze(v) for v in cell[2])), k)
    pos, shape = positions(cell[1], *r)
    if len(shape) == 0:
        return cell[2][pos[0]]
    if o is not None and basic(k):
        return I.arr_view(o, pos, shape)
    return I.alloc(("arr", shape, tuple(cell[2][p] for p in pos)))


def basic(k):
    """integers and slices only: numpy returns a view"""
    ks = [g.a[0] for g in k.a[1]] if k.h == "seq" and k.a[0] == "tuple" and all(g.h == "el" for g in k.a[1]) else [k]
    return all(tm.is_int_const(x) or x.h == "slc" or is_ellipsis(x) for x in ks)


def arr_set(I, cell, k, v):
    k = I.freeze(k)
    r = sel_axes(I, cell[1], k)
    if r is None:
        return ("any", top("array item assignment at unknown position"))
    pos, shape = positions(cell[1], *r)
    data = list(cell[2])
    if not shape:
        data[pos[0]] = v
        return ("arr", cell[1], tuple(data))
    a = to_arr(I, v)
    if a is None:
        if ty(I.freeze(v)) == "array" or v.h == "ref":
            return ("any", top("array assignment from unknown array"))
        vals = [v] * len(pos)
    else:
        vals = broadcast(a, shape)
        if vals is None:
            I.raise_name("ValueError", "could not broadcast")
    for p, x in zip(pos, vals):
        data[p] = x
    return ("arr", cell[1], tuple(data))


def broadcast(a, shape):
    import itertools
    sh = (1,) * (len(shape) - len(a[1])) + a[1]
    while len(sh) > len(shape) and sh[0] == 1:
        sh = sh[1:]
    if len(sh) != len(shape) or any(s != n and s != 1 for s, n in zip(sh, shape)):
        return None
    out = []
    for t in itertools.product(*[range(n) for n in shape]):
        out.append(a[2][flat_pos(sh, [0 if s == 1 else i for i, s in zip(t, sh)])])
    return out


def arr_op(I, op, a, b):
    x, y = to_arr(I, a), to_arr(I, b)
    if op == "@":
        if x is None or y is None:
            return top("matrix product")
        return arr_dot(I, x, y)
    if x is None and y is None:
        return top("array operation")

    def other(z):
        z = I.freeze(z)
        if ty(z) == "array" or tm.is_seq_ty(ty(z)):
            return None
        return ("arr", (), (z,))
    x = x if x is not None else other(a)
    y = y if y is not None else other(b)
    if x is None or y is None:
        return top("array operation with unknown array")
    n = max(len(x[1]), len(y[1]))
    s1, s2 = (1,) * (n - len(x[1])) + x[1], (1,) * (n - len(y[1])) + y[1]
    shape = tuple(max(p, q) if p and q else 0 for p, q in zip(s1, s2))
    xs, ys = broadcast(("arr", x[1], x[2]), shape), broadcast(("arr", y[1], y[2]), shape)
    if xs is None or ys is None:
        I.raise_name("ValueError", "could not broadcast")
    return I.alloc(("arr", shape, tuple(I.freeze(I.binop(op, p, q)) for p, q in zip(xs, ys))))


def arr_compare(I, op, a, b):
    """elementwise order of an array of known shape"""
    if not any(v.h == "arr" or v.h == "ref" and I.cell(v)[0] == "arr" for v in (a, b)):
        return None
    x, y = to_arr(I, a), to_arr(I, b)
    x = x if x is not None else ("arr", (), (I.freeze(a),))
    y = y if y is not None else ("arr", (), (I.freeze(b),))
    shape = x[1] if len(x[1]) >= len(y[1]) else y[1]
    xs, ys = broadcast(x, shape), broadcast(y, shape)
    if xs is None or ys is None:
        return top("array comparison")
    return I.alloc(("arr", shape, tuple(I.compare(op, p, q) for p, q in zip(xs, ys))))


def arr_dot(I, x, y):
    if len(x[1]) == 1 and len(y[1]) == 1:
        r = ZERO
        for p, q in zip(x[2], y[2]):
            r = I.binop("+", r, I.binop("*", p, q))
        return I.freeze(r)
    xs = x if len(x[1]) == 2 else ("arr", (1,) + x[1], x[2])
    ys = y if len(y[1]) == 2 else ("arr", y[1] + (1,), y[2])
    if len(xs[1]) != 2 or len(ys[1]) != 2 or xs[1][1] != ys[1][0]:
        return top("matrix product shape")
    (m, k), (k2, n) = xs[1], ys[1]
    out = []
    for i in range(m):
        for j in range(n):
            r = ZERO
            for l in range(k):
                p, q = xs[2][i * k + l], ys[2][l * n + j]
                if p is ZERO or q is ZERO:
                    continue
                r = I.binop("+", r, I.binop("*", p, q))
            out.append(r)
    sh = (m, n)
    if len(x[1]) == 1:
        sh = (n,)
    elif len(y[1]) == 1:
        sh = (m,)
    return I.alloc(("arr", sh, tuple(out)))


@N("dot")
def _np_dot(I, args, kw):
    x, y = to_arr(I, args[0]), to_arr(I, args[1])
    if x is None or y is None:
        return None
    return arr_dot(I, x, y)


def _np_norm(I, args, kw):
    if len(args) != 1 or kw:
        return None
    a = to_arr(I, args[0])
    if a is None:
        return None
    r = ZERO
    for x in a[2]:
        r = I.binop("+", r, I.binop("*", x, x))
    return lift(tm.sqrt, I.freeze(r))


MODELS["numpy.linalg.norm"] = _np_norm


@model("numpy.sqrt", "math.sqrt")
def _np_sqrt(I, args, kw):
    x = I.freeze(args[0])
    if len(args) != 1 or kw or not (ty(x) in tm.NUMERIC or tm.is_num_const(x)):
        return None
    return lift(tm.sqrt, x)


@N("cross")
def _np_cross(I, args, kw):
    if len(args) != 2 or kw:
        return None
    x, y = to_arr(I, args[0]), to_arr(I, args[1])
    if x is None or y is None or x[1] != (3,) or y[1] != (3,):
        return None

    def minor(i, j):
        return I.binop("-", I.binop("*", x[2][i], y[2][j]), I.binop("*", x[2][j], y[2][i]))
    return I.alloc(("arr", (3,), (minor(1, 2), minor(2, 0), minor(0, 1))))


def arr_attr(I, o, cell, name):
    if name == "shape":
        return seq_of("tuple", [c(n) for n in cell[1]])
    if name == "ndim":
        return c(len(cell[1]))
    if name == "size":
        return c(size_of(cell[1]))
    if name == "T":
        return arr_transpose(I, cell, o)
    return None


def arr_transpose(I, cell, o=None):
    import itertools
    sh = cell[1]
    if o is not None and o.h == "ref":
        return I.arr_view(o, [flat_pos(sh, t[::-1]) for t in itertools.product(*[range(n) for n in sh[::-1]])], sh[::-1])
    out = [cell[2][flat_pos(sh, t[::-1])] for t in itertools.product(*[range(n) for n in sh[::-1]])]
    return I.alloc(("arr", sh[::-1], tuple(out)))


def arr_method(I, o, cell, name, args, kw):
    if name in ("all", "any") and not args and not kw:
        return (tm.and_ if name == "all" else tm.or_)(*[I.truth(v) for v in cell[2]])
    if name == "ravel" and o.h == "ref":
        return I.arr_view(o, range(len(cell[2])), (len(cell[2]),))
    if name in ("flatten", "ravel"):
        return I.alloc(("arr", (len(cell[2]),), cell[2]))
    if name == "copy" or name == "astype":
        return I.alloc(cell)
    if name == "tolist":
        def rec(sh, data):
            if len(sh) == 1:
                return I.new_list([el(v) for v in data])
            w = len(data) // sh[0]
            return I.new_list([el(rec(sh[1:], data[i * w:(i + 1) * w])) for i in range(sh[0])])
        return rec(cell[1], cell[2])
    if name == "transpose" and not args:
        return arr_transpose(I, cell, o)
    if name == "reshape":
        a = args if len(args) > 1 else args[:1]
        sh = shape_const(I, seq_of("tuple", [I.freeze(x) for x in a])) if len(a) > 1 else shape_const(I, a[0])
        if sh is not None:
            if -1 in sh:
                rest = 1
                for n in sh:
                    if n != -1:
                        rest *= n
                sh = tuple(len(cell[2]) // rest if n == -1 else n for n in sh)
            if size_of(sh) == len(cell[2]):
                if o.h == "ref":
                    return I.arr_view(o, range(len(cell[2])), sh)
                return I.alloc(("arr", sh, cell[2]))
    if name == "fill":
        v = I.freeze(args[0])
        I.setcell(o, ("arr", cell[1], (v,) * len(cell[2])))
        return NONE
    if name == "dot":
        y = to_arr(I, args[0])
        if y is not None:
            return arr_dot(I, cell, y)
    return top("array method %s" % name)


# ---------------------------------------------------------------- installation

def fixed_len(t, n, types):
    """a tuple of known length with per-component types"""
    return seq_of("tuple", [mk("comp", t, k, types[k]) for k in range(n)])


def _dual_basis(I, o):
    t = mk("attr", o, "dual_basis")
    return seq_of("tuple", [mk("comp", t, 0, "gem"), mk("comp", t, 1, "PointSet")])


def _split_slices(I, args, kw):
    # FIAT.reference_element.TensorProductCell._split_slices: consecutive slices
    s = I.freeze(I.as_seq(args[0]))

    def f(x):
        out = []
        pre = prefix_sums(x if x.h == "seq" else seq("list", [sp(x)]))

        def body(e, k):
            return seq_of("list", [mk("slc", sub(at(pre, k), e), at(pre, k), NONE)])
        r = tm.map_seq("list", x, body)
        return I.alloc(("list", r))
    return lift(f, s) if s.h != "ite" else None


def install(I):
    setup_types()
    MODELS["numpy.moveaxis"] = views.np_moveaxis
    I.gem_hook = lambda op, args: gem_hook(I, op, args)
    I.gem_attr = lambda o, k, name: gem_attr(I, o, k, name)
    I.gem_rows = lambda o: gem_rows(I, o)
    I.compare_hook = arr_compare
    I.gem_getitem = lambda o, k: gem_getitem(I, o, k)
    I.proto_isinstance = lambda x, t, k: proto_isinstance(I, x, t, k)
    I.arr_op = lambda op, a, b: arr_op(I, op, a, b)
    I.arr_get = lambda cell, k, o=None: arr_get(I, cell, k, o)
    I.arr_set = lambda cell, k, v: arr_set(I, cell, k, v)
    I.arr_attr = lambda o, cell, name: arr_attr(I, o, cell, name)
    I.arr_method = lambda o, cell, name, args, kw: arr_method(I, o, cell, name, args, kw)
    I.models.update(MODELS)
    I.models["FIAT.reference_element.TensorProductCell._split_slices"] = _split_slices
    I.proto_class = dict(PROTO_BASE)
    I.proto_concrete = {"Element": {"get_indices", "get_value_indices"}}
    I.attr_models[("Element", "dual_basis")] = _dual_basis


from . import views  # noqa: E402


def size_of_index_shape(n, var, x):
    """an element has as many basis functions as its index shape says"""
    if x.h == "at" and x.a[1] is var and x.a[0].h == "attr" and x.a[0].a[1] == "index_shape" and ty(x.a[0].a[0]) == "Element" \
            and n is length(x.a[0]):
        return tm.app(tm.attr(x.a[0].a[0], "space_dimension"), (), ())
    return None


tm.PROD_RULES.append(size_of_index_shape)
