"""C24: linear expressions and the constraints compared from them."""
from lp import *

EQM = "pytimize.formulations.linear._equation"
VARM = "pytimize.formulations.linear._variable"
CONM = "pytimize.formulations.linear._constraint"


class E:
    """The affine function an expression denotes: coefficient of every position, constant, and which positions it mentions."""

    def __init__(self, ctx, dom, val, const):
        self.dom, self.val, self.const = dom, val, const

    def co(self, j):
        return z3.If(S(self.dom, j), S(self.val, j), R0)


NO = z3.K(IntS, z3.BoolVal(False))
ZERO = z3.K(IntS, R0)


def meaning(ctx, v):
    """What a number, a variable or an expression denotes."""
    if isinstance(v, Obj) and v.cls.name == "LinearEquation":
        d = attr(v, "_terms")
        if isinstance(d, LazyDict) and d.real is None:
            return E(ctx, NO, ZERO, real(attr(v, "_constant")))
        d = typed(d, IntS, RealS)
        return E(ctx, d.dom, d.val, real(attr(v, "_constant")))
    if isinstance(v, Obj) and v.cls.name == "Variable":
        k = term(attr(v, "_key"))
        return E(ctx, z3.Store(NO, k, True), z3.Store(ZERO, k, R1), R0)
    if is_num(v):
        return E(ctx, NO, ZERO, real(v))
    raise Unsupported(f"{v!r} is not an expression")


def number(ctx, name):
    t = ctx.fresh(name, RealS)
    if ctx.choose(2) == 0:
        return SV(t, "float")
    ctx.assume(z3.IsInt(t))
    return SV(t, "int")


def expression(ctx, name, kind=None):
    """kind 0: a number, 1: a variable, 2: an expression, 3: an expression without variables."""
    kind = ctx.choose(4) if kind is None else kind
    if kind == 0:
        return number(ctx, name)
    if kind == 1:
        o = Obj(ctx, cls(ctx, VARM, "Variable"))
        k = ctx.fresh(name + "_key", IntS)
        ctx.assume(k >= 0)
        o.attrs["_key"] = SV(k)
        return o
    o = Obj(ctx, cls(ctx, EQM, "LinearEquation"))
    o.attrs["_constant"] = number(ctx, name + "_constant") if kind == 2 else SV(ctx.fresh(name + "_constant", RealS), "float")
    if kind == 3:
        o.attrs["_terms"] = LazyDict(ctx)
        return o
    d = new_dict(ctx, name + "_terms", IntS, RealS)
    j, w = z3.Int("j_"), ctx.fresh(name + "_some", IntS)
    ctx.assume(z3.ForAll([j], z3.Implies(S(d.dom, j), j >= 0), patterns=[S(d.dom, j)]))
    ctx.assume(S(d.dom, w))
    o.attrs["_terms"] = d
    return o


class Same:
    """Remembers an operand, to state that it was not changed."""

    def __init__(self, ctx, v):
        self.ctx, self.v, self.m = ctx, v, meaning(ctx, v)
        if isinstance(v, Obj):
            self.attrs = dict(v.attrs)
            self.ver = [version(x) for x in v.attrs.values()]

    def ensure(self, what):
        if isinstance(self.v, Obj):
            ok = self.v.attrs == self.attrs and all(self.v.attrs[k] is self.attrs[k] for k in self.attrs) and [version(x) for x in self.v.attrs.values()] == self.ver
            self.ctx.ensure(f"{what} does not change its operands", ok)


def eq_loops():
    """Adding term by term; the vector of coefficients term by term."""
    def terms(o):
        d = attr(o, "_terms")
        return typed(d, IntS, RealS)

    def enter_add(L):
        d = terms(L["result"])
        L.g["dom"], L.g["val"] = d.dom, d.val
        o = meaning(L.ctx, L["other"])
        L.g["odom"], L.g["oval"] = o.dom, o.val

    def inv_add(L):
        d, g = terms(L["result"]), L.g
        j = z3.Int("j_")
        done = S(L.done, j)
        mine = z3.If(S(g["dom"], j), S(g["val"], j), R0)
        return [("the terms are those added so far", z3.ForAll([j], S(d.dom, j) == z3.Or(S(g["dom"], j), done), patterns=[S(d.dom, j)])),
                ("each coefficient is the sum so far", z3.ForAll([j], z3.Implies(S(d.dom, j), S(d.val, j) == mine + z3.If(done, S(g["oval"], j), R0)), patterns=[S(d.val, j)])),
                ("only the terms of the other are added", z3.ForAll([j], z3.Implies(done, S(g["odom"], j)), patterns=[S(L.done, j)]))]

    def enter_co(L):
        m = meaning(L.ctx, L["self"])
        L.g["dom"], L.g["val"] = m.dom, m.val

    def inv_co(L):
        a, g = L["coefficients"], L.g
        if not isinstance(a, Nd) or a.nd != 1:
            raise Unsupported(f"coefficients are {a!r}")
        f, j = a.real_fn(), z3.Int("j_")
        n = a.dims[0]
        arr = a.arr()
        return [("the coefficients written so far", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), S(arr, j) == z3.If(S(L.done, j), S(g["val"], j), R0)), patterns=[S(arr, j)])),
                ("only terms are written", z3.ForAll([j], z3.Implies(S(L.done, j), S(g["dom"], j)), patterns=[S(L.done, j)]))]
    return {("LinearEquation.__add__", 0): LoopSpec(inv_add, enter=enter_add, mods=lambda L: [terms(L["result"])]),
            ("LinearEquation.coefficients", 0): LoopSpec(inv_co, enter=enter_co, mods=lambda L: [L["coefficients"]])}


def interp24(ctx):
    return Interp(ctx, ctx.program, eq_loops(), {})


def outcome(f):
    try:
        return Outcome(f(), None)
    except PyRaise as e:
        return Outcome(None, e)


def denotes(ctx, what, r, co, const):
    """The result is an expression with these coefficients and this constant."""
    m = meaning(ctx, r)
    j = ctx.fresh("j", IntS)
    ctx.ensure(f"{what}: the coefficients", z3.Implies(j >= 0, m.co(j) == co(j)))
    ctx.ensure(f"{what}: the constant", m.const == const)
    ctx.ensure(f"{what}: only positions from zero on", z3.Implies(S(m.dom, j), j >= 0))
    return m


AST = I.ast
OPS = [("+", AST.Add(), 1), ("-", AST.Sub(), -1)]
EQF = ["LinearEquation." + n for n in ("__init__", "__neg__", "__pos__", "__add__", "__radd__", "__iadd__", "__sub__", "__rsub__", "__isub__", "__mul__", "__rmul__")]
VF = ["Variable." + n for n in ("__mul__", "__rmul__", "__imul__", "__pos__", "__neg__", "__add__", "__radd__", "__iadd__", "__sub__", "__rsub__", "__isub__", "equation", "key")]


@unit("expressions: sums and differences", "C24", functions=EQF + VF, limit=150)
def u_sums(ctx):
    name, op, sign = OPS[ctx.choose(2)]
    ka = ctx.choose(4)
    kb = ctx.choose(4)
    if ka == 0 and kb == 0:
        return
    inplace = ctx.choose(2) == 1
    a, b = expression(ctx, "a", ka), expression(ctx, "b", kb)
    sa, sb = Same(ctx, a), Same(ctx, b)
    it = interp24(ctx)
    out = outcome(lambda: it.inplace(op, a, b) if inplace else it.binop(op, a, b))
    what = f"a {name}{'=' if inplace else ''} b"
    ctx.ensure(f"{what} does not raise", not out.raised)
    sa.ensure(what)
    sb.ensure(what)
    if out.raised:
        return
    x, y = sa.m, sb.m
    m = denotes(ctx, what, out.value, lambda j: x.co(j) + (y.co(j) if sign == 1 else -y.co(j)), x.const + (y.const if sign == 1 else -y.const))
    j = ctx.fresh("j", IntS)
    ctx.ensure(f"{what}: mentions the variables of both", S(m.dom, j) == z3.Or(S(x.dom, j), S(y.dom, j)))
    ctx.reach("sum returns")


@unit("expressions: signs and multiples", "C24", functions=EQF + VF, limit=100)
def u_multiples(ctx):
    which = ctx.choose(5)
    a = expression(ctx, "a", 1 + ctx.choose(3))
    sa = Same(ctx, a)
    it = interp24(ctx)
    k = number(ctx, "factor")
    what = ("-a", "+a", "a * k", "k * a", "a *= k")[which]
    if which < 2:
        out = outcome(lambda: it.call(it.getattr(a, ("__neg__", "__pos__")[which]), []))
    elif which == 4:
        out = outcome(lambda: it.inplace(AST.Mult(), a, k))
    else:
        out = outcome(lambda: it.binop(AST.Mult(), *((a, k) if which == 2 else (k, a))))
    ctx.ensure(f"{what} does not raise", not out.raised)
    sa.ensure(what)
    if out.raised:
        return
    f = R0 - R1 if which == 0 else R1 if which == 1 else real(k)
    x = sa.m
    m = denotes(ctx, what, out.value, lambda j: f * x.co(j), f * x.const)
    j = ctx.fresh("j", IntS)
    ctx.ensure(f"{what}: mentions the same variables", S(m.dom, j) == S(x.dom, j))
    ctx.reach("multiple returns")


@unit("expressions: x[i], variables and coefficients", "C24", functions=["MetaVariable.__getitem__", "LinearEquation.coefficients", "LinearEquation.constant", "LinearEquation.terms"], limit=60)
def u_atoms(ctx):
    it = interp24(ctx)
    which = ctx.choose(2)
    if which == 0:
        k = ctx.fresh("k", IntS)
        out = it.run(Obj(ctx, cls(ctx, VARM, "MetaVariable")), "__getitem__", SV(k))
        if out.raised:
            raised(ctx, out, "ValueError", "x[i] raises nothing but ValueError")
            ctx.ensure("x[i] refuses only positions before one", k <= 0)
            return
        ctx.ensure("x[i] needs a position from one on", k >= 1)
        denotes(ctx, "x[i]", out.value, lambda j: z3.If(j == k - 1, R1, R0), R0)
        return
    a = expression(ctx, "a", 2 + ctx.choose(2))
    sa = Same(ctx, a)
    out = outcome(lambda: it.getattr(a, "coefficients"))
    ctx.ensure("coefficients does not raise", not out.raised)
    sa.ensure("coefficients")
    if out.raised:
        return
    vector(ctx, "coefficients", out.value, sa.m.co, sa.m.dom)
    ctx.ensure("constant reports the constant", real(it.getattr(a, "constant")) == sa.m.const)


def vector(ctx, what, v, co, dom):
    """v is the vector of the coefficients up to the highest position mentioned, or None when there is none."""
    j = ctx.fresh("j", IntS)
    if v is None:
        ctx.ensure(f"{what}: nothing only for constants", z3.Not(S(dom, j)))
        return
    if not isinstance(v, Nd) or v.nd != 1:
        ctx.ensure(f"{what}: a vector", False)
        return
    n, f = v.dims[0], v.real_fn()
    ctx.ensure(f"{what}: the entries", z3.Implies(z3.And(0 <= j, j < n), f(j) == co(j)))
    ctx.ensure(f"{what}: no position is left out", z3.Implies(S(dom, j), z3.And(0 <= j, j < n)))
    ctx.ensure(f"{what}: it ends with the highest position mentioned", z3.Or(n == 0, S(dom, n - 1)))


REL = [("<=", "LtE", LE, GE), (">=", "GtE", GE, LE), ("==", "Eq", EQ, EQ)]


@unit("expressions: comparisons", "C24", functions=["LinearEquation.__le__", "LinearEquation.__ge__", "LinearEquation.__eq__", "LinearEquation._generate_constraint", "LinearEquation._broadcast_subtract", "LinearEquation.coefficients", "Variable.__le__", "Variable.__ge__", "Variable.__eq__", "pad_right", "LinearConstraint.__init__", "VariableConstraint.__init__"], limit=200)
def u_compare(ctx):
    name, op, rel, flipped = REL[ctx.choose(3)]
    ka, kb = ctx.choose(4), ctx.choose(4)
    if ka == 0 and kb == 0:
        return
    a, b = expression(ctx, "a", ka), expression(ctx, "b", kb)
    sa, sb = Same(ctx, a), Same(ctx, b)
    it = interp24(ctx)
    out = outcome(lambda: it.compare(op, a, b))
    sa.ensure("a comparison")
    sb.ensure("a comparison")
    x, y = sa.m, sb.m
    if ka == 0:  # number on the left: Python turns it around
        x, y, rel = y, x, flipped
        a, b, ka, kb = b, a, kb, ka
    j = ctx.fresh("j", IntS)
    dom = lambda i: z3.Or(S(x.dom, i), S(y.dom, i))
    if out.raised:
        raised(ctx, out, "ValueError", "a comparison raises nothing but ValueError")
        ctx.ensure("only comparisons without variables are rejected", z3.Not(dom(j)))
        return
    r = out.value
    if not isinstance(r, Obj):
        ctx.ensure("a comparison gives a constraint", False)
        return
    if r.cls.name == "VariableConstraint":
        ctx.ensure("only a variable compared with zero is a sign restriction", ka == 1 and kb == 0 and name != "==")
        ctx.ensure("a sign restriction compares with zero", y.const == 0)
        for n, want in (("_positive_variables", rel is GE), ("_negative_variables", rel is LE)):
            w = attr(r, n)
            if want:
                ok = isinstance(w, PList) and len(w.items) == 1
                ctx.ensure("a sign restriction names its variable, counted from one", term(w.items[0]) == term(attr(a, "_key")) + 1 if ok else False)
            else:
                ctx.ensure("a sign restriction restricts one way", w is None)
        return
    ctx.ensure("a comparison gives a linear constraint", r.cls.name == "LinearConstraint")
    ctx.ensure("a variable compared with zero is a sign restriction", z3.Not(z3.And(z3.BoolVal(ka == 1 and kb == 0 and name != "=="), y.const == 0)))
    v = attr(r, "_coefficients")
    w = ctx.fresh("w", IntS)
    ctx.ensure("a constraint has variables", v is not None)
    if v is None:
        return
    if not isinstance(v, Nd) or v.nd != 1:
        raise Unsupported(f"coefficients {v!r}")
    n, f = v.dims[0], v.real_fn()
    ctx.ensure("the constraint has the variables on the left", z3.Implies(z3.And(0 <= j, j < n), f(j) == x.co(j) - y.co(j)))
    ctx.ensure("the constraint leaves no variable out", z3.Implies(dom(j), z3.And(0 <= j, j < n)))
    ctx.ensure("the constraint ends with the highest variable", z3.And(n > 0, dom(n - 1)))
    ctx.ensure("the constraint has the relation written", term(attr(r, "_inequality")) == rel)
    ctx.ensure("the constraint has the constants on the right", real(attr(r, "_constant")) == y.const - x.const)
    ctx.reach("comparison returns")
