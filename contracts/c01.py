"""C01: tolerant comparisons. Contracts of Comparator, used at every call site elsewhere."""
from unit import *
import nd
from nd import Nd, quantify

CMP = "pytimize.utilities._comparator"
TOL = z3.Q(1, 10**10)


def near0(v):
    return z3.And(v < TOL, v > -TOL)


def near(v, t):
    """v is within tolerance of t."""
    return z3.If(t == 0, near0(v), nd.close(v, t)) if not z3.is_rational_value(t) else (near0(v) if t.as_fraction() == 0 else nd.close(v, t))


def cmp(v, op, t):
    return {">=": z3.Or(near(v, t), v >= t), "<=": z3.Or(near(v, t), v <= t),
            ">": z3.And(z3.Not(near(v, t)), v > t), "<": z3.And(z3.Not(near(v, t)), v < t)}[op]


def integral(v):
    d = v - z3.ToReal(z3.ToInt(v))
    return z3.Or(d < TOL, 1 - d < TOL)


def lift(ctx, v, f):
    """f of a number, or of every entry of an array."""
    if isinstance(v, Nd):
        g = v.real_fn()
        return quantify(ctx, v.dims, lambda *p: f(g(*p)))
    return f(real(v))


def result(t):
    return from_term(z3.simplify(t) if not z3.is_quantifier(t) else t)


def c_compare(interp, v):
    op = v["comparison"]
    if not isinstance(op, str):
        raise Unsupported("comparison by an unknown operator")
    if op not in (">=", "<=", ">", "<"):
        raise PyRaise("ValueError", "is_close_compare")
    t = real(v["test"])
    return result(lift(interp.ctx, v["value"], lambda x: cmp(x, op, t)))


def c_zero(interp, v):
    if isinstance(v["value"], Nd):
        return nd.pointwise(interp, [v["value"]], lambda a: near0(nd.to_real(a)), "bool")
    return result(near0(real(v["value"])))


CONTRACTS = {
    "Comparator.is_close_compare": Contract(c_compare),
    "Comparator.is_close_to_zero": Contract(c_zero),
    "Comparator.is_negative": Contract(lambda i, v: result(lift(i.ctx, v["value"], lambda x: cmp(x, "<", z3.RealVal(0))))),
    "Comparator.is_positive": Contract(lambda i, v: result(lift(i.ctx, v["value"], lambda x: cmp(x, ">", z3.RealVal(0))))),
    "Comparator.is_integer": Contract(lambda i, v: result(lift(i.ctx, v["value"], integral))),
}


def value(ctx, dims=3):
    k = ctx.choose(dims)
    if k == 0:
        return SV(ctx.fresh("value", RealS))
    n = [ctx.fresh("n", IntS) for _ in range(k)]
    ctx.assume(z3.And(*[x >= 0 for x in n]))
    return nd.fresh(ctx, "value", n)


def static(ctx, name):
    return func(ctx, CMP, "Comparator", name)


@unit("Comparator.is_close_compare", "C01", functions=["Comparator.is_close_compare"])
def u_compare(ctx):
    v = value(ctx)
    ops = [">=", "<=", ">", "<"]
    op = ops[ctx.choose(4)]
    test = 0 if ctx.choose(2) == 0 else SV(ctx.fresh("test", RealS))
    keep = v.buf.fn if isinstance(v, Nd) else None
    it = Interp(ctx, ctx.program, {}, {})
    out = it.run(static(ctx, "is_close_compare"), None, v, op, test)
    ctx.ensure("is_close_compare does not raise", not out.raised)
    if out.raised:
        return
    if isinstance(out.value, Nd):
        raise Unsupported("the result is an array")
    t = real(test)
    ctx.ensure(f"is_close_compare answers by the tolerant comparison", term(out.value) == lift(ctx, v, lambda x: cmp(x, op, t)))
    if keep is not None:
        ctx.ensure("the array is not changed", v.buf.fn is keep)
    ctx.reach("is_close_compare returns")


@unit("Comparator.is_close_compare of another operator", "C01")
def u_compare_bad(ctx):
    v = value(ctx)
    it = Interp(ctx, ctx.program, {}, {})
    op = SV(ctx.fresh("comparison", Name))
    ctx.assume(z3.And(*[op.t != lit(s) for s in (">=", "<=", ">", "<")]))
    out = it.run(static(ctx, "is_close_compare"), None, v, op, SV(ctx.fresh("test", RealS)))
    ctx.ensure("an unknown operator is rejected with ValueError", out.raised and out.exc.kind == "ValueError")


@unit("Comparator.is_close_to_zero", "C01", functions=["Comparator.is_close_to_zero"])
def u_zero(ctx):
    v = value(ctx)
    it = Interp(ctx, ctx.program, {}, {})
    out = it.run(static(ctx, "is_close_to_zero"), None, v)
    ctx.ensure("is_close_to_zero does not raise", not out.raised)
    if out.raised:
        return
    if isinstance(v, Nd):
        ctx.ensure("is_close_to_zero answers for every entry", isinstance(out.value, Nd) and out.value.nd == v.nd and out.value.dt == "bool")
        f, g = out.value.frozen(), v.frozen()
        ctx.ensure("is_close_to_zero holds where the entry is within 1e-10 of zero", z3.And(*[a == b for a, b in zip(out.value.dims, v.dims)], quantify(ctx, v.dims, lambda *p: f(*p) == near0(g(*p)))))
    else:
        ctx.ensure("is_close_to_zero holds within 1e-10 of zero", term(out.value) == near0(v.t))


def mk(name, op):
    @unit("Comparator." + name, "C01", functions=["Comparator." + name])
    def u(ctx):
        v = value(ctx)
        it = Interp(ctx, ctx.program, {}, {k: c for k, c in CONTRACTS.items() if k != "Comparator." + name})
        out = it.run(static(ctx, name), None, v)
        ctx.ensure(f"{name} does not raise", not out.raised)
        if not out.raised:
            ctx.ensure(f"{name} compares with zero", term(out.value) == lift(ctx, v, lambda x: cmp(x, op, z3.RealVal(0))))


mk("is_negative", "<")
mk("is_positive", ">")


@unit("Comparator.is_integer", "C01", functions=["Comparator.is_integer"])
def u_integer(ctx):
    v = value(ctx, 2)
    cs = {k: c for k, c in CONTRACTS.items() if k != "Comparator.is_integer"}
    loops = {}
    if isinstance(v, Nd):
        cs["Comparator.is_integer"] = CONTRACTS["Comparator.is_integer"]  # entries are numbers: its contract for those
        f = v.frozen()
        loops = {("Comparator.is_integer", 0): LoopSpec(lambda L: [("entries so far are integral", quantify(ctx, (L.i,), lambda p: integral(f(p))))])}
    it = Interp(ctx, ctx.program, loops, cs)
    out = it.run(static(ctx, "is_integer"), None, v)
    ctx.ensure("is_integer does not raise", not out.raised)
    if not out.raised:
        ctx.ensure("is_integer holds within 1e-10 of an integer", term(out.value) == lift(ctx, v, integral))
    ctx.reach("is_integer returns")


@unit("tolerant comparisons are coherent", "C01", note="lemma over the contracts")
def u_lemma(ctx):
    v, t = z3.Reals("v t")
    ge, le, gt, lt, nr = cmp(v, ">=", t), cmp(v, "<=", t), cmp(v, ">", t), cmp(v, "<", t), near(v, t)
    ctx.ensure(">= is the opposite of <", ge == z3.Not(lt))
    ctx.ensure("<= is the opposite of >", le == z3.Not(gt))
    ctx.ensure("within tolerance: both weak, no strict", z3.Implies(nr, z3.And(ge, le, z3.Not(gt), z3.Not(lt))))
    ctx.ensure("outside tolerance: exact", z3.Implies(z3.Not(nr), z3.And(ge == (v >= t), le == (v <= t), gt == (v > t), lt == (v < t))))
    z = z3.RealVal(0)
    p, n, c = cmp(v, ">", z), cmp(v, "<", z), near0(v)
    ctx.ensure("positive, negative and zero divide the numbers", z3.And(z3.Or(p, n, c), z3.Not(z3.And(p, n)), z3.Not(z3.And(p, c)), z3.Not(z3.And(n, c))))
    k = z3.Int("k")
    i = z3.ToInt(v)
    K = z3.ToReal(k)
    ctx.ensure("the integer part just above an integer", z3.Implies(z3.And(K <= v, v < K + 1), i == k))
    ctx.ensure("the integer part just below an integer", z3.Implies(z3.And(K - 1 <= v, v < K), i == k - 1))
    ctx.ensure("integral is within 1e-10 of an integer (1)", z3.Implies(near0(v - K), integral(v)))
    ctx.ensure("integral is within 1e-10 of an integer (2)", z3.Implies(integral(v), z3.Or(near0(v - z3.ToReal(i)), near0(v - z3.ToReal(i + 1)))))
