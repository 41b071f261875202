"""C21: feasibility and evaluation."""
from lp import *


def c_is_feasible(interp, v):
    """True for exactly feasible vectors, and only for vectors within tolerance of every relation and sign."""
    ctx, o = interp.ctx, v["self"]
    s = P(ctx, o)
    x = c_to_ndarray(interp, dict(source=v["x"]))
    if not isinstance(x, Nd) or x.nd != 1:
        raise PyRaise("ValueError", "is_feasible")
    ctx.need(x.dims[0] == s.n, "ValueError")
    r = ctx.fresh("feasible", BoolS)
    X = x.arr()
    ctx.assume(z3.Implies(s.feasible(X), r))
    ctx.assume(z3.Implies(r, s.feasible_near(X)))
    return SV(r)


FEASIBLE = {"LinearProgram.is_feasible": Contract(c_is_feasible)}


def feas_loops():
    def signs(L):
        s, x = L.ctx.ghost["prog"], L.ctx.ghost["x"]
        f = is_true(L["is_feasible"])
        part = (L.i,)
        return [("every sign so far is right, so it is feasible so far", z3.Implies(quantify(L.ctx, part, lambda j: s.sign_ok(j, S(x, j))), f)),
                ("feasible so far, so no sign is missed", z3.Implies(f, quantify(L.ctx, part, lambda j: s.sign_near(j, S(x, j)))))]

    def rows(L):
        s, x = L.ctx.ghost["prog"], L.ctx.ghost["x"]
        A = s.Ao.arr()
        f = is_true(L["is_feasible"])
        sg = quantify(L.ctx, (s.n,), lambda j: s.sign_ok(j, S(x, j)))
        sn = quantify(L.ctx, (s.n,), lambda j: s.sign_near(j, S(x, j)))
        return [("signs and rows so far hold, so it is feasible so far", z3.Implies(z3.And(sg, quantify(L.ctx, (L.i,), lambda i: s.row_ok(i, dot(S(A, i), x)))), f)),
                ("feasible so far, so no sign is missed", z3.Implies(f, sn)),
                ("feasible so far, so no row is missed", z3.Implies(f, quantify(L.ctx, (L.i,), lambda i: s.row_near(i, dot(S(A, i), x)))))]
    return {("LinearProgram.is_feasible", 0): LoopSpec(signs), ("LinearProgram.is_feasible", 1): LoopSpec(rows)}


@unit("LinearProgram.is_feasible", "C21", "C11", functions=["LinearProgram.is_feasible"], limit=100)
def u_feasible(ctx):
    o = new_lp(ctx)
    s, k = P(ctx, o), Keep(ctx, o)
    x = vec_arg(ctx, "x")
    xk = x.buf.fn if isinstance(x, Nd) else None
    show = ctx.choose(2) == 0
    ctx.ghost["prog"] = s
    v = vector_of(ctx, x)
    fits = v is not None and z3.simplify(v[0] == s.n)
    if v is not None:
        X = nd.make(ctx, (v[0],), v[1]).arr()
        ctx.ghost["x"] = X
    out = run_lp(ctx, o, "is_feasible", x, show, loops=feas_loops())
    k.ensure(ctx, "is_feasible")
    if xk is not None:
        ctx.ensure("the vector is not changed", x.buf.fn is xk)
    if v is None:
        raised(ctx, out, "ValueError", "a matrix is rejected with ValueError")
        return
    if out.raised:
        raised(ctx, out, "ValueError", "is_feasible raises nothing but ValueError")
        ctx.ensure("is_feasible rejects only vectors of the wrong size", z3.Not(fits))
        return
    ctx.ensure("vectors of the wrong size are rejected", fits)
    r = is_true(out.value)
    ctx.ensure("an exactly feasible vector is reported feasible", z3.Implies(s.feasible(X), r))
    A = s.Ao.arr()
    ctx.ensure("a vector that misses a sign beyond tolerance is not reported feasible", z3.Implies(r, quantify(ctx, (s.n,), lambda j: s.sign_near(j, S(X, j)))))
    ctx.ensure("a vector that misses a row beyond tolerance is not reported feasible", z3.Implies(r, quantify(ctx, (s.m,), lambda i: s.row_near(i, dot(S(A, i), X)))))
    ctx.reach("is_feasible returns")


@unit("LinearProgram.evaluate", "C21", "C11", functions=["LinearProgram.evaluate"])
def u_evaluate(ctx):
    o = new_lp(ctx)
    s, k = P(ctx, o), Keep(ctx, o)
    x = vec_arg(ctx, "x")
    out = run_lp(ctx, o, "evaluate", x)
    k.ensure(ctx, "evaluate")
    check_value(ctx, s, x, out, "evaluate")
    ctx.reach("evaluate returns")


def check_value(ctx, s, x, out, name):
    v = vector_of(ctx, x)
    if v is None:
        raised(ctx, out, "ValueError", f"{name}: a matrix is rejected with ValueError")
        return None
    fits = v[0] == s.n
    X = nd.make(ctx, (v[0],), v[1]).arr()
    if not out.raised:
        ctx.ensure(f"{name}: vectors of the wrong size are rejected", fits)
        ctx.ensure(f"{name} gives the linear objective plus the constant", real(out.value) == s.value(X))
        return X
    raised(ctx, out, "ValueError", f"{name} raises nothing but ValueError")
    if name == "evaluate":
        ctx.ensure(f"{name} rejects only vectors of the wrong size", z3.Not(fits))
    return X


@unit("LinearProgram.value_of", "C21", "C11", functions=["LinearProgram.value_of"])
def u_value_of(ctx):
    o = new_lp(ctx)
    s, k = P(ctx, o), Keep(ctx, o)
    x = vec_arg(ctx, "x")
    out = run_lp(ctx, o, "value_of", x, contracts=FEASIBLE)
    k.ensure(ctx, "value_of")
    X = check_value(ctx, s, x, out, "value_of")
    if X is None:
        return
    if out.raised:
        ctx.ensure("value_of refuses no feasible vector of the right size", z3.Not(z3.And(vector_of(ctx, x)[0] == s.n, s.feasible(X))))
    else:
        ctx.ensure("value_of refuses vectors that miss the program beyond tolerance", s.feasible_near(X))
    ctx.reach("value_of returns")
