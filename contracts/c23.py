"""C23: steepest descent and Newton's method. Target, gradient and Hessian are any functions of the vector's entries."""
from lp import *
from c15 import solves_by_inverse

UM = "pytimize.programs._unconstrained"
value_of = z3.Function("target", la.Vec, RealS)
grad_of = z3.Function("gradient", la.Vec, la.Vec)
hess_of = z3.Function("hessian", la.Vec, la.Mat)


def name_of(ctx, v):
    """The array of the entries of v, one name for vectors whose entries agree (they are equal: same length)."""
    if not (isinstance(v, Nd) and v.nd == 1):
        raise Unsupported(f"a function of vectors is called with {v!r}")
    t = (v if v.dt == "float" else nd.astype(v, "float")).arr()
    seen = ctx.ghost.setdefault("vectors", [])
    if any(t.eq(u) for u in seen):
        return t
    j = ctx.fresh("j", IntS)
    for u in seen:
        if ctx.holds(z3.Implies(z3.And(0 <= j, j < ctx.ghost["n"]), S(u, j) == S(t, j))):
            ctx.assume(t == u)
            return u
    seen.append(t)
    return t


def callables(ctx, n):
    def vec(interp, args, kw):
        if len(args) != 1 or kw or not isinstance(args[0], Nd):
            raise Unsupported("call of a function of vectors")
        ctx.ensure("functions are called with vectors of the right length", args[0].dims[0] == n)
        return name_of(ctx, args[0])

    def f(interp, args, kw):
        return SV(value_of(vec(interp, args, kw)), "float")

    def df(interp, args, kw):
        g = nd.of_term(ctx, grad_of(vec(interp, args, kw)), (n,), zero=True)
        ctx.ghost.setdefault("gradients", []).append(g.arr())
        return g

    def d2f(interp, args, kw):
        return nd.of_term(ctx, hess_of(vec(interp, args, kw)), (n, n), zero=True)
    return Native(f, "f"), Native(df, "df"), Native(d2f, "d2f")


def scaled_dots(ctx, u, w):
    """Instances of laws: dot of vectors that are a gradient up to sign."""
    for g in ctx.ghost.get("gradients", []):
        for a in (1, -1):
            for b in (1, -1):
                la.law(ctx, "scaled", u, w, g, z3.RealVal(a), z3.RealVal(b))
        la.law(ctx, "squares", g)


class Problem:
    def __init__(self, ctx, direction):
        self.ctx = ctx
        self.n = n = ctx.fresh("n", IntS)
        ctx.assume(n >= 1)
        ctx.ghost["n"] = n
        self.f, self.df, self.d2f = callables(ctx, n)
        ctx.ghost["dot_hook"] = scaled_dots
        self.min = direction != "max"
        args = [self.f] + ([] if direction == "default" else [direction])
        self.o = Interp(ctx, ctx.program, {}, {}).construct(cls(ctx, UM, "UnconstrainedProgram"), args, {})
        self.x0 = nd.fresh(ctx, "x", [n], "int" if ctx.choose(2) else "float")
        self.v0 = version(self.x0)
        self.X0 = name_of(ctx, self.x0)
        self.tol, self.limit = ctx.fresh("tolerance", RealS), ctx.fresh("max_iteration", RealS)

    def F(self, X):
        return value_of(X) if self.min else -value_of(X)

    def start_kept(self):
        return version(self.x0) == self.v0


def outer(p, name, step):
    """The loop of iterations: x is the start in the first and any vector later; `step` relates it to the one before."""
    ctx = p.ctx

    def enter(L):
        L.g["chosen"] = False
        if not hasattr(L, "n"):
            raise Unsupported("the loop does not count iterations")
        ctx.ensure("there are no more iterations than asked for", z3.Implies(p.limit >= 0, z3.And(z3.ToReal(L.n) <= p.limit, z3.ToReal(L.n) > p.limit - 1)))

    def start(it, old):
        return old if ctx.choose(2) == 0 else nd.fresh(ctx, "x", [p.n])

    def inv(L):
        x = L["x"]
        if not (isinstance(x, Nd) and x.nd == 1):
            raise Unsupported("the iterate is no vector")
        out = [("the starting point is kept", z3.BoolVal(p.start_kept())), ("iterates have the length of the start", x.dims[0] == p.n)]
        if x is p.x0:
            return out
        X = name_of(ctx, x)
        return out + step(L, X, name_of(ctx, ctx.ghost["before"]) if "before" in ctx.ghost else None)

    def begin(L):
        ctx.ghost["before"] = L["x"]
        ctx.ghost["loop"] = L

    def done(L):
        ctx.ghost["used"] = True

    def mods(L):
        return [L["x"]] if L.g["chosen"] else []  # a loop may change the iterate; that the start is kept is an invariant

    def havoc(L):
        L.g["chosen"] = True
    return {(name, 0): LoopSpec(inv, enter=enter, begin=begin, done=done, havoc=havoc, kind="for", mods=mods, types={"x": start})}


def finish(ctx, p, out, step):
    ctx.ensure("the starting point is not changed", p.start_kept())
    if out.raised:
        return
    x = out.value
    ok = isinstance(x, Nd) and x.nd == 1
    ctx.ensure("a point is returned", ok)
    if not ok:
        return
    ctx.ensure("the point has the length of the start", x.dims[0] == p.n)
    X = name_of(ctx, x)
    g = nd.of_term(ctx, grad_of(X), (p.n,), zero=True).arr()
    if not ctx.ghost.get("used"):
        for u in ctx.ghost.get("normed", []):
            k = ctx.fresh("k", IntS)
            ctx.assume(z3.Or(la.norm(u) == la.norm(g), S(u, k) != -S(g, k)))
        ctx.ensure("the search ends early only when the norm of the gradient is within the tolerance", la.norm(g) <= p.tol)
        ctx.reach("an early end")
    for n, f in step(ctx.ghost.get("loop"), X, name_of(ctx, ctx.ghost["before"]) if "before" in ctx.ghost else None):
        ctx.ensure(f"the result: {n}", f)


def descent(ctx, direction):
    p = Problem(ctx, direction)
    alpha, c, q = ctx.fresh("alpha", RealS), ctx.fresh("c", RealS), ctx.fresh("p", RealS)
    ctx.assume(z3.And(alpha > 0, c > 0, q > 0))
    name = "UnconstrainedProgram.steepest_descent"

    def step(L, X, B):
        out = [("the objective is no worse than at the start", p.F(X) <= p.F(p.X0))]
        if B is None or L is None or X.eq(B):
            return out
        a = real(L["a"])
        g = nd.of_term(ctx, grad_of(B), (p.n,), zero=True).arr()
        j = ctx.fresh("j", IntS)
        s = 1 if p.min else -1
        scaled_dots(ctx, g, g)
        ctx.assume(z3.Implies(c * a >= 0, c * a * dot(g, g) >= 0))
        return [("the step length is positive", a > 0),
                ("the step goes against the gradient of the minimised function", z3.Implies(z3.And(0 <= j, j < p.n), S(X, j) == S(B, j) - s * a * S(g, j))),
                ("the step passes the test of sufficient decrease", p.F(X) <= p.F(B) - c * a * dot(g, g))] + out

    def shrink(L):
        return [("the step length is positive", real(L["a"]) > 0)]
    loops = {**outer(p, name, step), (name, 1): LoopSpec(shrink, kind="while", types={"a": RealS})}
    it = Interp(ctx, ctx.program, loops, {})
    out = it.run(p.o, "steepest_descent", p.x0, p.df, SV(alpha, "float"), SV(c, "float"), SV(q, "float"), SV(p.tol, "float"), SV(p.limit, "float"))
    ctx.ensure("steepest descent does not raise", not out.raised)
    finish(ctx, p, out, step)


def newton(ctx, direction):
    p = Problem(ctx, direction)
    name = "UnconstrainedProgram.newton_method"

    def step(L, X, B):
        if B is None or L is None or X.eq(B):
            return []
        g = nd.of_term(ctx, grad_of(B), (p.n,), zero=True).arr()
        H = nd.of_term(ctx, hess_of(B), (p.n, p.n), zero=True).arr()
        D = nd.make(ctx, (p.n,), lambda j: S(X, j) - S(B, j)).arr()
        j, k = ctx.fresh("j", IntS), ctx.fresh("j", IntS)
        for M, n, b in ctx.ghost.get("systems", []):
            d = mv(inv(M, n), b)
            solves_by_inverse(ctx, M, n, b)
            if ctx.holds(z3.Implies(z3.And(0 <= j, j < p.n), S(D, j) == S(d, j))):
                ctx.assume(D == d)
        return [("the step solves the Hessian system", z3.Implies(z3.And(0 <= k, k < p.n), S(mv(H, D), k) == -S(g, k)))]
    it = Interp(ctx, ctx.program, outer(p, name, step), {})
    out = it.run(p.o, "newton_method", p.x0, p.df, p.d2f, SV(p.tol, "float"), SV(p.limit, "float"))
    if out.raised:
        ctx.ensure("Newton's method raises only for a singular Hessian", exc_is(out, "LinAlgError"))
    finish(ctx, p, out, step)


for d_ in ("default", "max", "min"):
    unit(f"UnconstrainedProgram.steepest_descent (objective: {d_})", "C23", functions=["UnconstrainedProgram.__init__", "UnconstrainedProgram.steepest_descent"], limit=100)(lambda ctx, d=d_: descent(ctx, d))
    unit(f"UnconstrainedProgram.newton_method (objective: {d_})", "C23", functions=["UnconstrainedProgram.__init__", "UnconstrainedProgram.newton_method"], limit=100)(lambda ctx, d=d_: newton(ctx, d))
