"""C19: solving any linear program."""
from lp import *
from c12 import separate
from c15 import *
from c17 import Outcome, MP
from c13 import TO_SEF, support_law, Sef, Maps, sef_program, assume_slots
from c18 import SIMPLEX, c_simplex
import c18

HERE = "LinearProgram.solve"


def c_two_phase(interp, v):
    """An outcome of simplex, or a certificate of infeasibility (as proved for two_phase_simplex)."""
    ctx, o = interp.ctx, v["self"]
    if not isinstance(o.attrs["_is_sef"], bool):
        raise Unsupported("standard equality form is not decided")
    if not o.attrs["_is_sef"]:
        raise PyRaise("ArithmeticError", "two_phase_simplex")
    s = P(ctx, o)
    k = ctx.choose(4)
    rec = dict(lp=o, s=s, kind=("failed", "optimal", "unbounded", "infeasible")[k])
    ctx.ghost.setdefault("runs", []).append(rec)
    if k == 0:
        raise PyRaise("ValueError", "two_phase_simplex")
    if k == 3:
        return (None, None, nd.fresh(ctx, "y", [s.m]))
    r = rec["outcome"] = Outcome(ctx, o, s, rec["kind"])
    if k == 1:
        return (r.x, r.basis, nd.of_term(ctx, r.st.K.y, (s.m,), zero=True))
    return (None, None, (nd.of_term(ctx, r.X, (s.n,), zero=True), nd.fresh(ctx, "ray", [s.n])))


TWO_PHASE = {"LinearProgram.two_phase_simplex": Contract(c_two_phase)}


def c_basis_feasible(interp, v):
    ctx, s = interp.ctx, P(interp.ctx, v["self"])
    q = shifted(interp, v["basis"])
    r = ctx.fresh("feasible_basis", BoolS)
    ctx.assume(z3.Implies(r, z3.And(*basis_parts(ctx, s, q))))
    return SV(r)


BASIS_FEASIBLE = {"LinearProgram.is_basis_feasible": Contract(c_basis_feasible)}


def one_simplex(interp, v):
    r = c_simplex(interp, v)
    return r


def loops():
    def setup(L):
        ctx = L.ctx
        if "X0" not in ctx.ghost:
            a = L["solution"]
            if not (isinstance(a, Nd) and a.nd == 1):
                raise Unsupported("the solution is no vector")
            ctx.ghost["X0"] = a.arr()
        return ctx.ghost["sef_of"], ctx.ghost["X0"]

    def concat_enter(L):
        setup(L)

    def concat_havoc(L):
        (s, f, M), X = setup(L)
        L["solution"] = nd.fresh(L.ctx, "solution", [f.N0 - L.i])

    def concat_inv(L):
        (s, f, M), X = setup(L)
        a = L["solution"]
        p = z3.Int("p_")
        W = a.arr()
        RR = f.RR(f.F, X)
        last = M.last(L.i)
        return [("one component less for every split variable seen", a.dims[0] == f.N0 - L.i),
                ("split variables seen are joined", z3.ForAll([p], z3.Implies(z3.And(0 <= p, p <= last), S(W, p) == S(RR, p)), patterns=[S(W, p)])),
                ("the others are moved", z3.ForAll([p], z3.Implies(z3.And(p > last, p < f.N0 - L.i), S(W, p) == S(X, p + L.i)), patterns=[S(W, p)]))]

    def concat_begin(L):
        L.g["W"] = L["solution"].arr()

    def concat_step(L):
        ctx = L.ctx
        (s, f, M), X = setup(L)
        t = z3.simplify(L.i - 1)
        W0, W1 = L.g["W"], L["solution"].arr()
        p = ctx.fresh("p", IntS)
        k = S(f.fr, t)
        RR = f.RR(f.F, X)
        low = z3.And(0 <= p, p < k)
        ctx.mention(S(RR, k))
        ctx.mention(S(RR, p))
        ctx.ensure("components before stay", z3.Implies(low, S(W1, p) == S(W0, p)))
        ctx.ensure("the component is joined", S(W1, k) == S(W0, k) - S(W0, k + 1))
        ctx.ensure("components after move", z3.Implies(z3.And(p > k, p < f.N0 - t - 1), S(W1, p) == S(W0, p + 1)))
        ctx.ensure("the joined component is final", S(W1, k) == S(RR, k))
        ctx.mention(M.sig(f.F, p))
        ctx.ensure("a component between split variables", z3.Implies(z3.And(low, p > M.last(t)), z3.And(z3.Not(s.isfree(p)), M.sig(f.F, p) == p + t)))
        ctx.ensure("components before are final", z3.Implies(low, S(W1, p) == S(RR, p)))
        v = z3.Int("p_")
        ctx.assume(z3.ForAll([v], z3.Implies(z3.And(0 <= v, v < k), S(W1, v) == S(RR, v)), patterns=[S(W1, v)]))
        ctx.assume(z3.ForAll([v], z3.Implies(z3.And(v > k, v < f.N0 - t - 1), S(W1, v) == S(W0, v + 1)), patterns=[S(W1, v)]))

    def neg_enter(L):
        ctx = L.ctx
        (s, f, M), X = setup(L)
        W, RR = L["solution"].arr(), f.RR(f.F, X)
        p = ctx.fresh("p", IntS)
        ctx.mention(S(RR, p))
        ctx.mention(M.sig(f.F, p))
        ctx.ensure("split variables are joined", z3.And(L["solution"].dims[0] == s.n, z3.Implies(z3.And(0 <= p, p < s.n), S(W, p) == S(RR, p))))
        v = z3.Int("p_")
        ctx.assume(z3.ForAll([v], z3.Implies(z3.And(0 <= v, v < s.n), S(W, v) == S(RR, v)), patterns=[S(W, v)]))
        ctx.ghost["W"] = W

    def neg_inv(L):
        (s, f, M), X = setup(L)
        if f.at is None:
            raise Unsupported("the list of negative variables")
        W0, W = L.ctx.ghost["W"], L["solution"].arr()
        p = z3.Int("p_")
        seen = z3.And(S(f.NEG, p), S(f.at, p) < L.i)
        return [("the size stays", L["solution"].dims[0] == s.n),
                ("negative variables seen are negated", z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < s.n), S(W, p) == z3.If(seen, -S(W0, p), S(W0, p))), patterns=[S(W, p), S(W0, p)]))]
    return {(HERE, 0): LoopSpec(concat_inv, enter=concat_enter, mods=lambda L: [L["solution"]], havoc=concat_havoc, begin=concat_begin, step=concat_step),
            (HERE, 1): LoopSpec(neg_inv, enter=neg_enter, mods=lambda L: [L["solution"]])}


@unit(HERE, "C19", "C11", functions=[HERE], limit=150)
def u_solve(ctx):
    o = new_lp(ctx)
    s, kp = P(ctx, o), Keep(ctx, o)
    ctx.assume(s.m >= 1)
    out = run_lp(ctx, o, "solve", ctx.choose(2) == 0, loops=loops(), contracts={**TO_SEF, **SIMPLEX, **TWO_PHASE, **BASIS_FEASIBLE})
    kp.ensure(ctx, "solve")
    runs = ctx.ghost.get("simplex", []) + ctx.ghost.get("runs", [])
    if out.raised:
        ctx.ensure("solve raises only what its parts raise", any(r["kind"] in ("failed", "ValueError") for r in runs) and exc_is(out, "ValueError"))
        return
    ctx.ensure("an outcome comes from simplex", len(runs) >= 1)
    if not runs:
        return
    last = runs[-1]
    x = out.value
    if x is None:
        ctx.ensure("nothing is returned only for a program found unbounded or infeasible", last["kind"] in ("unbounded", "infeasible", "ArithmeticError"))
        ctx.reach("nothing")
        return
    ctx.ensure("a vector is returned only for a program solved to optimality", last["kind"] == "optimal")
    if last["kind"] != "optimal":
        return
    ctx.ensure("a vector with one component per variable is returned", isinstance(x, Nd) and x.nd == 1 and ctx.holds(x.dims[0] == s.n))
    X = last["outcome"].X
    j = ctx.fresh("j", IntS)
    inn = z3.And(0 <= j, j < s.n)
    if o.attrs["_is_sef"]:
        ctx.ensure("the program itself is solved", last["lp"] is o)
        ctx.ensure("the vector is the optimal one", z3.Implies(inn, x.at(j) == S(X, j)))
        ctx.reach("in standard equality form")
        return
    s0, f, M = ctx.ghost["sef_of"]
    ctx.ensure("the standard form is solved", last["lp"] is not o)
    ctx.ensure("the vector is the point behind the optimal one", z3.Implies(inn, x.at(j) == S(f.join(X), j)))
    ctx.reach("a vector")


@unit("what solve returns is feasible and best", "C19", functions=[], note="lemma over the contracts of solve, to_sef and simplex")
def u_best(ctx):
    o = new_lp(ctx, sef=False)
    s = P(ctx, o)
    r = c_to_sef_of(ctx, o)
    s0, f, M = ctx.ghost["sef_of"]
    t = P(ctx, r)
    A2, b2, c2 = t.arrs()
    A, b, c = s.arrs()
    X, Y = nd.fresh(ctx, "X", [t.n]).arr(), nd.fresh(ctx, "y", [t.m]).arr()
    i, j, p = ctx.fresh("i", IntS), ctx.fresh("j", IntS), z3.Int("p_")
    inr, inc = z3.And(0 <= i, i < s.m), z3.And(0 <= j, j < s.n)
    # what the contract of simplex says about an optimal outcome
    ctx.assume(z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < s.m), dot(S(A2, p), X) == S(b2, p)), patterns=[S(A2, p)]))
    ctx.assume(z3.ForAll([p], S(X, p) > -TOL, patterns=[S(X, p)]))
    ctx.assume(dot(c2, X) == dot(Y, b2))
    x = f.join(X)
    d = ctx.fresh("left", RealS)
    ctx.assume(d == dot(S(A, i), x))
    if ctx.choose(2) == 0:
        e = ctx.fresh("left", RealS)
        ctx.assume(e == dot(S(A2, i), X))
        ctx.ensure("the standard form is solved", z3.Implies(inr, e == S(b2, i)))
        ctx.ensure("a row of the standard form and of the program", z3.Implies(inr, e == f.row(i, X)))
        ctx.ensure("the row of the standard form", z3.Implies(inr, f.row(i, X) == s.b(i)))
        ctx.ensure("the point returned meets every relation up to tolerance", z3.Implies(inr, z3.And(z3.Implies(s.le(i), d < s.b(i) + TOL), z3.Implies(s.ge(i), d > s.b(i) - TOL), z3.Implies(s.eq(i), d == s.b(i)))))
        ctx.ensure("a variable before its sign is changed", z3.Implies(z3.And(inc, z3.Not(s.isfree(j))), S(f.RR(f.F, X), j) > -TOL))
        ctx.ensure("the point returned meets every sign restriction up to tolerance", z3.Implies(inc, s.sign_near(j, S(x, j))))
        ctx.reach("a point returned")
        return
    # any feasible point of the program, with a point of the standard form above it (C13)
    z, Z = nd.fresh(ctx, "z", [s.n]).arr(), nd.fresh(ctx, "Z", [t.n]).arr()
    ctx.assume(f.cost(c, Z) == z3.If(s.obj == MIN, -dot(c, z), dot(c, z)))
    # weak duality with a certificate of exact margin (C20)
    ctx.assume(dot(c2, Z) <= dot(Y, b2))
    better = z3.If(s.obj == MIN, dot(c, x) <= dot(c, z), dot(c, x) >= dot(c, z))
    ctx.ensure("the objective of the standard form at the point above", dot(c2, Z) == z3.If(s.obj == MIN, -dot(c, z), dot(c, z)))
    ctx.ensure("the objective of the standard form at the optimum", dot(c2, X) == z3.If(s.obj == MIN, -dot(c, x), dot(c, x)))
    ctx.ensure("no feasible point beats the point returned", better)
    ctx.reach("a feasible point")


def c_to_sef_of(ctx, o):
    return TO_SEF["LinearProgram.to_sef"].apply(Interp(ctx, ctx.program, {}, {}), {"self": o, "show_steps": True, "in_place": False})


def c_solve(interp, v):
    ctx, s = interp.ctx, P(interp.ctx, v["self"])
    if ctx.choose(2) == 1:
        ctx.ghost["solved"] = None
        return None
    x = nd.fresh(ctx, "solved", [s.n])
    ctx.ghost["solved"] = x.arr()
    return x


SOLVE = {HERE: Contract(c_solve)}


@unit("LinearProgram.optimal_value", "C19", "C11", functions=["LinearProgram.optimal_value"])
def u_optimal_value(ctx):
    o = new_lp(ctx)
    s, kp = P(ctx, o), Keep(ctx, o)
    out = run_lp(ctx, o, "optimal_value", contracts=SOLVE)
    kp.ensure(ctx, "optimal_value")
    ctx.ensure("optimal_value does not raise by itself", not out.raised)
    if out.raised:
        return
    ctx.ensure("optimal_value solves the program", "solved" in ctx.ghost)
    x = ctx.ghost.get("solved")
    if x is None:
        ctx.ensure("no optimal value without an optimum", out.value is None)
        return
    ctx.ensure("an optimal value is a number", out.value is not None)
    if out.value is not None:
        ctx.ensure("the optimal value is the objective, constant included, at the vector solve returns", real(out.value) == s.value(x))
    ctx.reach("optimal value")
