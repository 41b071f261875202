"""C14: duality."""
from lp import *
from c12 import separate


def dual_rel(s, j):
    """(has '>=', has '<=') of the dual row of variable j."""
    mx = s.obj == MAX
    pos = z3.And(z3.Not(s.isfree(j)), z3.Not(s.isneg(j)))
    inr = z3.And(0 <= j, j < s.n)
    return z3.And(inr, z3.If(mx, pos, s.isneg(j))), z3.And(inr, z3.If(mx, s.isneg(j), pos))


def dual_neg(s, i):
    return z3.And(0 <= i, i < s.m, z3.If(s.obj == MAX, s.ge(i), s.le(i)))


def dual_free(s, i):
    return z3.And(0 <= i, i < s.m, s.eq(i))


def loops():
    def prog(L):
        return L.ctx.ghost["prog"]

    def rels(L):
        return typed(L["inequality_indices"], IntS, Name)

    def enter(L):
        typed(L["inequality_indices"], IntS, Name)

    def inv(L):
        s, d = prog(L), rels(L)
        i = z3.Int("i_")
        ge, le = dual_rel(s, i)
        return [("the relations of the variables so far", z3.ForAll([i], z3.Implies(S(d.dom, i), z3.And(0 <= i, i < L.i, z3.Or(z3.And(ge, S(d.val, i) == GE), z3.And(le, S(d.val, i) == LE)))), patterns=[S(d.dom, i)])),
                ("no relation is missing so far", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < L.i, z3.Or(ge, le)), S(d.dom, i)), patterns=[S(d.dom, i)]))]
    return {("LinearProgram.dual", 0): filter_loop(Filtered("free_variables", lambda L, i: prog(L).eq(i)), Filtered("negative_variables", lambda L, i: z3.If(prog(L).obj == MAX, prog(L).ge(i), prog(L).le(i)))),
            ("LinearProgram.dual", 1): LoopSpec(inv, enter=enter, mods=lambda L: [rels(L)])}


@unit("LinearProgram.dual", "C14", "C11", functions=["LinearProgram.dual", "LinearProgram.__init__"], limit=100)
def u_dual(ctx):
    o = new_lp(ctx)
    s, k = P(ctx, o), Keep(ctx, o)
    ctx.ghost["prog"] = s
    out = run_lp(ctx, o, "dual", ctx.choose(2) == 0, loops=loops())
    k.ensure(ctx, "dual")
    ctx.ensure("dual does not raise", not out.raised)
    if out.raised:
        return
    r = out.value
    ctx.ensure("[C11] dual returns another program", r is not o)
    separate(ctx, "dual", o, r)
    t = P(ctx, r)
    i, j = ctx.fresh("i", IntS), ctx.fresh("j", IntS)
    ctx.ensure("one dual variable per row, one dual row per variable", z3.And(t.m == s.n, t.n == s.m, t.bn == s.n, t.cn == s.m))
    ctx.ensure("the dual matrix is the transpose", z3.Implies(z3.And(0 <= i, i < s.m, 0 <= j, j < s.n), t.A(j, i) == s.A(i, j)))
    ctx.ensure("the dual right-hand side is the objective", z3.Implies(z3.And(0 <= j, j < s.n), t.b(j) == s.c(j)))
    ctx.ensure("the dual objective is the right-hand side", z3.Implies(z3.And(0 <= i, i < s.m), t.c(i) == s.b(i)))
    ctx.ensure("the dual has constant zero", t.z == 0)
    ctx.ensure("the dual optimises the other way", t.obj == z3.If(s.obj == MAX, MIN, MAX))
    ge, le = dual_rel(s, j)
    ctx.ensure("the relation of a dual row follows the sign of the variable", z3.And(t.ge(j) == ge, t.le(j) == le))
    ctx.ensure("a dual variable is free exactly for an equality row", t.isfree(i) == dual_free(s, i))
    ctx.ensure("a dual variable is negative exactly for a row against the direction", t.isneg(i) == dual_neg(s, i))
    d = attr(r, "_inequality_indices")
    for nm in ("_free_variables", "_negative_variables"):
        q = attr(r, nm)
        if isinstance(q, SSeq):
            a, b = ctx.fresh("a", IntS), ctx.fresh("b", IntS)
            ctx.ensure(f"{nm} of the dual is sorted", z3.Implies(z3.And(0 <= a, a < b, b < q.n), S(q.arr, a) < S(q.arr, b)))
    e = ctx.fresh("e", IntS)
    ctx.ensure("the dual is in standard equality form only when it is", z3.Implies(t.sef, z3.And(t.obj == MAX, t.eq(e), z3.Not(t.isfree(e)), z3.Not(t.isneg(e)))))
    ctx.ensure("the dual is in standard equality form when it is", z3.Implies(z3.Not(t.sef), z3.Or(t.obj != MAX, z3.Exists([z3.Int("e_")], z3.Or(S(t.rdom, z3.Int("e_")), t.isfree(z3.Int("e_")), t.isneg(z3.Int("e_")))))))
    ctx.reach("dual returns")


class D:
    """The dual of the abstract program s, as its contract states it."""

    def __init__(self, s):
        self.m, self.n = s.n, s.m
        self.A = lambda i, j: s.A(j, i)
        self.b, self.c, self.z = s.c, s.b, R0
        self.obj = z3.If(s.obj == MAX, MIN, MAX)
        self.ge = lambda j: dual_rel(s, j)[0]
        self.le = lambda j: dual_rel(s, j)[1]
        self.eq = lambda j: z3.Not(z3.Or(self.ge(j), self.le(j)))
        self.isfree = lambda i: dual_free(s, i)
        self.isneg = lambda i: dual_neg(s, i)


@unit("the dual of the dual is the program", "C14", note="lemma over the contract of dual")
def u_dual_dual(ctx):
    o = new_lp(ctx)
    s = P(ctx, o)
    t = D(D(s))
    i, j = ctx.fresh("i", IntS), ctx.fresh("j", IntS)
    ctx.ensure("same size", z3.And(t.m == s.m, t.n == s.n))
    ctx.ensure("same matrix and vectors", z3.And(t.A(i, j) == s.A(i, j), t.b(i) == s.b(i), t.c(j) == s.c(j)))
    ctx.ensure("constant zero", t.z == 0)
    ctx.ensure("same objective direction", t.obj == s.obj)
    ctx.ensure("same relations", z3.Implies(z3.And(0 <= i, i < s.m), z3.And(t.ge(i) == s.ge(i), t.le(i) == s.le(i), t.eq(i) == s.eq(i))))
    ctx.ensure("same free variables", z3.Implies(z3.And(0 <= j, j < s.n), t.isfree(j) == s.isfree(j)))
    ctx.ensure("same negative variables", z3.Implies(z3.And(0 <= j, j < s.n), t.isneg(j) == s.isneg(j)))
    ctx.result.assumed.add("two increasing lists with the same members are equal")


@unit("weak duality", "C14", note="lemma over the contract of dual")
def u_weak(ctx):
    o = new_lp(ctx)
    s = P(ctx, o)
    A, b, c = s.arrs()
    T = tr(A)
    x, y = nd.fresh(ctx, "x", [s.n]), nd.fresh(ctx, "y", [s.m])
    X, Y = x.arr(), y.arr()
    t = D(s)
    across(ctx, T, Y, X)
    ctx.ensure("y(Ax) is (yA)x", dot(mv(T, Y), X) == dot(mv(A, X), Y))
    ctx.assume(s.feasible(X))
    p = z3.Int("p_")
    yA = nd.of_term(ctx, mv(T, Y), (s.n,), zero=True)
    Ax = nd.of_term(ctx, mv(A, X), (s.m,), zero=True)
    v = S(mv(T, Y), p)
    ctx.assume(z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < s.n), z3.And(z3.Implies(t.ge(p), v >= S(c, p)), z3.Implies(t.le(p), v <= S(c, p)), z3.Implies(t.eq(p), v == S(c, p)))), patterns=[v]))
    w = S(Y, p)
    ctx.assume(z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < s.m), z3.If(t.isneg(p), w <= 0, z3.Or(t.isfree(p), w >= 0))), patterns=[w]))
    sub = lambda u, v: nd.pointwise(Interp(ctx, ctx.program, {}, {}), [u, v], lambda a, e: a - e).arr()
    mx = s.obj == MAX
    if not ctx.branch(mx):
        ctx.assume(s.obj == MIN)
        d1, d2 = sub(s.co, yA), sub(Ax, s.bo)
    else:
        d1, d2 = sub(yA, s.co), sub(s.bo, Ax)
    nonneg_product(ctx, d1, X, s.n)
    nonneg_product(ctx, d2, Y, s.m)
    ctx.ensure("the variables do not lose against the dual rows", dot(d1, X) >= 0)
    ctx.ensure("the dual variables do not lose against the rows", dot(d2, Y) >= 0)
    ctx.ensure("the maximising objective is at most the minimising one", z3.If(mx, dot(c, X) <= dot(b, Y), dot(c, X) >= dot(b, Y)))
    ctx.reach("both feasible")
