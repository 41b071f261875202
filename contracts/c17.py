"""C17: one iteration of the simplex method, and the method run to its end."""
from lp import *
from c12 import separate, own
from c15 import *
from c16 import *
import c16
from builtins_model import sort_seq

MP = z3.MultiPattern


def row_signs(ctx, A, b, A2, b2, m, n, q):
    """Law: when every row of the matrix (and of the right-hand side) is the old row or its negative, the determinants
    of chosen columns differ at most in sign, and multiplying with the inverse of chosen columns gives the same."""
    if A2.eq(A) and b2.eq(b):
        return
    la.apply(ctx, "rows", "before the canonical form rows are at most negated", A, b, A2, b2, q, m)
    M, M2 = la.selc(A, q, m), la.selc(A2, q, m)
    la.apply(ctx, "square", "the chosen columns are square", M, m)
    ctx.ensure("the columns are independent before and after negating rows", z3.And(det(M, m) != 0, det(M2, m) != 0))


class Start:
    """The program, the sorted positions of the basis and the canonical terms of one iteration."""

    def __init__(self, ctx, s, q):
        self.s, self.q = s, q
        self.K = K = Canon(ctx, s, q)
        nd.of_term(ctx, K.b2, (s.m,), zero=True)
        nd.of_term(ctx, K.A2, (s.m, s.n), zero=True)
        yA = nd.of_term(ctx, K.yA, (s.n,), zero=True)
        self.c2 = nd.pointwise(Interp(ctx, ctx.program, {}, {}), [s.co, yA], lambda a, e: a - e).arr()
        # the first improving column, if any
        self.k = k = ctx.fresh("entering", IntS)
        j = z3.Int("j_")
        self.improving = z3.And(0 <= k, k < s.n, S(self.c2, k) >= TOL, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), S(self.c2, j) < TOL), patterns=[S(self.c2, j)]))
        self.none = z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < s.n), S(self.c2, j) < TOL), patterns=[S(self.c2, j)])

    def least(self, ctx):
        ctx.assume(z3.Or(self.none, self.improving))

    def found(self, ctx):
        """The entering column is the first improving one."""
        s, q = self.s, self.q
        e = ctx.fresh("e", IntS)
        t = ctx.ghost.get("chosen", ctx.ghost.get("first"))  # by the loop, or by next
        if t is not None and t.sort() == IntS:
            ctx.ensure("the column chosen improves", z3.And(0 <= t, t < s.n, S(self.c2, t) >= TOL))
            ctx.ensure("earlier columns outside the basis do not improve", z3.Implies(z3.And(0 <= e, e < t, z3.Not(member(ctx, q, e))), S(self.c2, e) < TOL))
            ctx.ensure("basic columns do not improve", z3.Implies(z3.And(0 <= e, e < s.n, member(ctx, q, e)), S(self.c2, e) < TOL))
            j = z3.Int("j_")
            ctx.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < t), S(self.c2, j) < TOL), patterns=[S(self.c2, j)]))
            ctx.ensure("the column chosen is the first improving column", self.k == t)
        ctx.ensure("there is an improving column", self.improving)


def objective_fact(ctx, K, s, q):
    """What the lemma about the canonical form proves (C16): no objective in the basis."""
    k = z3.Int("k_")
    ctx.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < s.m), S(K.c, S(q.arr, k)) - S(K.yA, S(q.arr, k)) == 0), patterns=[S(q.arr, k)], qid="canon_c"))


def canonical_facts(ctx, K, s, q):
    """What the lemma about the canonical form proves (C16), for the entries of the basis columns."""
    i, k = z3.Ints("i_ k_")
    ctx.assume(z3.ForAll([i, k], z3.Implies(z3.And(0 <= i, i < s.m, 0 <= k, k < s.m), S(S(K.A2, i), S(q.arr, k)) == z3.If(i == k, R1, R0)), patterns=[MP(S(K.A2, i), S(q.arr, k))], qid="canon_id"))
    objective_fact(ctx, K, s, q)
    ctx.assume(la.selc(K.A2, q.arr, s.m) == la.eye(s.m))
    ctx.assume(mm(K.Ab, K.N) == la.eye(s.m))


def iteration_contracts(ctx, st):
    s, q = st.s, st.q

    def canonical(interp, v):
        o = v["self"]
        t = P(ctx, o)
        qq = positions(interp, v["basis"])
        ctx.ensure("the canonical form is made for the given positions", qq.arr == q.arr)
        ctx.ensure("the sorted columns are independent", detq(st.K.A, q.arr, s.m) != 0)
        row_signs(ctx, st.K.A, st.K.b, t.Ao.arr(), t.bo.arr(), s.m, s.n, qq.arr)
        r = c_canonical(interp, v)
        K2, K = ctx.ghost["canon"], st.K
        ctx.assume(la.selc(K2.A2, qq.arr, s.m) == la.eye(s.m))
        ctx.assume(mm(K.Ab, K.N) == la.eye(s.m))
        ctx.ensure("the canonical matrix does not depend on row signs", K2.A2 == K.A2)
        ctx.ensure("the canonical right-hand side does not depend on row signs", K2.b2 == K.b2)
        t2 = P(ctx, o)
        A2t = K2.A
        if not A2t.eq(K.A):
            # the reduced objective: both dual vectors give the same yA, as both inverses do
            ctx.ensure("the products with the transposes", z3.And(K2.yA == mv(mm(tr(K2.A), tr(K2.N)), K2.cb), K.yA == mv(mm(tr(K.A), tr(K.N)), K.cb)))
            ctx.ensure("the transposes of the products", z3.And(mm(tr(K2.A), tr(K2.N)) == tr(K2.A2), mm(tr(K.A), tr(K.N)) == tr(K.A2)))
            ctx.ensure("the reduced objective does not depend on row signs", K2.yA == K.yA)
        e, j = ctx.fresh("e", IntS), z3.Int("j_")
        t2 = P(ctx, o)
        inn = lambda k: z3.And(0 <= k, k < s.n)
        ctx.ensure("the objective becomes the reduced objective", z3.Implies(inn(e), t2.c(e) == S(st.c2, e)))
        ctx.assume(z3.ForAll([j], z3.Implies(inn(j), t2.c(j) == S(st.c2, j)), patterns=[S(st.c2, j)], qid="reduced"))
        return r
    return {**IS_BASIS, **BASIC, "LinearProgram.__to_canonical_form": Contract(canonical)}


def iteration_loops():
    def inv_k(L):
        st = L.ctx.ghost["start"]
        c = L["self"].attrs["_c"]
        if L["k"] is not None:
            raise Unsupported("the entering variable before it is found")
        j = z3.Int("j_")
        return [("columns seen so far do not improve", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < L.i), z3.Not(term(positive(L, L.it.elem(j))))), patterns=[term(L.it.elem(j))]))]

    def chosen(L):
        L.ctx.ghost["chosen"] = term(L.it.elem(L.i))

    def positive(L, e):
        return cmp(L["self"].attrs["_c"].at(term(e)), ">", R0)

    def inv_t(L):
        col, lv, t = L["Ak"], L["leave"], L["t"]
        b = attr(L["self"], "_b").frozen()
        a = col.frozen()
        j = z3.Int("j_")
        st = L.ctx.ghost["start"]
        if "chosen" not in L.ctx.ghost and isinstance(L["k"], SV):  # found by other means than the loop
            L.ctx.ghost["chosen"] = L["k"].t
        key = S(S(st.K.A2, j), L.ctx.ghost.get("k_term", st.k))
        if lv is None or t is INF:
            if not (lv is None and t is INF):
                return [("a row is chosen together with a ratio", z3.BoolVal(False))]
            return [("no row so far limits the step", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < L.i), z3.Not(cmp(a(j), ">", R0))), patterns=[S(st.K.A2, j)]))]
        r, t = term(lv), real(t)
        L.ctx.ghost["leave"] = (r, t)
        return [("the limiting row", z3.And(0 <= r, r < L.i, cmp(a(r), ">", R0), t * a(r) == b(r))),
                ("no row so far limits the step more", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < L.i, cmp(a(j), ">", R0)), t * a(j) <= b(j)), patterns=[S(st.K.A2, j)]))]
    return {("LinearProgram.simplex_iteration", 0): LoopSpec(inv_k, types={"k": lambda it, old: None}, begin=chosen),
            ("LinearProgram.simplex_iteration", 1): LoopSpec(inv_t, types={"t": ("inf", RealS), "leave": ("opt", IntS)})}


@unit("LinearProgram.simplex_iteration", "C17", "C11", functions=["LinearProgram.simplex_iteration", "LinearProgram.copy", "LinearProgram.__init__"], limit=400)
def u_iteration(ctx):
    o = new_lp(ctx)
    s, kp = P(ctx, o), Keep(ctx, o)
    ctx.assume(s.m >= 1)
    B = SSeq(ctx, ctx.fresh("basis_len", IntS), ctx.fresh("basis", la.IVec), IntS)
    ctx.assume(B.n >= 0)
    kb = kept(B)
    it = Interp(ctx, ctx.program, {}, {})
    q0 = shifted(it, B)
    q = sort_seq(it, SSeq(ctx, q0.n, q0.arr, IntS))
    st = None
    in_place = ctx.choose(2) == 0
    if o.attrs["_is_sef"]:
        st = Start(ctx, s, q)
        ctx.ghost["start"] = st
    cs = iteration_contracts(ctx, st) if st else IS_BASIS
    out = run_lp(ctx, o, "simplex_iteration", B, ctx.choose(2) == 0, in_place, loops=iteration_loops(), contracts=cs)
    ctx.ensure("[C11] simplex_iteration does not change the list", unchanged(kb))
    if not in_place:
        kp.ensure(ctx, "simplex_iteration")
    if st is None:
        raised(ctx, out, "ArithmeticError", "programs not in standard equality form are rejected")
        return
    if out.raised and exc_is(out, "ValueError"):
        ctx.ensure("no basis is rejected", z3.Not(basis_spec(ctx, s, q0)))
        return
    ctx.ensure("lists that are not bases are rejected", z3.And(*basis_parts(ctx, s, q0)))
    K = st.K
    ctx.ensure("the sorted positions are a basis", z3.And(q.n == s.m, quantify(ctx, (s.m,), lambda p: z3.And(0 <= S(q.arr, p), S(q.arr, p) < s.n)), detq(K.A, q.arr, s.m) != 0))
    name_positions(ctx, q, s)
    canonical_facts(ctx, K, s, q)
    st.least(ctx)
    if out.raised:
        raised(ctx, out, "ArithmeticError", "simplex_iteration raises nothing else")
        X = nd.fresh(ctx, "basic", [s.n]).arr()
        assume_basic(ctx, s, q, X)
        ctx.ensure("only infeasible bases are refused", z3.Exists([z3.Int("j_")], S(K.b2, z3.Int("j_")) < 0))
        return
    if not (isinstance(out.value, tuple) and len(out.value) == 3):
        raise Unsupported("the result is not a triple")
    x, basis, lp = out.value
    if in_place:
        ctx.ensure("[C11] simplex_iteration in place returns the program itself", lp is o)
    else:
        ctx.ensure("[C11] simplex_iteration returns another program", lp is not o)
        separate(ctx, "simplex_iteration", o, lp)
    t = P(ctx, lp)
    ctx.ensure("the returned program is the canonical form: matrix", t.Ao.arr() == K.A2)
    ctx.ensure("the returned program is the canonical form: right-hand side", t.bo.arr() == K.b2)
    j = ctx.fresh("j", IntS)
    ctx.ensure("the returned program is the canonical form: objective", z3.Implies(z3.And(0 <= j, j < s.n), t.c(j) == S(st.c2, j)))
    ctx.ensure("the returned program is in standard equality form", t.sef)
    if x is not None:
        if basis is None:
            raise Unsupported("an optimal result without a basis")
        ctx.reach("optimal")
        ctx.ensure("an optimal basis is the given one", z3.And(basis.n == s.m, quantify(ctx, (s.m,), lambda p: S(basis.arr, p) == S(q.arr, p) + 1)))
        optimal(ctx, st, x)
        return
    if basis is None:
        ctx.reach("unbounded")
        unbounded(ctx, st, attr(lp, "_feasible_solution"), attr(lp, "_feasible_basis"))
        return
    ctx.reach("next basis")
    next_basis(ctx, st, basis)


def point(ctx, st, X, what):
    """X is the basic solution of the basis; it solves the equations and its components are the canonical right-hand side."""
    s, q, K = st.s, st.q, st.K
    a, e = ctx.fresh("a", IntS), ctx.fresh("e", IntS)
    ctx.ensure(f"{what} is zero outside the basis", z3.Implies(z3.Not(member(ctx, q, e)), S(X, e) == 0))
    ctx.ensure(f"{what} has the canonical right-hand side in the basis", z3.Implies(z3.And(0 <= a, a < s.m), S(X, S(q.arr, a)) == S(K.b2, a)))
    i = z3.Int("i_")
    ctx.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < s.m), S(X, S(q.arr, i)) == S(K.b2, i)), patterns=[S(q.arr, i)]))
    ctx.assume(z3.ForAll([i], z3.Implies(z3.Not(member(ctx, q, i)), S(X, i) == 0), patterns=[S(X, i)]))
    scatter_law(ctx, X, q.arr, s.m, K.b2)
    solves_by_inverse(ctx, K.Ab, s.m, K.b)
    ctx.ensure(f"a row of the equations sees only the basis", dot(S(K.A, a), X) == dot(S(K.Ab, a), K.b2))
    ctx.ensure(f"{what} solves the equations", z3.Implies(z3.And(0 <= a, a < s.m), dot(S(K.A, a), X) == S(K.b, a)))
    ctx.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < s.m), dot(S(K.A, i), X) == S(K.b, i)), patterns=[S(K.A, i)]))


def nonneg(ctx, s, X):
    return quantify(ctx, (s.n,), lambda p: S(X, p) > -TOL)


def optimal(ctx, st, x):
    s, K = st.s, st.K
    ctx.ensure("the solution has one component per variable", isinstance(x, Nd) and x.nd == 1 and ctx.holds(x.dims[0] == s.n))
    e = ctx.fresh("e", IntS)
    ctx.ensure("columns outside the basis do not improve", z3.Implies(z3.And(0 <= e, e < s.n, z3.Not(member(ctx, st.q, e))), S(st.c2, e) < TOL))
    ctx.ensure("basic columns have reduced objective zero", z3.Implies(z3.And(0 <= e, e < s.n, member(ctx, st.q, e)), S(st.c2, e) == 0))
    ctx.ensure("an optimal canonical program has no improving column at this place", z3.Implies(z3.And(0 <= e, e < s.n), S(st.c2, e) < TOL))
    ctx.assume(st.none)  # it holds for an arbitrary e
    ctx.ensure("the dual vector is feasible up to tolerance", z3.Implies(z3.And(0 <= e, e < s.n), dot(S(tr(K.A), e), K.y) >= S(K.c, e) - TOL))
    X = x.arr()
    point(ctx, st, X, "the optimal solution")
    ctx.ensure("the optimal solution is nonnegative up to tolerance", nonneg(ctx, s, X))
    same_value(ctx, st, X)


def same_value(ctx, st, X):
    """cX = yb for the basic solution X and the dual vector y of the basis."""
    s, K, c2 = st.s, st.K, st.c2
    (w,) = la.law(ctx, "summand", c2, X)
    ctx.ensure("basic variables have reduced objective zero", z3.Implies(z3.And(0 <= w, w < s.n, S(X, w) != 0), S(c2, w) == 0))
    ctx.ensure("the reduced objective of the basic solution is zero", dot(c2, X) == 0)
    Ax = mv(K.A, X)
    ctx.mention(Ax)
    nd.of_term(ctx, Ax, (s.m,), zero=True)
    a = ctx.fresh("a", IntS)
    ctx.ensure("left side", S(Ax, a) == S(K.b, a))
    ctx.assume(Ax == K.b)
    across(ctx, tr(K.A), K.y, X)
    ctx.ensure("the dual vector sees the right-hand side", dot(K.yA, X) == dot(K.y, Ax))
    ctx.ensure("objective and reduced objective", dot(c2, X) == dot(K.c, X) - dot(K.yA, X))
    ctx.ensure("solution and dual vector have the same value", dot(K.c, X) == dot(K.y, K.b))


def ray_facts(ctx, st, D):
    """D is 1 at the entering column, minus that column of the canonical matrix in the basis, and zero elsewhere."""
    s, q, K, k = st.s, st.q, st.K, st.k
    col = S(tr(K.A2), k)
    la.apply(ctx, "ray", "a product with the direction", D, q.arr, s.m, col, k)
    a, e = ctx.fresh("a", IntS), ctx.fresh("e", IntS)
    M, m = K.Ab, s.m
    MA2 = mm(M, K.A2)
    ctx.mention(MA2)
    ctx.mention(la.mmm(M, K.N, K.A))
    ctx.ensure("multiplying back the canonical matrix", MA2 == mm(la.eye(m), K.A))
    ctx.ensure("the entering column, multiplied back", S(S(MA2, a), k) == dot(S(M, a), col))
    ctx.ensure("the identity changes no entry", z3.Implies(z3.And(0 <= a, a < m), S(S(mm(la.eye(m), K.A), a), k) == S(S(K.A, a), k)))
    ctx.ensure("the direction on a row", z3.Implies(z3.And(0 <= a, a < m), dot(S(K.A, a), D) == S(S(K.A, a), k) - dot(S(M, a), col)))
    ctx.ensure("the direction lies in the null space", z3.Implies(z3.And(0 <= a, a < m), dot(S(K.A, a), D) == 0))
    i = z3.Int("i_")
    ctx.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), dot(S(K.A, i), D) == 0), patterns=[S(K.A, i)]))
    AD = mv(K.A, D)
    ctx.mention(AD)
    nd.of_term(ctx, AD, (m,), zero=True)
    ctx.ensure("the direction in the null space, as a vector", S(AD, e) == S(la.zvec, e))
    ctx.assume(AD == la.zvec)
    across(ctx, tr(K.A), K.y, D)
    ctx.ensure("the dual vector sees nothing of the direction", dot(K.yA, D) == dot(K.y, AD))
    cq = la.selv(st.c2, q.arr, m)
    ctx.mention(cq)
    ctx.ensure("no reduced objective in the basis", S(cq, e) == S(la.zvec, e))
    ctx.assume(cq == la.zvec)
    ctx.ensure("the reduced objective along the direction", dot(st.c2, D) == S(st.c2, k))
    ctx.ensure("objective and reduced objective along the direction", dot(st.c2, D) == dot(K.c, D) - dot(K.yA, D))
    ctx.ensure("the direction improves", dot(K.c, D) == S(st.c2, k))


def ray_entries(ctx, st, D):
    """The facts ray_facts rests on, as formulas about the entries of D."""
    s, q, K, k = st.s, st.q, st.K, st.k
    i = z3.Int("i_")
    return [z3.Not(member(ctx, q, k)), S(D, k) == 1,
            z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < s.m), S(D, S(q.arr, i)) == -S(S(K.A2, i), k)), patterns=[S(q.arr, i)]),
            z3.ForAll([i], z3.Implies(z3.And(z3.Not(member(ctx, q, i)), i != k), S(D, i) == 0), patterns=[S(D, i)])]


def unbounded(ctx, st, x, fb):
    s, K, q = st.s, st.K, st.q
    st.found(ctx)
    a = ctx.fresh("a", IntS)
    ctx.ensure("the improving column limits no step", z3.Implies(z3.And(0 <= a, a < s.m), S(S(K.A2, a), st.k) < TOL))
    X = x.arr()
    ctx.ensure("the feasible point has one component per variable", x.dims[0] == s.n)
    point(ctx, st, X, "the feasible point")
    ctx.ensure("the feasible point is nonnegative up to tolerance", nonneg(ctx, s, X))
    ctx.ensure("the basis of the feasible point is kept", z3.And(fb.n == s.m, fb.arr == q.arr))


def next_basis(ctx, st, basis):
    s, K, q, k = st.s, st.K, st.q, st.k
    if "leave" not in ctx.ghost:
        raise Unsupported("no leaving row")
    l, t = ctx.ghost["leave"]
    st.found(ctx)
    ctx.ensure("the entering column is not in the basis", z3.Not(member(ctx, q, k)))
    a, b = ctx.fresh("a", IntS), ctx.fresh("b", IntS)
    ctx.ensure("the next basis has one position per row", basis.n == s.m)
    ina = z3.And(0 <= a, a < s.m)
    e = S(basis.arr, a) - 1
    ctx.ensure("the next basis keeps the others and takes the entering column", z3.Implies(ina, z3.Or(e == k, z3.And(member(ctx, q, e), e != S(q.arr, l)))))
    ctx.ensure("the next basis is sorted, without repetition", z3.Implies(z3.And(ina, 0 <= b, a < b, b < s.m), S(basis.arr, a) < S(basis.arr, b)))
    # the next basic solution: the step along the direction
    X, D = nd.fresh(ctx, "basic", [s.n]), nd.fresh(ctx, "dir", [s.n])
    x, d = X.arr(), D.arr()
    i = z3.Int("i_")
    assume_basic(ctx, s, q, x)
    for f in ray_entries(ctx, st, d):
        ctx.assume(f)
    ray_facts(ctx, st, d)
    comp = lambda p: S(x, S(q.arr, p)) == S(K.b2, p)
    ctx.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < s.m), comp(i)), patterns=[S(q.arr, i)]))  # mv(N, b) is b2
    x2 = nd.make(ctx, (s.n,), lambda p: S(x, p) + t * S(d, p)).arr()
    ctx.ensure("the next point solves the equations", z3.Implies(ina, dot(S(K.A, a), x2) == S(K.b, a)))
    ctx.ensure("the next point vanishes outside the next basis", z3.Implies(z3.And(z3.Or(z3.Not(member(ctx, q, a)), a == S(q.arr, l)), a != k), S(x2, a) == 0))
    ctx.assume(quantify(ctx, (s.n,), lambda p: S(x, p) >= 0))
    ctx.ensure("from a feasible basis the canonical right-hand side is not negative", z3.And(S(K.b2, l) >= 0, z3.Implies(ina, S(K.b2, a) >= 0)))
    ctx.ensure("the step is not negative", t >= 0)
    ctx.ensure("the next point stays feasible in the basis", z3.Implies(z3.And(ina, z3.Or(S(S(K.A2, a), k) <= 0, S(S(K.A2, a), k) >= TOL)), S(K.b2, a) - t * S(S(K.A2, a), k) >= 0))
    ctx.ensure("the next point stays feasible up to tolerance of the step", z3.Implies(ina, S(K.b2, a) - t * S(S(K.A2, a), k) >= -(t * TOL)))
    ctx.ensure("the next point has these components", z3.Implies(ina, S(x2, S(q.arr, a)) == S(K.b2, a) - t * S(S(K.A2, a), k)))
    ctx.ensure("the entering component is the step", S(x2, k) == t)
    ctx.ensure("the objective at the next point", dot(K.c, x2) == dot(K.c, x) + t * S(st.c2, k))
    ctx.ensure("the objective is never lowered", dot(K.c, x2) >= dot(K.c, x))


# ---------------------------------------------------------------- run to the end
class Outcome:
    """What one iteration from a basis may return, with the facts proved about it (LinearProgram.simplex_iteration)."""

    def __init__(self, ctx, o, s, kind):
        self.kind, self.s = kind, s
        q = self.q = SSeq(ctx, s.m, ctx.fresh("positions", la.IVec), IntS)
        self.x = self.basis = None
        i = z3.Int("i_")
        if kind == "next":
            n, a = ctx.fresh("basis_len", IntS), ctx.fresh("basis", la.IVec)
            ctx.assume(n >= 0)
            self.basis = SSeq(ctx, n, a, IntS)
            self.lp = shell(ctx, o)
            return
        st = self.st = Start(ctx, s, q)
        K, X = st.K, nd.fresh(ctx, "x", [s.n])
        x = self.X = X.arr()
        ctx.assume(quantify(ctx, (s.m,), lambda p: z3.And(0 <= S(q.arr, p), S(q.arr, p) < s.n)))
        ctx.assume(detq(K.A, q.arr, s.m) != 0)
        name_positions(ctx, q, s)
        self.point = [z3.ForAll([i], z3.Implies(z3.Not(member(ctx, q, i)), S(x, i) == 0), patterns=[S(x, i)]),
                      z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < s.m), S(x, S(q.arr, i)) == S(K.b2, i)), patterns=[S(q.arr, i)]),
                      z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < s.m), dot(S(K.A, i), x) == S(K.b, i)), patterns=[S(K.A, i)]),
                      nonneg(ctx, s, x)]
        for f in self.point:
            ctx.assume(f)
        if kind == "optimal":
            self.x = X
            self.basis = Interp(ctx, ctx.program, {}, {}).to_list(SeqIter(s.m, lambda k: SV(S(q.arr, k) + 1)))
            ctx.assume(st.none)
            ctx.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < s.n), dot(S(tr(K.A), i), K.y) >= S(K.c, i) - TOL), patterns=[S(tr(K.A), i)]))
            ctx.assume(dot(K.c, x) == dot(K.y, K.b))
            self.lp = shell(ctx, o)
            return
        ctx.assume(st.improving)
        ctx.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < s.m), S(S(K.A2, i), st.k) < TOL), patterns=[S(K.A2, i)]))
        self.lp = shell(ctx, o)
        a = self.lp.attrs
        a["_A"], a["_b"] = nd.of_term(ctx, K.A2, (s.m, s.n), zero=True), nd.of_term(ctx, K.b2, (s.m,), zero=True)
        a["_c"] = nd.pointwise(Interp(ctx, ctx.program, {}, {}), [s.co, nd.of_term(ctx, K.yA, (s.n,), zero=True)], lambda u, v: u - v)
        a["_feasible_solution"], a["_feasible_basis"] = X, q


def shell(ctx, o):
    """A program in standard equality form returned by an iteration, nothing known about its content."""
    r = Obj(ctx, o.cls)
    r.attrs.update(o.attrs)
    for k in ("_A", "_b", "_c", "_z", "_steps"):
        r.attrs.pop(k, None)
    r.attrs["_steps"] = Steps(ctx)
    return r


def c_iteration(interp, v):
    ctx, o = interp.ctx, v["self"]
    if not isinstance(o.attrs["_is_sef"], bool):
        raise Unsupported("standard equality form is not decided")
    if not o.attrs["_is_sef"]:
        raise PyRaise("ArithmeticError", "simplex_iteration")
    if v["in_place"] is not False:
        raise Unsupported("simplex_iteration in place by contract")
    s = P(ctx, o)
    if not ctx.holds(s.m >= 1):
        raise Unsupported("simplex_iteration of a program that may have no rows")
    q0 = shifted(interp, v["basis"])
    k = ctx.choose(5)
    if k == 0:
        ctx.assume(z3.Not(basis_spec(ctx, s, q0)))
        raise PyRaise("ValueError", "simplex_iteration")
    ctx.assume(z3.And(*basis_parts(ctx, s, q0)))
    if k == 1:
        raise PyRaise("ArithmeticError", "simplex_iteration")
    r = Outcome(ctx, o, s, ("optimal", "unbounded", "next")[k - 2])
    ctx.ghost["outcome"] = r
    return (r.x, r.basis, r.lp)


ITERATION = {"LinearProgram.simplex_iteration": Contract(c_iteration)}


def simplex_loop():
    def havoc(L):
        ctx = L.ctx
        o, s = L["self"], L.g["s"]
        k = ctx.choose(4)
        if k == 3:  # before the first iteration
            L["solution"], L["basis"], L["updated_lp"] = L.g["entry"]
            ctx.ghost.pop("outcome", None)
            return
        r = Outcome(ctx, o, s, ("optimal", "unbounded", "next")[k])
        ctx.ghost["outcome"] = r
        L["solution"], L["basis"], L["updated_lp"] = r.x, r.basis, r.lp

    def enter(L):
        L.g["s"] = P(L.ctx, L["self"])
        L.g["entry"] = (L["solution"], L["basis"], L["updated_lp"])

    def inv(L):
        now = (L["solution"], L["basis"], L["updated_lp"])
        r = L.ctx.ghost.get("outcome")
        was = L.g["entry"] if r is None else (r.x, r.basis, r.lp)
        return [("the state is what the last iteration returned", z3.BoolVal(all(a is b for a, b in zip(now, was))))]
    keep = lambda it, old: old
    return {("LinearProgram.simplex", 0): LoopSpec(inv, enter=enter, havoc=havoc, kind="while", types={k: keep for k in ("solution", "basis", "updated_lp", "certificate")})}


@unit("LinearProgram.simplex", "C17", "C18", "C11", functions=["LinearProgram.simplex"], limit=150, shared=("C18",))
def u_simplex(ctx):
    o = new_lp(ctx)
    s, kp = P(ctx, o), Keep(ctx, o)
    ctx.assume(s.m >= 1)
    B = SSeq(ctx, ctx.fresh("basis_len", IntS), ctx.fresh("basis", la.IVec), IntS)
    ctx.assume(B.n >= 0)
    kb = kept(B)
    out = run_lp(ctx, o, "simplex", B, ctx.choose(2) == 0, loops=simplex_loop(), contracts=ITERATION)
    ctx.ensure("[C11] simplex does not change the list", unchanged(kb))
    kp.ensure(ctx, "simplex")
    if not o.attrs["_is_sef"]:
        raised(ctx, out, "ArithmeticError", "programs not in standard equality form are rejected")
        return
    if out.raised:
        ctx.ensure("simplex raises only for lists that are no bases and infeasible bases", exc_is(out, "ValueError") or exc_is(out, "ArithmeticError"))
        return
    simplex_result(ctx, s, ctx.ghost.get("outcome"), out.value)


def chosen_by(t, A):
    """The lists by which columns of A are chosen inside the term t."""
    out, stack = {}, [t]
    while stack:
        e = stack.pop()
        if z3.is_app(e):
            if e.decl().name() == "selc" and e.arg(0).eq(A):
                out[e.arg(1).get_id()] = e.arg(1)
            stack += e.children()
    return list(out.values())


def simplex_result(ctx, s, r, value):
    if r is None or not (isinstance(value, tuple) and len(value) == 3):
        raise Unsupported("the result of simplex")
    x, basis, cert = value
    K, q, st = r.st.K, r.q, r.st
    e, a = ctx.fresh("e", IntS), ctx.fresh("a", IntS)
    inn, ina = z3.And(0 <= e, e < s.n), z3.And(0 <= a, a < s.m)
    ctx.ensure("an outcome is optimal or unbounded", r.kind in ("optimal", "unbounded"))
    if r.kind == "optimal":
        ctx.reach("optimal")
        ctx.ensure("the solution returned is the optimal one", x is r.x)
        ctx.ensure("the basis returned is its basis", basis is r.basis)
        ctx.ensure("the certificate is a vector with one component per row", isinstance(cert, Nd) and cert.nd == 1 and ctx.holds(cert.dims[0] == s.m))
        y = cert.arr()
        for w in chosen_by(y, K.A):
            la.apply(ctx, "agree", "the certificate uses the basis returned", K.A, K.c, w, q.arr, s.m)
        ctx.ensure("the certificate is the dual vector of the basis", y == K.y)
        ctx.ensure("the certificate is dual feasible up to tolerance", z3.Implies(inn, dot(S(tr(K.A), e), y) >= S(K.c, e) - TOL))
        ctx.ensure("the certificate and the solution have the same value", dot(K.c, r.X) == dot(y, K.b))
        return
    ctx.reach("unbounded")
    ctx.ensure("no solution and no basis of an unbounded program", x is None and basis is None)
    ok = isinstance(cert, tuple) and len(cert) == 2 and all(isinstance(v, Nd) and v.nd == 1 for v in cert)
    ctx.ensure("the certificate is a point and a direction", ok)
    if not ok:
        return
    px, d = cert
    ctx.ensure("point and direction have one component per variable", z3.And(px.dims[0] == s.n, d.dims[0] == s.n))
    ctx.ensure("the point is the feasible one", z3.Implies(inn, px.at(e) == S(r.X, e)))
    D = d.arr()
    entries = ray_entries(ctx, st, D)
    objective_fact(ctx, K, s, q)
    ctx.ensure("the entering column is not in the basis", entries[0])
    if "argmax" in ctx.ghost:
        k, f = ctx.ghost["argmax"]
        ctx.mention(f(st.k))
        ctx.ensure("the direction enters the first improving column", k == st.k)
    ctx.ensure("the direction is one at the entering column", entries[1])
    ctx.ensure("the direction in the basis", z3.Implies(ina, S(D, S(q.arr, a)) == -S(S(K.A2, a), st.k)))
    ctx.ensure("the direction is zero elsewhere", z3.Implies(z3.And(inn, z3.Not(member(ctx, q, e)), e != st.k), S(D, e) == 0))
    for f in entries[2:]:
        ctx.assume(f)
    ctx.ensure("the direction is not negative up to tolerance", z3.Implies(inn, S(D, e) > -TOL))
    canonical_facts(ctx, K, s, q)
    ray_facts(ctx, st, D)
    ctx.ensure("the direction improves the objective by at least the tolerance", dot(K.c, D) >= TOL)
