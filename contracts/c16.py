"""C16: canonical form."""
from lp import *
from c12 import separate, own, same_rest
from c15 import *
import c15

Mat, Vec = la.Mat, la.Vec


class Canon:
    """The terms of the canonical form of s for the positions q."""

    def __init__(self, ctx, s, q):
        self.A, self.b, self.c = s.arrs()
        self.m, self.n, self.q = s.m, s.n, q
        self.Ab = la.selc(self.A, q.arr, s.m)
        self.cb = la.selv(self.c, q.arr, s.m)
        self.N = inv(self.Ab, s.m)
        self.y = mv(tr(self.N), self.cb)
        self.A2 = mm(self.N, self.A)
        self.b2 = mv(self.N, self.b)
        self.yA = mv(tr(self.A), self.y)
        self.z2 = dot(self.y, self.b) + s.z
        for t in (self.Ab, self.N, self.A2):
            ctx.mention(t)
        for t in (self.cb, self.y, self.b2, self.yA):
            ctx.mention(t)
        ctx.assume(la.square(self.Ab, s.m))


def c_canonical(interp, v):
    """__to_canonical_form for positions whose columns have a nonzero determinant."""
    ctx, o, B = interp.ctx, v["self"], v["basis"]
    s = P(ctx, o)
    B = positions(interp, B)
    A, b, c = s.arrs()
    ctx.ensure("the canonical form is asked for a basis", z3.And(B.n == s.m, quantify(ctx, (B.n,), lambda k: z3.And(0 <= S(B.arr, k), S(B.arr, k) < s.n)), detq(A, B.arr, s.m) != 0))
    K = Canon(ctx, s, B)
    name_positions(ctx, B, s)
    o.attrs["_A"] = nd.of_term(ctx, K.A2, (s.m, s.n), zero=True)
    o.attrs["_b"] = nd.of_term(ctx, K.b2, (s.m,), zero=True)
    yA = K.yA
    o.attrs["_c"] = nd.make(ctx, (s.n,), lambda j: S(c, j) - S(yA, j))
    o.attrs["_z"] = SV(K.z2, "float")
    i, k, j = z3.Ints("i_ k_ j_")
    c2 = o.attrs["_c"].arr()
    q = B.arr
    ctx.assume(z3.ForAll([i, k], z3.Implies(z3.And(0 <= i, i < s.m, 0 <= k, k < s.m), S(S(K.A2, i), S(q, k)) == z3.If(i == k, R1, R0)), patterns=[z3.MultiPattern(S(K.A2, i), S(q, k))], qid="canon_id"))
    ctx.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < s.m), S(c2, S(q, k)) == 0), patterns=[S(q, k)], qid="canon_c"))
    ctx.ghost["canon"] = K
    return o


def positions(interp, B):
    if isinstance(B, PList):
        B = interp.to_list(nd.as_nd(interp.ctx, B).py_iter(interp))
    if isinstance(B, Nd) and B.dt == "int" and B.nd == 1:
        B = interp.to_list(B.py_iter(interp))
    if not isinstance(B, SSeq) or B.sort != IntS:
        raise Unsupported(f"positions {B!r}")
    return B


CANONICAL = {"LinearProgram.__to_canonical_form": Contract(c_canonical)}


@unit("LinearProgram.__to_canonical_form", "C16", functions=["LinearProgram.__to_canonical_form"])
def u_canonical(ctx):
    o = new_lp(ctx, sef=True)
    s, k = P(ctx, o), Keep(ctx, o)
    ctx.assume(s.m >= 1)
    q = SSeq(ctx, s.m, ctx.fresh("basis", la.IVec), IntS)
    ctx.assume(quantify(ctx, (s.m,), lambda p: z3.And(0 <= S(q.arr, p), S(q.arr, p) < s.n)))
    ctx.assume(detq(s.Ao.arr(), q.arr, s.m) != 0)
    K = Canon(ctx, s, q)
    out = run_lp(ctx, o, "_LinearProgram__to_canonical_form", q, ctx.choose(2) == 0)
    ctx.ensure("the canonical form can be computed for every basis", not out.raised)
    if out.raised:
        return
    ctx.ensure("the program itself is returned", out.value is o)
    t = P(ctx, o)
    ctx.ensure("the arrays before are not changed", all(k.attrs[a].buf.fn is k.fns[a] for a in ("_A", "_b", "_c")))
    ctx.ensure("the size stays", z3.And(t.m == s.m, t.n == s.n, t.bn == s.m, t.cn == s.n))
    ctx.ensure("the matrix is multiplied with the inverse of the basis columns", t.Ao.arr() == K.A2)
    ctx.ensure("the right-hand side is multiplied with the inverse of the basis columns", t.bo.arr() == K.b2)
    j = ctx.fresh("j", IntS)
    ctx.ensure("the objective is reduced by the dual vector", z3.Implies(z3.And(0 <= j, j < s.n), t.c(j) == S(K.c, j) - S(K.yA, j)))
    ctx.ensure("the constant grows by the dual value", t.z == K.z2)
    same_rest(ctx, s, t, "canonical form", ("obj", "free", "neg", "rel"))
    ctx.ensure("canonical form stays in standard equality form", t.sef)
    ctx.reach("canonical form")


@unit("canonical form is equivalent", "C16", note="lemma over the contract of __to_canonical_form", limit=100)
def u_equivalent(ctx):
    o = new_lp(ctx, sef=True)
    s = P(ctx, o)
    ctx.assume(s.m >= 1)
    q = SSeq(ctx, s.m, ctx.fresh("basis", la.IVec), IntS)
    ctx.assume(quantify(ctx, (s.m,), lambda p: z3.And(0 <= S(q.arr, p), S(q.arr, p) < s.n)))
    A, b, c = s.arrs()
    ctx.assume(detq(A, q.arr, s.m) != 0)
    part = ctx.choose(4)
    i, k, p = ctx.fresh("i", IntS), ctx.fresh("k", IntS), z3.Int("p_")
    ini = z3.And(0 <= i, i < s.m, 0 <= k, k < s.m)
    K = Canon(ctx, s, q)
    M, N, m = K.Ab, K.N, s.m
    one = la.eye(m)
    if part == 0:
        ctx.ensure("the inverse times the basis is the identity", mm(N, M) == one)
        ctx.ensure("choosing the basis columns of the canonical matrix", la.selc(K.A2, q.arr, m) == mm(N, M))
        ctx.ensure("basis columns of the canonical matrix, entrywise", z3.Implies(ini, S(S(K.A2, i), S(q.arr, k)) == S(S(la.selc(K.A2, q.arr, m), i), k)))
        ctx.ensure("the basis columns are the identity", z3.Implies(ini, S(S(K.A2, i), S(q.arr, k)) == z3.If(i == k, R1, R0)))
        return
    if part == 1:
        ctx.ensure("the inverse times the basis is the identity", mm(N, M) == one)
        ctx.ensure("transposed", mm(tr(M), tr(N)) == one)
        ctx.ensure("the dual vector reproduces the basis costs", mv(tr(M), K.y) == mv(mm(tr(M), tr(N)), K.cb))
        nd.of_term(ctx, K.cb, (m,), zero=True)
        ctx.ensure("the identity changes nothing", z3.Implies(z3.And(0 <= k, k < m), S(mv(one, K.cb), k) == S(K.cb, k)))
        ctx.ensure("a basis column", z3.Implies(z3.And(0 <= k, k < m), z3.Implies(ini, S(S(tr(M), k), i) == S(S(tr(A), S(q.arr, k)), i))))
        e = z3.Int("e_")
        Mn = nd.of_term(ctx, M, (m, m), zero=True)
        ctx.ensure("basis columns are columns", z3.Implies(z3.And(0 <= k, k < m), z3.ForAll([e], S(S(tr(M), k), e) == S(S(tr(A), S(q.arr, k)), e))))
        ctx.assume(z3.Implies(z3.And(0 <= k, k < m), S(tr(M), k) == S(tr(A), S(q.arr, k))))  # extensionality
        ctx.ensure("the dual vector on a basis column", z3.Implies(z3.And(0 <= k, k < m), dot(S(tr(A), S(q.arr, k)), K.y) == S(mv(tr(M), K.y), k)))
        ctx.ensure("the objective vanishes on the basis", z3.Implies(z3.And(0 <= k, k < m), S(c, S(q.arr, k)) - S(K.yA, S(q.arr, k)) == 0))
        return
    X = nd.fresh(ctx, "x", [s.n]).arr()
    Ax = mv(A, X)
    ctx.mention(mv(K.A2, X))
    ctx.mention(Ax)
    ctx.ensure("the canonical left side", mv(K.A2, X) == mv(N, Ax))
    if part == 2:
        ctx.ensure("a solution solves the canonical equations", z3.Implies(Ax == b, mv(K.A2, X) == K.b2))
        ctx.ensure("the basis times the inverse is the identity", mm(M, N) == one)
        ctx.ensure("multiplying back the left side", mv(M, mv(N, Ax)) == mv(mm(M, N), Ax))
        ctx.ensure("multiplying back the right side", mv(M, mv(N, b)) == mv(mm(M, N), b))
        nd.of_term(ctx, Ax, (m,), zero=True)
        ctx.ensure("the identity changes no left side", z3.Implies(z3.And(0 <= k, k < m), S(mv(one, Ax), k) == S(Ax, k)))
        ctx.ensure("the identity changes no right side", z3.Implies(z3.And(0 <= k, k < m), S(mv(one, b), k) == S(b, k)))
        ctx.ensure("a canonical solution solves the equations", z3.Implies(z3.And(mv(K.A2, X) == K.b2, 0 <= k, k < m), S(Ax, k) == S(b, k)))
        return
    c2 = nd.pointwise(Interp(ctx, ctx.program, {}, {}), [s.co, nd.of_term(ctx, K.yA, (s.n,), zero=True)], lambda a, e: a - e).arr()
    ctx.assume(Ax == b)
    ctx.ensure("the canonical objective of a point", dot(c2, X) == dot(c, X) - dot(K.yA, X))
    across(ctx, tr(A), K.y, X)
    ctx.ensure("the dual vector sees the right-hand side", dot(K.yA, X) == dot(K.y, Ax))
    ctx.ensure("every solution keeps its objective value", dot(c2, X) + K.z2 == dot(c, X) + s.z)
    ctx.reach("a solution")


@unit("LinearProgram.to_canonical_form", "C16", "C11", functions=["LinearProgram.to_canonical_form", "LinearProgram.copy", "LinearProgram.__init__"])
def u_to_canonical(ctx):
    o = new_lp(ctx)
    s, k = P(ctx, o), Keep(ctx, o)
    ctx.assume(s.m >= 1)
    B = basis_arg(ctx)
    kb = kept(B)
    q = shifted(Interp(ctx, ctx.program, {}, {}), B)
    in_place = ctx.choose(2) == 0
    out = run_lp(ctx, o, "to_canonical_form", B, ctx.choose(2) == 0, in_place, contracts={**IS_BASIS, **CANONICAL})
    ctx.ensure("to_canonical_form does not change the list", unchanged(kb))
    if out.raised or not in_place:
        bad = [p for p, ok in k.same() if not ok]
        ctx.ensure("[C11] to_canonical_form leaves the program as it was" + (f" ({', '.join(bad)})" if bad else ""), not bad)
    if o.attrs["_is_sef"] is False:
        raised(ctx, out, "ArithmeticError", "programs not in standard equality form are rejected")
        return
    if out.raised:
        raised(ctx, out, "ValueError", "lists that are not bases raise ValueError")
        ctx.ensure("no basis is rejected", z3.Not(basis_spec(ctx, s, q)))
        return
    ctx.ensure("lists that are not bases are rejected", z3.And(*basis_parts(ctx, s, q)))
    r = out.value
    if in_place:
        ctx.ensure("[C11] to_canonical_form in place returns the program itself", r is o)
    else:
        ctx.ensure("[C11] to_canonical_form returns another program", r is not o)
        separate(ctx, "to_canonical_form", o, r)
    t = P(ctx, r)
    K = Canon(ctx, s, q)
    j = ctx.fresh("j", IntS)
    ctx.ensure("the size stays", z3.And(t.m == s.m, t.n == s.n, t.bn == s.m, t.cn == s.n))
    ctx.ensure("the matrix is the canonical one", t.Ao.arr() == K.A2)
    ctx.ensure("the right-hand side is the canonical one", t.bo.arr() == K.b2)
    ctx.ensure("the objective is the canonical one", z3.Implies(z3.And(0 <= j, j < s.n), t.c(j) == S(K.c, j) - S(K.yA, j)))
    ctx.ensure("the constant is the canonical one", t.z == K.z2)
    same_rest(ctx, s, t, "to_canonical_form", ("obj", "free", "neg", "rel"))
    ctx.ensure("canonical form stays in standard equality form", t.sef)
    ctx.reach("to_canonical_form returns")


@unit("LinearProgram.is_canonical_form_for", "C16", "C11", functions=["LinearProgram.is_canonical_form_for"])
def u_recognise(ctx):
    o = new_lp(ctx)
    s, k = P(ctx, o), Keep(ctx, o)
    ctx.assume(s.m >= 1)
    B = basis_arg(ctx)
    kb = kept(B)
    q = shifted(Interp(ctx, ctx.program, {}, {}), B)
    out = run_lp(ctx, o, "is_canonical_form_for", B, contracts=IS_BASIS)
    k.ensure(ctx, "is_canonical_form_for")
    ctx.ensure("is_canonical_form_for does not change the list", unchanged(kb))
    ctx.ensure("is_canonical_form_for does not raise", not out.raised)
    if out.raised:
        return
    r = is_true(out.value)
    e = lambda i, kk: s.A(i, S(q.arr, kk))
    d = lambda i, kk: z3.If(i == kk, R1, R0)
    ident = quantify(ctx, (s.m, s.m), lambda i, kk: e(i, kk) == d(i, kk))
    near_id = quantify(ctx, (s.m, s.m), lambda i, kk: nd.close(e(i, kk), d(i, kk)))
    zero = quantify(ctx, (s.m,), lambda kk: s.c(S(q.arr, kk)) == 0)
    near_z = quantify(ctx, (s.m,), lambda kk: nd.close(s.c(S(q.arr, kk)), R0))
    ctx.ensure("a canonical form is recognised", z3.Implies(z3.And(basis_spec(ctx, s, q), ident, zero), r))
    ctx.ensure("only bases are recognised", z3.Implies(r, z3.And(*basis_parts(ctx, s, q))))
    ctx.ensure("what is recognised has the identity in the basis columns", z3.Implies(r, near_id))
    ctx.ensure("what is recognised has no objective in the basis columns", z3.Implies(r, near_z))
    ctx.reach("is_canonical_form_for returns")
