"""C22: branch and bound."""
from lp import *
from c10 import INIT
from c11 import new_ip, rel_loop, IPM
from c01 import integral

BRANCH = "IntegerProgram.__branch"
SOLVED = "LinearProgram.solve"


def row_tol(s, i, v):
    """The relation of row i holds for v, inequalities up to the tolerance of 1e-10."""
    b = s.b(i)
    return z3.And(z3.Implies(s.le(i), v < b + TOL), z3.Implies(s.ge(i), v > b - TOL), z3.Implies(s.eq(i), v == b))


class Rival:
    """Any vector that is integral where it has to be: what is returned has to be as good if the vector is feasible."""

    def __init__(self, ctx, ip):
        self.ctx, self.ip = ctx, ip
        self.z = ctx.fresh("rival", la.Vec)
        iv = attr(ip, "_integral_variables")
        self.F = None if iv is None else ctx.ghost["members"][iv.arr.get_id()][0]
        j = z3.Int("j_")
        e = S(self.z, j)
        ctx.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, self.whole(j)), z3.IsInt(e)), patterns=[e]))

    def whole(self, j):
        """Variable j (from zero) is declared integral."""
        return z3.BoolVal(True) if self.F is None else S(self.F, j + 1)

    def missed(self, s, i, j):
        """Row i or sign j of the program is missed by the rival."""
        A = s.Ao.arr()
        return z3.Or(z3.And(0 <= i, i < s.m, z3.Not(s.row_ok(i, dot(S(A, i), self.z)))), z3.And(0 <= j, j < s.n, z3.Not(s.sign_ok(j, S(self.z, j)))))

    def answers(self, s, what):
        """Facts about a program that is infeasible, or unless the rival is infeasible, `what` holds."""
        ctx = self.ctx
        i, j = ctx.fresh("i", IntS), ctx.fresh("j", IntS)
        ctx.assume(z3.Or(what, self.missed(s, i, j)))
        ctx.ghost.setdefault("asked", []).append((s, i, j, what))


def decided(ctx, what):
    """One of two outcomes of a call; a unit may cover one of them only (another covers the other)."""
    d = ctx.ghost.get("decided", {}).get(what)
    return ctx.choose(2) if d is None else d


def as_good(s, val, other):
    return z3.If(s.obj == MIN, val <= other, val >= other)


def near(ctx, s, X):
    A = s.Ao.arr()
    i, j = z3.Ints("i_ j_")
    r, e = S(A, i), S(X, j)
    return [z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < s.m), row_tol(s, i, dot(r, X))), patterns=[r]),
            z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < s.n), s.sign_near(j, e)), patterns=[e])]


def c_solve(interp, v):
    """solve on a program with a bounded relaxation, as C19 states it: nothing for an infeasible program, otherwise a
    point that misses nothing beyond tolerance and that no feasible point beats."""
    ctx = interp.ctx
    s, R = P(ctx, v["self"]), ctx.ghost["rival"]
    ctx.ensure("the program solved has rows", s.m >= 1)
    if decided(ctx, "solve") == 1:
        R.answers(s, z3.BoolVal(False))
        return None
    x = nd.fresh(ctx, "solved", [s.n])
    X = ctx.ghost["X0"] = x.arr()
    for f in near(ctx, s, X):
        ctx.assume(f)
    R.answers(s, as_good(s, s.value(X), s.value(R.z)))
    return x


whole_number = z3.Function("whole_number", RealS, BoolS)  # within tolerance of an integer, as Comparator says (C01)


def c_is_integer(interp, v):
    e = real(v["value"])
    interp.ctx.assume(whole_number(e) == integral(e))
    return SV(whole_number(e))


def c_branch(interp, v):
    ctx = interp.ctx
    lp, R = v["lp"], ctx.ghost["rival"]
    if not isinstance(lp, Obj):
        raise Unsupported(f"branching on {lp!r}")
    s = P(ctx, lp)
    ctx.ensure("the program branched on has rows", s.m >= 1)
    subs = ctx.ghost.setdefault("branches", [])
    subs.append(s)
    if decided(ctx, f"branch {len(subs)}") == 1:
        R.answers(s, z3.BoolVal(False))
        return None
    x, val = nd.fresh(ctx, "x", [s.n]), ctx.fresh("value", RealS)
    X = x.arr()
    for f in near(ctx, s, X):
        ctx.assume(f)
    j = z3.Int("j_")
    e = S(X, j)
    ctx.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < s.n, R.whole(j)), whole_number(e)), patterns=[e]))
    ctx.assume(val == s.value(X))
    R.answers(s, as_good(s, val, s.value(R.z)))
    return PList(ctx, [x, SV(val, "float")])


def branch_loops():
    def inv(L):
        R, s = L.ctx.ghost["rival"], L.ctx.ghost["prog"]
        X = L["solution"].arr()
        return [("the position is the index", term(L["position"]) == L.i),
                ("components so far are integral where they have to be", quantify(L.ctx, (L.i,), lambda j: z3.Implies(R.whole(j), whole_number(S(X, j)))))]
    def begin(L):
        L.ctx.ghost["at"] = L.i
    return {(BRANCH, 0): LoopSpec(inv, begin=begin), **rel_loop()}


def branching(ctx, whole, decisions):
    ctx.ghost["seq_both"] = True
    ctx.ghost["decided"] = decisions
    ip = new_ip(ctx, whole)
    o = new_lp(ctx)
    s, k = P(ctx, o), Keep(ctx, o)
    kip = Keep(ctx, ip)
    ctx.assume(s.m >= 1)
    ctx.ghost["prog"] = s
    R = ctx.ghost["rival"] = Rival(ctx, ip)
    it = Interp(ctx, ctx.program, branch_loops(), {**LPC, **INIT, SOLVED: Contract(c_solve), BRANCH: Contract(c_branch), "Comparator.is_integer": Contract(c_is_integer)})
    out = it.run(ip, "__branch", o)
    k.ensure(ctx, "branching")
    kip.ensure(ctx, "branching (the integer program)")
    ctx.ensure("branching does not raise by itself", not out.raised)
    if out.raised:
        return
    r = out.value
    A = s.Ao.arr()
    i, j = z3.Ints("i_ j_")
    p, q = ctx.fresh("p", IntS), ctx.fresh("q", IntS)
    inp, inq = z3.And(0 <= p, p < s.m), z3.And(0 <= q, q < s.n)

    def row_of(t, i0, pos=None):
        """Row i0 of a branch is the row of the program, or the bound on one component."""
        u = S(t.Ao.arr(), i0)
        old = z3.And(0 <= i0, i0 < s.m)
        ctx.ensure("a branch has the rows of the program", z3.Implies(z3.And(old, inq), t.A(i0, q) == s.A(i0, q)))
        ctx.assume(z3.Implies(old, u == S(A, i0)))
        return u

    asked = ctx.ghost.get("asked", [])
    subs = ctx.ghost.get("branches", [])
    for t in subs:
        ctx.ensure("a branch has one row more", z3.And(t.m == s.m + 1, t.n == s.n, t.bn == t.m, t.cn == t.n))
        ctx.ensure("a branch has the relations and right-hand sides of the program", z3.Implies(inp, z3.And(t.le(p) == s.le(p), t.ge(p) == s.ge(p), t.eq(p) == s.eq(p), t.b(p) == s.b(p))))
        ctx.ensure("a branch has the negative variables of the program", z3.Implies(inq, t.isneg(q) == s.isneg(q)))
        ctx.ensure("a branch has the free variables of the program", z3.Implies(inq, t.isfree(q) == s.isfree(q)))
        ctx.ensure("a branch has the objective of the program", z3.And(z3.Implies(inq, t.c(q) == s.c(q)), t.z == s.z, t.obj == s.obj))
        ctx.assume(t.co.arr() == s.co.arr())
        row_of(t, p)
    # ---- what is returned
    if r is not None:
        ok = isinstance(r, (PList, tuple)) and len(items_of(r)) == 2 and isinstance(items_of(r)[0], Nd) and items_of(r)[0].nd == 1
        ctx.ensure("a vector and its value are returned", ok)
        if not ok:
            return
        x, val = items_of(r)
        X, val = x.arr(), real(val)
        ctx.ensure("the vector has one component per variable", x.dims[0] == s.n)
        ctx.ensure("the vector satisfies every row up to tolerance", z3.Implies(inp, row_tol(s, p, dot(S(A, p), X))))
        ctx.ensure("the vector satisfies every sign restriction up to tolerance", z3.Implies(inq, s.sign_near(q, S(X, q))))
        ctx.ensure("the vector is integral where it has to be", z3.Implies(z3.And(inq, R.whole(q)), whole_number(S(X, q))))
        ctx.ensure("the value is the objective, constant included", val == s.value(X))
        ctx.reach("a vector")
    # ---- against any feasible integral vector
    for f in (z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < s.m), s.row_ok(i, dot(S(A, i), R.z))), patterns=[S(A, i)]),
              z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < s.n), s.sign_ok(j, S(R.z, j))), patterns=[S(R.z, j)])):
        ctx.assume(f)
    pos = ctx.ghost.get("at")
    zp = S(R.z, pos) if pos is not None else R0
    ctx.mention(s.sign_ok(pos if pos is not None else z3.IntVal(0), zp))
    for t, i0, j0, what in asked:
        if any(t is u for u in subs):
            u = row_of(t, i0)
            one_law(ctx, u, pos, R.z)
            bound = t.row_ok(s.m, zp)
            rows = z3.And(0 <= i0, i0 < s.m)
            ctx.ensure("a branch asks no more of a vector in the rows of the program", z3.Implies(rows, t.row_ok(i0, dot(u, R.z))))
            ctx.ensure("a branch asks no more of a vector in the new row than its bound", z3.Implies(z3.And(bound, i0 == s.m), t.row_ok(i0, dot(u, R.z))))
            ctx.ensure("a branch asks no other sign of a vector", z3.Implies(z3.And(0 <= j0, j0 < s.n), t.sign_ok(j0, S(R.z, j0))))
            ctx.ensure("a branch answers for every vector within its bound", z3.Or(what, z3.Not(bound)))
    if len([t for t, *_ in asked if any(t is u for u in subs)]) == 2:
        lo, hi = subs
        ctx.ensure("the component branched on has to be integral", z3.And(pos >= 0, R.whole(pos)))
        low, high = ctx.fresh("low", RealS), ctx.fresh("high", RealS)
        up = ctx.fresh("up", BoolS)  # the first of the two has the upper bound
        ctx.assume(z3.And(up == lo.le(s.m), low == z3.If(up, lo.b(s.m), hi.b(s.m)), high == z3.If(up, hi.b(s.m), lo.b(s.m))))
        ctx.ensure("the new rows bound the component from both sides", z3.If(up, hi.ge(s.m), z3.And(lo.ge(s.m), hi.le(s.m))))
        V = S(ctx.ghost["X0"], pos)
        ctx.ensure("the lower bound is the value rounded down", low == z3.ToReal(z3.ToInt(V)))
        ctx.ensure("the upper bound is the value rounded up", high == -z3.ToReal(z3.ToInt(-V)))
        Z, K, fl, up_ = z3.ToInt(zp), z3.ToInt(V), z3.ToReal(z3.ToInt(V)), -z3.ToReal(z3.ToInt(-V))
        R_ = z3.ToReal
        ctx.follows("integers are comparable", [], z3.Or(Z <= K, Z >= K + 1))
        ctx.follows("integers are comparable as numbers", [z3.Or(Z <= K, Z >= K + 1)], z3.Or(R_(Z) <= R_(K), R_(Z) >= R_(K) + 1))
        ctx.follows("rounded up is one more at most", [], up_ <= fl + 1)
        ctx.follows("an integral component is rounded to itself", [z3.IsInt(zp)], zp == R_(Z))
        ctx.follows("no integer is between the bounds", [z3.Or(R_(Z) <= R_(K), R_(Z) >= R_(K) + 1), up_ <= fl + 1, zp == R_(Z), low == fl, high == up_], z3.Or(zp <= low, zp >= high))
        for t in subs:
            ctx.ensure("a vector below the lower bound meets a new row that is at most", z3.Implies(z3.And(t.le(s.m), zp <= low), t.row_ok(s.m, zp)))
            ctx.ensure("a vector above the upper bound meets a new row that is at least", z3.Implies(z3.And(t.ge(s.m), zp >= high), t.row_ok(s.m, zp)))
        f, g = lo.row_ok(s.m, zp), hi.row_ok(s.m, zp)
        ctx.follows("the two bounds miss no integer", [z3.Or(zp <= low, zp >= high), z3.If(up, lo.le(s.m), hi.le(s.m)), z3.If(up, hi.ge(s.m), lo.ge(s.m))]
                    + [z3.Implies(z3.And(t.le(s.m), zp <= low), t.row_ok(s.m, zp)) for t in subs] + [z3.Implies(z3.And(t.ge(s.m), zp >= high), t.row_ok(s.m, zp)) for t in subs], z3.Or(f, g))
    if r is None:
        ctx.ensure("nothing is returned only when no integral vector is feasible", False)
        return
    ctx.ensure("no feasible integral vector is better", as_good(s, val, s.value(R.z)))


CASES = [("nothing from both branches or no branching", {"branch 1": 1}), ("a vector from the first branch only", {"branch 1": 0, "branch 2": 1}), ("a vector from both branches", {"branch 1": 0, "branch 2": 0})]
for whole_, which in (("every variable integral", 0), ("some variables integral", 1)):
    for text, dec in CASES:
        unit(f"IntegerProgram.__branch ({whole_}, {text})", "C22", "C11", functions=[BRANCH], limit=200)(lambda ctx, w=which, d=dec: branching(ctx, w, d))


def items_of(r):
    return list(r.items) if isinstance(r, PList) else list(r)


def one_law(ctx, u, a, x):
    la.law(ctx, "one", u, a, x)


@unit("IntegerProgram.branch_and_bound", "C22", "C11", functions=["IntegerProgram.branch_and_bound", "IntegerProgram.relax"], limit=150)
def u_bnb(ctx):
    ctx.ghost["seq_both"] = True
    ip = new_ip(ctx)
    s, k = P(ctx, ip), Keep(ctx, ip)
    ctx.assume(s.m >= 1)
    R = ctx.ghost["rival"] = Rival(ctx, ip)
    it = Interp(ctx, ctx.program, rel_loop(), {**LPC, **INIT, BRANCH: Contract(c_branch)})
    out = it.run(ip, "branch_and_bound")
    k.ensure(ctx, "branch and bound")
    ctx.ensure("branch and bound does not raise by itself", not out.raised)
    if out.raised:
        return
    r = out.value
    subs = ctx.ghost.get("branches", [])
    p, q = ctx.fresh("p", IntS), ctx.fresh("q", IntS)
    inp, inq = z3.And(0 <= p, p < s.m), z3.And(0 <= q, q < s.n)
    i, j = z3.Ints("i_ j_")
    A = s.Ao.arr()

    def same_row(t, i0):
        ctx.ensure("the search starts with the rows of the program", z3.Implies(z3.And(0 <= i0, i0 < s.m, inq), t.A(i0, q) == s.A(i0, q)))
        ctx.assume(z3.Implies(z3.And(0 <= i0, i0 < s.m), S(t.Ao.arr(), i0) == S(A, i0)))
    for t in subs:
        ctx.ensure("the search starts with the sizes of the program", z3.And(t.m == s.m, t.n == s.n, t.bn == t.m, t.cn == t.n))
        ctx.ensure("the search starts with the relations and right-hand sides of the program", z3.Implies(inp, z3.And(t.le(p) == s.le(p), t.ge(p) == s.ge(p), t.eq(p) == s.eq(p), t.b(p) == s.b(p))))
        ctx.ensure("the search starts with the negative variables of the program", z3.Implies(inq, t.isneg(q) == s.isneg(q)))
        ctx.ensure("the search starts with the free variables of the program", z3.Implies(inq, t.isfree(q) == s.isfree(q)))
        ctx.ensure("the search starts with the objective of the program", z3.And(z3.Implies(inq, t.c(q) == s.c(q)), t.z == s.z, t.obj == s.obj))
        ctx.assume(t.co.arr() == s.co.arr())
        same_row(t, p)
    if r is not None:
        ok = isinstance(r, Nd) and r.nd == 1
        ctx.ensure("a vector is returned", ok)
        if not ok:
            return
        X = r.arr()
        ctx.ensure("the vector has one component per variable", r.dims[0] == s.n)
        ctx.ensure("the vector satisfies every row up to tolerance", z3.Implies(inp, row_tol(s, p, dot(S(A, p), X))))
        ctx.ensure("the vector satisfies every sign restriction up to tolerance", z3.Implies(inq, s.sign_near(q, S(X, q))))
        ctx.ensure("the vector is integral where it has to be", z3.Implies(z3.And(inq, R.whole(q)), whole_number(S(X, q))))
        ctx.reach("a vector")
    for f in (z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < s.m), s.row_ok(i, dot(S(A, i), R.z))), patterns=[S(A, i)]),
              z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < s.n), s.sign_ok(j, S(R.z, j))), patterns=[S(R.z, j)])):
        ctx.assume(f)
    for t, i0, j0, what in ctx.ghost.get("asked", []):
        same_row(t, i0)
        ctx.mention(S(A, i0))
        ctx.ensure("the search answers for every feasible integral vector", z3.Or(what, z3.Not(z3.BoolVal(True))))
    if r is None:
        ctx.ensure("nothing is returned only when no integral vector is feasible", False)
        return
    ctx.ensure("no feasible integral vector is better", as_good(s, s.value(X), s.value(R.z)))
