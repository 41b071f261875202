"""C18: the auxiliary program and the two-phase simplex method."""
from lp import *
from c12 import separate
from c15 import *
from c17 import Outcome, chosen_by, ray_entries, Start, MP
from c13 import TO_SEF, support_law
import c13

HERE = "LinearProgram.two_phase_simplex"


class Aux:
    """The entries of the auxiliary program of s: rows with a negative right-hand side negated, one artificial variable per row."""

    def __init__(self, s):
        self.m, self.n = s.m, z3.simplify(s.n + s.m)
        neg = lambda i: s.b(i) < 0
        self.A = lambda i, j: z3.If(j < s.n, z3.If(neg(i), -s.A(i, j), s.A(i, j)), z3.If(j - s.n == i, R1, R0))
        self.b = lambda i: z3.If(neg(i), -s.b(i), s.b(i))
        self.c = lambda j: z3.If(j < s.n, R0, R1)


def c_auxiliary(interp, v):
    ctx, o = interp.ctx, v["self"]
    if not isinstance(o.attrs["_is_sef"], bool):
        raise Unsupported("standard equality form is not decided")
    if not o.attrs["_is_sef"]:
        raise PyRaise("ArithmeticError", "auxiliary")
    s = P(ctx, o)
    a = Aux(s)
    r = Obj(ctx, o.cls)
    r.attrs["_A"], r.attrs["_b"], r.attrs["_c"] = nd.make(ctx, (a.m, a.n), a.A), nd.make(ctx, (a.m,), a.b), nd.make(ctx, (a.n,), a.c)
    r.attrs["_z"], r.attrs["_objective"], r.attrs["_is_sef"], r.attrs["_steps"] = SV(z3.RealVal(0), "float"), "min", False, Steps(ctx)
    r.attrs["_inequality_indices"] = LazyDict(ctx)
    r.attrs["_free_variables"], r.attrs["_negative_variables"] = PList(ctx, []), PList(ctx, [])
    ctx.ghost["aux"] = (o, s, r)
    return r


AUX = {"LinearProgram.auxiliary": Contract(c_auxiliary)}


@unit("LinearProgram.auxiliary", "C18", "C11", functions=["LinearProgram.auxiliary", "LinearProgram.__init__"])
def u_auxiliary(ctx):
    o = new_lp(ctx)
    s, kp = P(ctx, o), Keep(ctx, o)
    out = run_lp(ctx, o, "auxiliary", ctx.choose(2) == 0)
    kp.ensure(ctx, "auxiliary")
    if not o.attrs["_is_sef"]:
        raised(ctx, out, "ArithmeticError", "programs not in standard equality form are rejected")
        return
    ctx.ensure("auxiliary does not raise", not out.raised)
    if out.raised:
        return
    r = out.value
    ctx.ensure("[C11] auxiliary returns another program", r is not o)
    separate(ctx, "auxiliary", o, r)
    t, a = P(ctx, r), Aux(s)
    i, j = ctx.fresh("i", IntS), ctx.fresh("j", IntS)
    inr, inc = z3.And(0 <= i, i < a.m), z3.And(0 <= j, j < a.n)
    ctx.ensure("one artificial variable per row", z3.And(t.m == a.m, t.n == a.n, t.bn == a.m, t.cn == a.n))
    ctx.ensure("the rows of the auxiliary program", z3.Implies(z3.And(inr, inc), t.A(i, j) == a.A(i, j)))
    ctx.ensure("the right-hand side of the auxiliary program is not negative", z3.Implies(inr, t.b(i) == a.b(i)))
    ctx.ensure("the objective of the auxiliary program", z3.Implies(inc, t.c(j) == a.c(j)))
    ctx.ensure("the auxiliary program minimises from zero over nonnegative variables", z3.And(t.obj == MIN, t.z == 0, t.eq(i), z3.Not(t.isfree(j)), z3.Not(t.isneg(j)), z3.Not(t.sef)))
    ctx.reach("auxiliary returns")


# ---------------------------------------------------------------- the contract of simplex
def c_simplex(interp, v):
    ctx, o = interp.ctx, v["self"]
    if not isinstance(o.attrs["_is_sef"], bool):
        raise Unsupported("standard equality form is not decided")
    if not o.attrs["_is_sef"]:
        raise PyRaise("ArithmeticError", "simplex")
    s = P(ctx, o)
    if not ctx.holds(s.m >= 1):
        raise Unsupported("simplex of a program that may have no rows")
    if isinstance(v["basis"], PList) and not v["basis"].items:
        raise PyRaise("ValueError", "simplex")
    q0 = shifted(interp, v["basis"])
    calls = ctx.ghost.setdefault("simplex", [])
    k = ctx.choose(4)
    rec = dict(lp=o, s=s, q0=q0, kind=("ValueError", "ArithmeticError", "optimal", "unbounded")[k])
    calls.append(rec)
    hook = ctx.ghost.get("before_simplex")
    if hook:
        hook(ctx, interp, rec)
    if k < 2:
        raise PyRaise(rec["kind"], "simplex")
    r = rec["outcome"] = Outcome(ctx, o, s, rec["kind"])
    if rec["kind"] == "optimal":
        y = nd.of_term(ctx, r.st.K.y, (s.m,), zero=True)
        rec["value"] = (r.x, r.basis, y)
        return rec["value"]
    d = nd.fresh(ctx, "ray", [s.n])
    e = z3.Int("e_")
    D = d.arr()
    ctx.assume(z3.ForAll([e], z3.Implies(z3.And(0 <= e, e < s.n), S(D, e) > -TOL), patterns=[S(D, e)]))
    ctx.assume(dot(s.co.arr(), D) >= TOL)
    rec["ray"] = d
    rec["value"] = (None, None, (r.x if r.x is not None else nd.of_term(ctx, r.X, (s.n,), zero=True), d))
    return rec["value"]


SIMPLEX = {"LinearProgram.simplex": Contract(c_simplex)}


# ---------------------------------------------------------------- the search for a basis (only its types)
class AnyPairs(HObj):
    """A queue of pairs of a number and a list of numbers, content not tracked."""
    py_type = "deque"

    def py_len(self, interp):
        n = interp.ctx.fresh("queued", IntS)
        interp.ctx.assume(n >= 0)
        return SV(n)

    def py_truth(self, interp):
        return interp.ctx.branch(interp.ctx.fresh("queued", BoolS))

    def py_havoc(self, interp):
        pass

    def py_method(self, interp, name, args, kw):
        ctx = interp.ctx
        if name in ("append", "appendleft") and len(args) == 1:
            a = args[0]
            ok = isinstance(a, tuple) and len(a) == 2 and is_int(a[0]) and isinstance(a[1], (PList, SSeq))
            if not ok or isinstance(a[1], PList) and not all(is_int(x) for x in a[1].items) or isinstance(a[1], SSeq) and a[1].sort != IntS:
                raise Unsupported(f"the queue of candidates receives {a!r}")
            return None
        if name in ("pop", "popleft") and not args:
            n = ctx.fresh("len", IntS)
            ctx.assume(n >= 0)
            return (SV(ctx.fresh("at", IntS)), SSeq(ctx, n, ctx.fresh("candidate", la.IVec), IntS))
        raise Unsupported(f"deque.{name}")


def any_pairs(v):
    if not isinstance(v, AnyPairs):
        if not isinstance(v, B.Bag) or v.ks is not None:
            raise Unsupported("the queue of candidates is not an empty deque")
        v.__class__ = AnyPairs
    return v


def two_phase_loops():
    none = lambda L: []
    lists = lambda L: [grown(L["p_basis"]), grown(L["zero_set"])]
    queue = lambda L: [any_pairs(L["queue"])]
    same = lambda it, old: old
    return {(HERE, 0): LoopSpec(none, enter=lists, mods=lists),
            (HERE, 1): LoopSpec(none, enter=queue, mods=queue),
            (HERE, 2): LoopSpec(none, enter=queue, mods=queue, kind="while", types={"p_basis": same}),
            (HERE, 3): LoopSpec(none, enter=queue, mods=queue)}


def first_phase(ctx, interp, rec):
    """Obligations where the first phase starts."""
    if len(ctx.ghost["simplex"]) > 1:
        return
    o, s, r = ctx.ghost["aux"]
    ctx.ensure("the first phase solves the auxiliary program", rec["lp"] is r)
    t, q0 = rec["s"], rec["q0"]
    A, b, c = t.arrs()
    i, k = ctx.fresh("i", IntS), ctx.fresh("k", IntS)
    ctx.ensure("the first phase maximises the negated sum of the artificial variables", z3.Implies(z3.And(0 <= i, i < t.n), t.c(i) == z3.If(i < s.n, R0, -R1)))
    ctx.ensure("the first phase starts with one position per row", q0.n == t.m)
    ctx.ensure("the first phase starts from the artificial variables", z3.Implies(z3.And(0 <= k, k < t.m), S(q0.arr, k) == s.n + k))
    M = la.selc(A, q0.arr, t.m)
    ctx.ensure("their columns are the identity", S(S(M, i), k) == S(S(la.eye(t.m), i), k))
    ctx.assume(M == la.eye(t.m))  # extensionality
    ctx.ensure("the first phase starts from a basis", z3.And(*basis_parts(ctx, t, q0)))
    ctx.ensure("the first phase starts from a feasible point", z3.Implies(z3.And(0 <= i, i < t.m), t.b(i) >= 0))
    ctx.reach("the first phase")


@unit(HERE, "C18", "C11", functions=[HERE], limit=150)
def u_two_phase(ctx):
    o = new_lp(ctx)
    s, kp = P(ctx, o), Keep(ctx, o)
    ctx.assume(s.m >= 1)
    ctx.ghost["before_simplex"] = first_phase
    out = run_lp(ctx, o, "two_phase_simplex", ctx.choose(2) == 0, loops=two_phase_loops(), contracts={**AUX, **TO_SEF, **SIMPLEX, **IS_BASIS})
    kp.ensure(ctx, "two_phase_simplex")
    if not o.attrs["_is_sef"]:
        raised(ctx, out, "ArithmeticError", "programs not in standard equality form are rejected")
        return
    calls = ctx.ghost.get("simplex", [])
    ctx.ensure("the method starts with the first phase", len(calls) >= 1)
    if out.raised:
        # an exception is not excluded (numerically dependent columns): see the note of the property
        ctx.ensure("two_phase_simplex raises nothing else than its parts", any(exc_is(out, k) for k in ("ValueError", "ArithmeticError", "IndexError")))
        return
    first, last = calls[0], calls[-1]
    v = out.value
    if len(calls) == 2:
        ctx.ensure("the second phase solves the program itself", last["lp"] is o)
        ctx.ensure("the answer is the outcome of the second phase", isinstance(v, tuple) and len(v) == 3 and all(a is b for a, b in zip(v, last["value"])))
        ctx.reach("second phase")
        return
    ctx.ensure("without a second phase the first one ended optimally", len(calls) == 1 and first["kind"] == "optimal")
    if first["kind"] != "optimal":
        return
    ctx.reach("infeasible")
    ctx.ensure("no solution and no basis of an infeasible program", isinstance(v, tuple) and len(v) == 3 and v[0] is None and v[1] is None)
    y = v[2]
    ctx.ensure("the certificate is a vector with one component per row", isinstance(y, Nd) and y.nd == 1 and ctx.holds(y.dims[0] == s.m))
    certificate(ctx, s, first, y)


def chosen_anywhere(ctx, A):
    """The lists by which columns of A are chosen somewhere on this path."""
    out, seen, stack = {}, set(), list(ctx.pc)
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            stack.append(e.body())
        elif z3.is_app(e):
            if e.decl().name() == "selc" and e.arg(0).eq(A) and z3.is_const(e.arg(1)):
                out[e.arg(1).get_id()] = e.arg(1)
            stack += e.children()
    return list(out.values())


def certificate(ctx, s, first, y):
    r, t = first["outcome"], first["s"]
    K, q = r.st.K, r.q
    A, b, c = s.arrs()
    Y = y.arr()
    a, e, i = ctx.fresh("a", IntS), ctx.fresh("e", IntS), ctx.fresh("i", IntS)
    ina, inn = z3.And(0 <= a, a < s.m), z3.And(0 <= e, e < s.n)
    mk = ctx.fresh("negated", z3.ArraySort(IntS, BoolS))
    p = z3.Int("p_")
    ctx.assume(z3.ForAll([p], S(mk, p) == z3.And(0 <= p, p < s.m, s.b(p) < 0), patterns=[S(mk, p)]))
    T, T0 = tr(K.A), tr(A)
    ctx.ensure("a column of the auxiliary program is a column with signs changed", z3.Implies(inn, S(S(T, e), i) == S(la.flip(S(T0, e), mk), i)))
    ctx.assume(z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < s.n), S(T, p) == la.flip(S(T0, p), mk)), patterns=[S(T, p)]))  # extensionality
    ctx.ensure("the right-hand side of the auxiliary program is the one with signs changed", S(K.b, i) == S(la.flip(b, mk), i))
    ctx.assume(K.b == la.flip(b, mk))  # extensionality
    for w in chosen_anywhere(ctx, K.A):
        if w.eq(q.arr) or w.eq(first["q0"].arr):
            continue
        la.apply(ctx, "agree", "the certificate uses the basis of the first phase", K.A, K.c, w, q.arr, s.m)
    ctx.ensure("the certificate is the dual vector of the first phase with signs changed", S(Y, i) == S(la.flip(K.y, mk), i))
    ctx.assume(Y == la.flip(K.y, mk))  # extensionality
    ctx.ensure("yA is the product of the first phase", z3.Implies(inn, dot(S(T0, e), Y) == dot(S(T, e), K.y)))
    ctx.ensure("yA is not negative up to tolerance", z3.Implies(inn, dot(S(T0, e), Y) >= -TOL))
    ctx.ensure("yb is the optimum of the first phase", dot(Y, b) == dot(K.c, r.X))
    neg = nd.make(ctx, (t.n,), lambda j: z3.If(j < s.n, R0, R1)).arr()
    la.apply(ctx, "neg", "the objective of the first phase is not positive", K.c, neg, r.X)
    nonneg_product(ctx, neg, r.X, t.n)
    exact = quantify(ctx, (t.n,), lambda j: S(r.X, j) >= 0)
    ctx.ensure("yb is negative", z3.Implies(exact, dot(Y, b) <= -TOL))
