"""C12: adding constraints and variables."""
from lp import *


def bufs(o):
    return {id(o.attrs[k].buf): k for k in ("_A", "_b", "_c") if isinstance(o.attrs.get(k), Nd)}


def separate(ctx, what, o, r, extra=()):
    """The program r shares no mutable part with the program o or the arrays `extra`."""
    shared = set(bufs(o)) & set(bufs(r))
    ctx.ensure(f"[C11] {what} shares no array with the program" + (f" ({', '.join(bufs(o)[b] for b in shared)})" if shared else ""), not shared)
    same = [k for k in PARTS + ("_steps",) if isinstance(r.attrs.get(k), HObj) and r.attrs[k] is o.attrs.get(k)]
    ctx.ensure(f"[C11] {what} shares no list or mapping with the program" + (f" ({', '.join(same)})" if same else ""), not same)
    own(ctx, what, r, extra)


def own(ctx, what, r, extra):
    ids = {id(a.buf) for a in extra if isinstance(a, Nd)}
    taken = [bufs(r)[b] for b in bufs(r) if b in ids]
    ctx.ensure(f"[C11] {what} does not keep the caller's array" + (f" ({', '.join(taken)})" if taken else ""), not taken)


def target(ctx, what, o, k, out, in_place, extra=()):
    """The program with the result: the program itself in place, a separate one otherwise."""
    r = out.value
    if in_place:
        ctx.ensure(f"[C11] {what} in place returns the program itself", r is o)
        own(ctx, what, o, extra)
        return o
    k.ensure(ctx, what)
    if not isinstance(r, Obj):
        raise Unsupported(f"{what} returns {r!r}")
    ctx.ensure(f"[C11] {what} returns another program", r is not o)
    separate(ctx, what, o, r, extra)
    return r


def same_rest(ctx, s, t, what, parts=("z", "obj", "free", "neg", "rel", "A", "b", "c")):
    j = ctx.fresh("j", IntS)
    if "z" in parts:
        ctx.ensure(f"{what}: the constant stays", t.z == s.z)
    if "obj" in parts:
        ctx.ensure(f"{what}: the objective direction stays", t.obj == s.obj)
    if "free" in parts:
        ctx.ensure(f"{what}: the free variables stay", t.isfree(j) == s.isfree(j))
    if "neg" in parts:
        ctx.ensure(f"{what}: the negative variables stay", t.isneg(j) == s.isneg(j))
    if "rel" in parts:
        ctx.ensure(f"{what}: the relations stay", z3.And(t.ge(j) == s.ge(j), t.le(j) == s.le(j), t.eq(j) == s.eq(j)))


@unit("LinearProgram.add_constraint", "C12", "C11", functions=["LinearProgram.add_constraint", "LinearProgram.copy", "LinearProgram.__init__"], limit=100)
def u_add_constraint(ctx):
    o = new_lp(ctx)
    s, k = P(ctx, o), Keep(ctx, o)
    coef = vec_arg(ctx, "coef")
    fn = coef.buf.fn if isinstance(coef, Nd) else None
    rel = SV(ctx.fresh("relation", Name))
    val = SV(ctx.fresh("value", RealS), "float")
    in_place = ctx.choose(2) == 0
    out = run_lp(ctx, o, "add_constraint", coef, rel, val, in_place)
    if fn is not None:
        ctx.ensure("[C11] add_constraint does not change the coefficients", coef.buf.fn is fn)
    v = vector_of(ctx, coef)
    good = z3.And(v[0] == s.n if v else z3.BoolVal(False), z3.Or(rel.t == GE, rel.t == LE, rel.t == EQ))
    if out.raised:
        raised(ctx, out, "ValueError", "add_constraint raises nothing but ValueError")
        ctx.ensure("add_constraint rejects only malformed additions", z3.Not(good))
        bad = [p for p, ok in k.same() if not ok]
        ctx.ensure("a refused constraint changes nothing" + (f" ({', '.join(bad)})" if bad else ""), not bad)
        return
    ctx.ensure("malformed constraints are rejected", good)
    r = target(ctx, "add_constraint", o, k, out, in_place, (coef,))
    t = P(ctx, r)
    i, j = ctx.fresh("i", IntS), ctx.fresh("j", IntS)
    ctx.ensure("add_constraint appends one row", z3.And(t.m == s.m + 1, t.bn == s.m + 1))
    ctx.ensure("add_constraint keeps the number of columns", z3.And(t.n == s.n, t.cn == s.n))
    ctx.ensure("the old rows stay", z3.Implies(z3.And(0 <= i, i < s.m, 0 <= j, j < s.n), t.A(i, j) == s.A(i, j)))
    ctx.ensure("the old right-hand sides stay", z3.Implies(z3.And(0 <= i, i < s.m), t.b(i) == s.b(i)))
    ctx.ensure("the new row holds the coefficients", z3.Implies(z3.And(0 <= j, j < s.n), t.A(s.m, j) == v[1](j)))
    ctx.ensure("the new right-hand side is the value", t.b(s.m) == val.t)
    ctx.ensure("the objective coefficients stay", z3.Implies(z3.And(0 <= j, j < s.n), t.c(j) == s.c(j)))
    same_rest(ctx, s, t, "add_constraint", ("z", "obj", "free", "neg"))
    ctx.ensure("the old relations stay", z3.Implies(i != s.m, z3.And(t.ge(i) == s.ge(i), t.le(i) == s.le(i), t.eq(i) == s.eq(i))))
    ctx.ensure("the new relation is the one given", z3.And(t.ge(s.m) == (rel.t == GE), t.le(s.m) == (rel.t == LE), t.eq(s.m) == (rel.t == EQ)))
    ctx.ensure("standard equality form only if it was and an equality row is added", t.sef == z3.And(s.sef, rel.t == EQ))
    x = nd.fresh(ctx, "x", [s.n]).arr()
    A, B = s.Ao.arr(), t.Ao.arr()
    ctx.ensure("the old rows are the old rows", z3.Implies(z3.And(0 <= i, i < s.m), S(B, i) == S(A, i)))
    ctx.ensure("the new row is the coefficients", S(B, s.m) == nd.make(ctx, (v[0],), v[1]).arr())
    ctx.assume(quantify(ctx, (s.m,), lambda p: S(B, p) == S(A, p)))
    lhs = dot(S(B, s.m), x)
    new = z3.And(z3.Implies(rel.t == LE, lhs <= val.t), z3.Implies(rel.t == GE, lhs >= val.t), z3.Implies(rel.t == EQ, lhs == val.t))
    old = z3.Implies(z3.And(0 <= i, i < s.m), s.row_ok(i, dot(S(A, i), x)) == t.row_ok(i, dot(S(B, i), x)))
    ctx.ensure("an old row holds for a point exactly as before", old)
    ctx.ensure("the new row holds for a point exactly when the new relation does", t.row_ok(s.m, lhs) == new)
    ctx.reach("add_constraint returns")


@unit("LinearProgram.add_variable", "C12", "C11", functions=["LinearProgram.add_variable", "LinearProgram.copy", "LinearProgram.__init__"], limit=100)
def u_add_variable(ctx):
    o = new_lp(ctx)
    s, k = P(ctx, o), Keep(ctx, o)
    kind = ctx.choose(4)
    coef = SV(ctx.fresh("coefficient", RealS), "float")
    n = ctx.fresh("column_len", IntS)
    ctx.assume(n >= 0)
    col = None
    if kind == 1:
        col = nd.fresh(ctx, "column", [n])
    elif kind == 2:
        col = nd.fresh(ctx, "column", [n], "int")
    elif kind == 3:
        col = NumList(ctx, n, nd.fresh(ctx, "column", [n]).arr())
    fn = col.buf.fn if isinstance(col, Nd) else None
    free, negative = ctx.choose(2) == 0, ctx.choose(2) == 0
    in_place = ctx.choose(2) == 0
    out = run_lp(ctx, o, "add_variable", coef, col, free, negative, in_place)
    if fn is not None:
        ctx.ensure("[C11] add_variable does not change the column", col.buf.fn is fn)
    v = vector_of(ctx, col) if col is not None else (s.m, lambda p: R0)
    good = z3.And(v[0] == s.m, not (free and negative))
    if out.raised:
        raised(ctx, out, "ValueError", "add_variable raises nothing but ValueError")
        ctx.ensure("add_variable rejects only malformed additions", z3.Not(good))
        bad = [p for p, ok in k.same() if not ok]
        ctx.ensure("a refused variable changes nothing" + (f" ({', '.join(bad)})" if bad else ""), not bad)
        return
    ctx.ensure("malformed variables are rejected", good)
    r = target(ctx, "add_variable", o, k, out, in_place, (col,))
    t = P(ctx, r)
    i, j = ctx.fresh("i", IntS), ctx.fresh("j", IntS)
    ctx.ensure("add_variable appends one column", z3.And(t.n == s.n + 1, t.cn == s.n + 1))
    ctx.ensure("add_variable keeps the number of rows", z3.And(t.m == s.m, t.bn == s.m))
    ctx.ensure("the old columns stay", z3.Implies(z3.And(0 <= i, i < s.m, 0 <= j, j < s.n), t.A(i, j) == s.A(i, j)))
    ctx.ensure("the new column holds the coefficients", z3.Implies(z3.And(0 <= i, i < s.m), t.A(i, s.n) == v[1](i)))
    ctx.ensure("the right-hand sides stay", z3.Implies(z3.And(0 <= i, i < s.m), t.b(i) == s.b(i)))
    ctx.ensure("the old objective coefficients stay", z3.Implies(z3.And(0 <= j, j < s.n), t.c(j) == s.c(j)))
    ctx.ensure("the new objective coefficient is the one given", t.c(s.n) == coef.t)
    same_rest(ctx, s, t, "add_variable", ("z", "obj", "rel"))
    ctx.ensure("the old free variables stay", z3.Implies(j != s.n, t.isfree(j) == s.isfree(j)))
    ctx.ensure("the old negative variables stay", z3.Implies(j != s.n, t.isneg(j) == s.isneg(j)))
    ctx.ensure("the new variable is free exactly when asked", t.isfree(s.n) == z3.BoolVal(free))
    ctx.ensure("the new variable is negative exactly when asked", t.isneg(s.n) == z3.BoolVal(negative))
    ctx.ensure("standard equality form only if it was and the column is nonnegative", t.sef == z3.And(s.sef, not free, not negative))
    x = nd.fresh(ctx, "x", [s.n]).arr()
    x0 = la.ins(x, s.n, R0)
    A, B = s.Ao.arr(), t.Ao.arr()
    row = lambda p: la.ins(S(A, p), s.n, S(S(B, p), s.n))
    ctx.ensure("a row is the old row with the new coefficient", z3.Implies(z3.And(0 <= i, i < s.m), S(B, i) == row(i)))
    ctx.ensure("the objective is the old one with the new coefficient", t.co.arr() == la.ins(s.co.arr(), s.n, coef.t))
    ctx.ensure("the point without the new component is the old point", la.rem(x0, s.n) == x)
    ctx.ensure("with the new variable at zero every left side is the old one", z3.Implies(z3.And(0 <= i, i < s.m), dot(S(B, i), x0) == dot(S(A, i), x)))
    ctx.ensure("with the new variable at zero the objective is the old one", t.value(x0) == s.value(x))
    ctx.reach("add_variable returns")
