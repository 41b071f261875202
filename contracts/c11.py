"""C11: copies, equality, relaxations; who shares what with whom. The other units carry [C11] obligations of their own."""
from lp import *
from c12 import bufs, separate, own


def same_program(ctx, what, s, t, tag=""):
    """t is the same program as s, part by part."""
    i, j = ctx.fresh("i", IntS), ctx.fresh("j", IntS)
    e = lambda n, g: ctx.ensure(f"{tag}{what}: {n}", g)
    e("same sizes", z3.And(t.m == s.m, t.n == s.n, t.bn == s.bn, t.cn == s.cn))
    e("same matrix", z3.Implies(z3.And(0 <= i, i < s.m, 0 <= j, j < s.n), t.A(i, j) == s.A(i, j)))
    e("same right-hand side", z3.Implies(z3.And(0 <= i, i < s.m), t.b(i) == s.b(i)))
    e("same objective coefficients", z3.Implies(z3.And(0 <= j, j < s.n), t.c(j) == s.c(j)))
    e("same constant", t.z == s.z)
    e("same direction", t.obj == s.obj)
    e("same relations", z3.And(t.ge(j) == s.ge(j), t.le(j) == s.le(j), t.eq(j) == s.eq(j)))
    e("same free variables", t.isfree(j) == s.isfree(j))
    e("same negative variables", t.isneg(j) == s.isneg(j))
    e("same standard equality form", t.sef == s.sef)


def entries(v):
    """(length, entries) of a list of positions."""
    if isinstance(v, SSeq):
        return v.n, lambda k: S(v.arr, k)
    a = z3.K(IntS, z3.IntVal(0))
    for k, x in enumerate(v.items):
        a = z3.Store(a, k, term(x))
    return z3.IntVal(len(v.items)), lambda k: S(a, k)


def same_list(ctx, a, b):
    (n, f), (m, g) = entries(a), entries(b)
    k = z3.Int("k_")
    return z3.And(n == m, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), f(k) == g(k))))


def identical(ctx, o, p):
    """Both programs have the same data, part by part."""
    s, t = P(ctx, o), P(ctx, p)
    i = z3.Int("i_")
    return z3.And(s.m == t.m, s.n == t.n, s.bn == t.bn, s.cn == t.cn,
                  quantify(ctx, (s.m, s.n), lambda a, b: s.A(a, b) == t.A(a, b)), quantify(ctx, (s.m,), lambda a: s.b(a) == t.b(a)), quantify(ctx, (s.n,), lambda a: s.c(a) == t.c(a)),
                  s.z == t.z, s.obj == t.obj, s.sef == t.sef,
                  z3.ForAll([i], z3.And(S(s.rdom, i) == S(t.rdom, i), z3.Implies(S(s.rdom, i), S(s.rval, i) == S(t.rval, i)))),
                  same_list(ctx, attr(o, "_free_variables"), attr(p, "_free_variables")), same_list(ctx, attr(o, "_negative_variables"), attr(p, "_negative_variables")))


@unit("LinearProgram.copy", "C11", functions=["LinearProgram.copy", "LinearProgram.__init__", "LinearProgram.__eq__"], limit=100)
def u_copy(ctx):
    o = new_lp(ctx)
    s, k = P(ctx, o), Keep(ctx, o)
    steps = attr(o, "_steps")
    out = run_lp(ctx, o, "copy")
    k.ensure(ctx, "copy")
    ctx.ensure("copy does not raise", not out.raised)
    if out.raised:
        return
    r = out.value
    if not isinstance(r, Obj):
        raise Unsupported(f"copy returns {r!r}")
    ctx.ensure("copy returns another program", r is not o)
    separate(ctx, "copy", o, r)
    t = P(ctx, r)
    same_program(ctx, "copy", s, t)
    ctx.ensure("the copy has a log of its own", attr(r, "_steps") is not steps)
    eq = run_lp(ctx, o, "__eq__", r)
    ctx.ensure("a copy equals its original", z3.BoolVal(False) if eq.raised else is_true(eq.value))
    qe = run_lp(ctx, r, "__eq__", o)
    ctx.ensure("the original equals its copy", z3.BoolVal(False) if qe.raised else is_true(qe.value))
    ctx.reach("copy returns")


@unit("LinearProgram.__eq__", "C11", functions=["LinearProgram.__eq__"], limit=100)
def u_eq(ctx):
    o, p = new_lp(ctx), new_lp(ctx)
    k, l = Keep(ctx, o), Keep(ctx, p)
    out = run_lp(ctx, o, "__eq__", p)
    k.ensure(ctx, "==")
    l.ensure(ctx, "== (right side)")
    ctx.ensure("== does not raise", not out.raised)
    if out.raised:
        return
    ctx.ensure("programs are equal exactly when every part is", is_true(out.value) == identical(ctx, o, p))
    ctx.reach("== returns")


@unit("LinearProgram.clear_steps", "C11", functions=["LinearProgram.clear_steps", "LinearProgram.copy"], limit=60)
def u_clear(ctx):
    o = new_lp(ctx)
    s, k = P(ctx, o), Keep(ctx, o)
    steps = attr(o, "_steps")
    in_place = ctx.choose(2) == 0
    out = run_lp(ctx, o, "clear_steps", in_place)
    k.ensure(ctx, "clear_steps")
    ctx.ensure("clear_steps does not raise", not out.raised)
    if out.raised:
        return
    r = out.value
    if not isinstance(r, Obj):
        raise Unsupported(f"clear_steps returns {r!r}")
    if in_place:
        ctx.ensure("clear_steps in place returns the program itself", r is o)
    else:
        ctx.ensure("clear_steps returns another program", r is not o)
        ctx.ensure("clear_steps keeps the log of the original", attr(o, "_steps") is steps)
        separate(ctx, "clear_steps", o, r)
        same_program(ctx, "clear_steps", s, P(ctx, r))
    q = attr(r, "_steps")
    ctx.ensure("the log is empty afterwards", isinstance(q, PList) and not q.items)
    ctx.reach("clear_steps returns")


# ---------------------------------------------------------------- integer programs
IPM = "pytimize.programs._integer"


class IntList(HObj):
    """A list of positions handed in by the caller."""
    py_type = "list"


def new_ip(ctx, whole=None):
    o = new_lp(ctx, klass=cls(ctx, IPM, "IntegerProgram"))
    o.attrs["_integral_variables"] = None if (ctx.choose(2) if whole is None else whole) == 0 else sorted_indices(ctx, "integral", ctx.fresh("far", IntS))
    return o


def rel_loop():
    """__get_inequalities: one relation per row so far."""
    def seq(L):
        return grown(L["inequalities"], Name)

    def rel(s, i):
        return z3.If(S(s.rdom, i), S(s.rval, i), EQ)

    def inv(L):
        q, s = seq(L), L.g["prog"]
        i = z3.Int("i_")
        return [("one relation per row so far", q.n == L.i), ("each is the relation of its row", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < q.n), S(q.arr, i) == rel(s, i)), patterns=[S(q.arr, i)]))]

    def enter(L):
        L.g["prog"] = P(L.ctx, L["self"])
        seq(L)
    return {("LinearProgram.__get_inequalities", 0): LoopSpec(inv, enter=enter, mods=lambda L: [seq(L)])}


@unit("IntegerProgram.relax", "C11", "C22", functions=["IntegerProgram.relax", "LinearProgram.inequalities", "LinearProgram.__get_inequalities", "LinearProgram.free_variables", "LinearProgram.negative_variables", "LinearProgram.__init__"], limit=120)
def u_relax(ctx):
    from c10 import INIT
    o = new_ip(ctx)
    ctx.ghost["seq_both"] = True
    s, k = P(ctx, o), Keep(ctx, o)
    iv = attr(o, "_integral_variables")
    v0 = version(iv)
    out = run_lp(ctx, o, "relax", loops=rel_loop(), contracts=INIT)
    k.ensure(ctx, "relax")
    ctx.ensure("relax keeps the integral variables", attr(o, "_integral_variables") is iv and version(iv) == v0)
    ctx.ensure("relax does not raise", not out.raised)
    if out.raised:
        return
    r = out.value
    if not isinstance(r, Obj):
        raise Unsupported(f"relax returns {r!r}")
    ctx.ensure("relax returns another program", r is not o)
    ctx.ensure("[C22] the relaxation is a linear program without integrality", r.cls is lp_class(ctx))
    separate(ctx, "relax", o, r)
    same_program(ctx, "the relaxation is the program", s, P(ctx, r))
    same_program(ctx, "the relaxation is the program", s, P(ctx, r), tag="[C22] ")
    ctx.reach("relax returns")
