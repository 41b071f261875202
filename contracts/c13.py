"""C13: standard equality form."""
from lp import *
from c12 import separate, own

MP = z3.MultiPattern
BMask = z3.ArraySort(IntS, BoolS)
x_ = z3.Const("x_", la.Vec)


class Sef:
    """The standard equality form of a program s, and the maps between the points of both."""

    def __init__(self, ctx, s):
        self.ctx, self.s = ctx, s
        k = ctx.next_serial()
        self.RR = z3.Function(f"joined!{k}", IntS, la.Vec, la.Vec)    # the first t free variables put together again
        self.slot = z3.Function(f"slot!{k}", IntS, IntS)        # the column of the next slack at row i
        self.fr, self.F = s.free.arr, s.free.n
        self.N0 = z3.simplify(s.n + self.F)
        self.end = self.slot(s.m)
        ctx.assume(z3.ForAll([x_], self.RR(0, x_) == x_, patterns=[self.RR(0, x_)]))
        ctx.assume(self.slot(0) == self.N0)
        if s.neg.arr is None or z3.is_int_value(z3.simplify(s.neg.n)):
            self.NEG = z3.K(IntS, z3.BoolVal(False))
            self.at = None
        else:
            m = ctx.ghost["members"][s.neg.arr.get_id()]
            self.NEG, self.at = m[0], m[3]

    def k(self, t):
        return S(self.fr, t) + t + 1

    def next_join(self, t):
        """The definition of the map at t + 1."""
        self.ctx.assume(z3.ForAll([x_], self.RR(t + 1, x_) == self.RR(t, la.unsp(x_, self.k(t))), patterns=[self.RR(t + 1, x_)], qid="join_next"))

    def rel(self, r):
        return S(self.s.rdom, r)

    def next_slot(self, r):
        self.ctx.assume(self.slot(r + 1) == self.slot(r) + z3.If(self.rel(r), 1, 0))

    def sgn(self, r):
        return z3.If(S(self.s.rval, r) == GE, z3.RealVal(-1), z3.RealVal(1))

    def join(self, x):
        """The point of the original program behind the point x of the standard form."""
        return la.flip(self.RR(self.F, x), self.NEG)

    def cost(self, c, x):
        d = dot(c, self.join(x))
        return z3.If(self.s.obj == MIN, -d, d)

    def row(self, r, x):
        return dot(S(self.s.Ao.arr(), r), self.join(x)) + z3.If(self.rel(r), self.sgn(r) * S(x, self.slot(r)), R0)


def sef_loops():
    def A(L):
        return L["self"].attrs["_A"]

    def c(L):
        return L["self"].attrs["_c"]

    # ------------------------------------------------ negative variables
    def neg_enter(L):
        ctx = L.ctx
        if "sef" not in ctx.ghost:
            ctx.ghost["sef"] = Sef(ctx, ctx.ghost["s0"])
        f = ctx.ghost["sef"]
        for a, k in ((A(L), 2), (c(L), 1)):
            if not (isinstance(a, Nd) and a.nd == k and a.dt == "float"):
                raise Unsupported(f"a part of the program is {a!r}")
        f.A0, f.c0 = A(L).arr(), c(L).arr()

    def neg_inv(L):
        f, s = L.ctx.ghost["sef"], L.ctx.ghost["s0"]
        if f.at is None:
            raise Unsupported("the list of negative variables")
        i, j = z3.Ints("i_ j_")
        seen = z3.And(S(f.NEG, j), S(f.at, j) < L.i)
        a, d = S(S(A(L).arr(), i), j), S(c(L).arr(), j)
        e = S(S(f.A0, i), j)
        return [("the size stays", z3.And(A(L).dims[0] == s.m, A(L).dims[1] == s.n, c(L).dims[0] == s.n)),
                ("columns of negative variables seen are negated", z3.ForAll([i, j], a == z3.If(seen, -e, e), patterns=[a, e])),
                ("costs of negative variables seen are negated", z3.ForAll([j], d == z3.If(seen, -S(f.c0, j), S(f.c0, j)), patterns=[d, S(f.c0, j)]))]

    def neg_done(L):
        ctx = L.ctx
        f = ctx.ghost["sef"]
        i, j = ctx.fresh("i", IntS), ctx.fresh("j", IntS)
        f.An, f.cn = A(L).arr(), c(L).arr()
        ctx.ensure("the rows have the signs of the negative variables changed", S(S(f.An, i), j) == S(la.flip(S(f.A0, i), f.NEG), j))
        ctx.ensure("the objective has the signs of the negative variables changed", S(f.cn, j) == S(la.flip(f.c0, f.NEG), j))
        v = z3.Int("i_")
        ctx.assume(z3.ForAll([v], S(f.An, v) == la.flip(S(f.A0, v), f.NEG), patterns=[S(f.An, v)]))  # extensionality
        ctx.assume(f.cn == la.flip(f.c0, f.NEG))

    # ------------------------------------------------ free variables
    def free_enter(L):
        ctx = L.ctx
        f = ctx.ghost["sef"]
        if not hasattr(f, "An") or f.ctx is not ctx:
            raise Unsupported("the negative variables come later")
        f.concat = grown(L["self"].attrs["_reverse_sef"].items["concat"])

    def renew(L, dims):
        o, ctx = L["self"], L.ctx
        m = ctx.ghost["s0"].m
        o.attrs["_A"], o.attrs["_c"] = nd.fresh(ctx, "A", [m, dims]), nd.fresh(ctx, "c", [dims])

    def parts(L):
        return [("attr", L["self"], "_A"), ("attr", L["self"], "_c")]

    def free_mods(L):
        return parts(L) + [L.ctx.ghost["sef"].concat]

    def free_havoc(L):
        renew(L, z3.simplify(L.ctx.ghost["s0"].n + L.i))

    def free_inv(L):
        ctx = L.ctx
        f, s = ctx.ghost["sef"], ctx.ghost["s0"]
        At, ct = A(L).arr(), c(L).arr()
        r, p = z3.Ints("r_ p_")
        seq = f.concat
        return [("one column more for every free variable seen", z3.And(A(L).dims[0] == s.m, A(L).dims[1] == s.n + L.i, c(L).dims[0] == s.n + L.i)),
                ("places of the split variables", z3.And(seq.n == L.i, z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < L.i), S(seq.arr, p) == S(f.fr, p) + p), patterns=[S(seq.arr, p)]))),
                ("rows on points", z3.ForAll([r, x_], z3.Implies(z3.And(0 <= r, r < s.m), dot(S(At, r), x_) == dot(S(f.An, r), f.RR(L.i, x_))), patterns=[dot(S(At, r), x_)], qid="row_free")),
                ("objective on points", z3.ForAll([x_], dot(ct, x_) == dot(f.cn, f.RR(L.i, x_)), patterns=[dot(ct, x_)], qid="obj_free"))]

    def free_begin(L):
        L.g["before"] = (A(L).arr(), c(L).arr())

    def free_step(L):
        ctx = L.ctx
        f, s = ctx.ghost["sef"], ctx.ghost["s0"]
        t = z3.simplify(L.i - 1)
        A0, c0 = L.g["before"]
        A1, c1 = A(L).arr(), c(L).arr()
        f.next_join(t)
        r, x = ctx.fresh("r", IntS), ctx.fresh("x", la.Vec)
        u = la.unsp(x, f.k(t))
        inr = z3.And(0 <= r, r < s.m)
        ctx.ensure("a row with a free variable split", z3.Implies(inr, dot(S(A1, r), x) == dot(S(A0, r), u)))
        ctx.ensure("the objective with a free variable split", dot(c1, x) == dot(c0, u))
        ctx.ensure("a row on a point with this free variable joined", z3.Implies(inr, dot(S(A1, r), x) == dot(S(f.An, r), f.RR(t, u))))
        ctx.ensure("the objective on a point with this free variable joined", dot(c1, x) == dot(f.cn, f.RR(t, u)))
        q = z3.Int("r_")
        v = la.unsp(x_, f.k(t))
        ctx.assume(z3.ForAll([q, x_], z3.Implies(z3.And(0 <= q, q < s.m), dot(S(A1, q), x_) == dot(S(f.An, q), f.RR(t, v))), patterns=[dot(S(A1, q), x_)]))
        ctx.assume(z3.ForAll([x_], dot(c1, x_) == dot(f.cn, f.RR(t, v)), patterns=[dot(c1, x_)]))

    def free_done(L):
        f = L.ctx.ghost["sef"]
        f.As, f.cs = A(L).arr(), c(L).arr()

    # ------------------------------------------------ slacks
    def slack_enter(L):
        f = L.ctx.ghost["sef"]
        if not hasattr(f, "As"):
            raise Unsupported("the free variables come later")

    def slack_havoc(L):
        renew(L, L.ctx.ghost["sef"].slot(L.i))

    def slack_inv(L):
        ctx = L.ctx
        f, s = ctx.ghost["sef"], ctx.ghost["s0"]
        Ai, ci = A(L).arr(), c(L).arr()
        r = z3.Int("r_")
        return [("the slacks come after the variables", f.slot(L.i) >= f.N0),
                ("one column more for every relation seen", z3.And(A(L).dims[0] == s.m, A(L).dims[1] == f.slot(L.i), c(L).dims[0] == f.slot(L.i))),
                ("slacks seen are in place", z3.ForAll([r, x_], z3.Implies(z3.And(0 <= r, r < s.m), dot(S(Ai, r), x_) == dot(S(f.As, r), x_) + z3.If(z3.And(r < L.i, f.rel(r)), f.sgn(r) * S(x_, f.slot(r)), R0)), patterns=[dot(S(Ai, r), x_)], qid="row_slack")),
                ("slacks cost nothing", z3.ForAll([x_], dot(ci, x_) == dot(f.cs, x_), patterns=[dot(ci, x_)], qid="obj_slack"))]

    def slack_step(L):
        ctx = L.ctx
        f, s = ctx.ghost["sef"], ctx.ghost["s0"]
        i = z3.simplify(L.i - 1)
        A0, c0 = L.g["before"]
        A1, c1 = A(L).arr(), c(L).arr()
        f.next_slot(i)
        if A1.eq(A0) and c1.eq(c0):
            return
        r, x, w = ctx.fresh("r", IntS), ctx.fresh("x", la.Vec), ctx.fresh("w", IntS)
        k = f.slot(i)
        inr = z3.And(0 <= r, r < s.m)
        for u in (S(A0, r), c0):
            support_law(ctx, u, la.rem(x, k), x)
        ctx.ensure("a row without its new column", z3.Implies(inr, dot(S(A0, r), la.rem(x, k)) == dot(S(A0, r), x)))
        ctx.ensure("the objective without its new column", dot(c0, la.rem(x, k)) == dot(c0, x))
        here = z3.If(r == i, f.sgn(i) * S(x, k), R0)
        ctx.ensure("a row has one component more", z3.Implies(z3.And(inr, f.rel(i)), S(S(A1, r), w) == S(la.ins(S(A0, r), k, z3.If(r == i, f.sgn(i), R0)), w)))
        v = z3.Int("r_")
        ctx.assume(z3.ForAll([v], z3.Implies(z3.And(0 <= v, v < s.m, f.rel(i)), S(A1, v) == la.ins(S(A0, v), k, z3.If(v == i, f.sgn(i), R0))), patterns=[S(A1, v)]))  # extensionality
        ctx.ensure("a row with its slack", z3.Implies(z3.And(inr, f.rel(i)), dot(S(A1, r), x) == dot(S(A0, r), x) + here))
        ctx.ensure("the objective with a slack", z3.Implies(f.rel(i), dot(c1, x) == dot(c0, x)))
        q = z3.Int("r_")
        ctx.assume(z3.ForAll([q, x_], z3.Implies(z3.And(0 <= q, q < s.m, f.rel(i)), dot(S(A1, q), x_) == dot(S(A0, q), x_) + z3.If(q == i, f.sgn(i) * S(x_, k), R0)), patterns=[dot(S(A1, q), x_)]))
        ctx.assume(z3.ForAll([x_], z3.Implies(f.rel(i), dot(c1, x_) == dot(c0, x_)), patterns=[dot(c1, x_)]))

    bufs_ = lambda L: [A(L), c(L)]
    return {("LinearProgram.to_sef", 0): LoopSpec(neg_inv, enter=neg_enter, mods=bufs_, done=neg_done),
            ("LinearProgram.to_sef", 1): LoopSpec(free_inv, enter=free_enter, mods=free_mods, havoc=free_havoc, begin=free_begin, step=free_step, done=free_done),
            ("LinearProgram.to_sef", 2): LoopSpec(slack_inv, enter=slack_enter, mods=parts, havoc=slack_havoc, begin=free_begin, step=slack_step)}


def support_law(ctx, u, x, y):
    """Instance of a law: dot(u, .) is the same on vectors that agree wherever u is not zero."""
    la.law(ctx, "support", u, x, y)


@unit("LinearProgram.to_sef", "C13", "C11", functions=["LinearProgram.to_sef", "LinearProgram.copy", "LinearProgram.__init__"], limit=150)
def u_to_sef(ctx):
    o = new_lp(ctx)
    s, kp = P(ctx, o), Keep(ctx, o)
    ctx.ghost["s0"] = s
    in_place = ctx.choose(2) == 0
    out = run_lp(ctx, o, "to_sef", ctx.choose(2) == 0, in_place, loops=sef_loops())
    ctx.ensure("to_sef does not raise", not out.raised)
    if out.raised:
        return
    r = out.value
    if in_place:
        ctx.ensure("[C11] to_sef in place returns the program itself", r is o)
    else:
        kp.ensure(ctx, "to_sef")
        ctx.ensure("[C11] to_sef returns another program", r is not o)
        separate(ctx, "to_sef", o, r)
    t = P(ctx, r)
    i, j = ctx.fresh("i", IntS), ctx.fresh("j", IntS)
    if o.attrs["_is_sef"] is True and (not in_place or o is not r):
        pass
    ctx.ensure("the standard form maximises", t.obj == MAX)
    ctx.ensure("the standard form has only equations", t.eq(i))
    ctx.ensure("the standard form has no free and no negative variables", z3.Not(z3.Or(t.isfree(j), t.isneg(j))))
    ctx.ensure("the standard form is marked as such", t.sef)
    ctx.ensure("the constant stays", t.z == s.z)
    ctx.ensure("the number of rows and the right-hand side stay", z3.And(t.m == s.m, t.bn == s.m, z3.Implies(z3.And(0 <= i, i < s.m), t.b(i) == s.b(i))))
    if kp.attrs["_is_sef"] is True:
        ctx.ensure("a program in standard equality form stays", z3.And(t.n == s.n, z3.Implies(z3.And(0 <= i, i < s.m, 0 <= j, j < s.n), t.A(i, j) == s.A(i, j)), z3.Implies(z3.And(0 <= j, j < s.n), t.c(j) == s.c(j))))
        ctx.reach("already in standard form")
        return
    f = ctx.ghost.get("sef")
    if f is None:
        raise Unsupported("the loops of to_sef")
    ctx.ensure("one column for every variable, every free variable and every relation", z3.And(t.n == f.end, t.cn == f.end))
    x = ctx.fresh("x", la.Vec)
    At, ct = t.Ao.arr(), t.co.arr()
    inr = z3.And(0 <= i, i < s.m)
    ctx.ensure("the objective before splitting", dot(ct, x) == dot(f.cn, f.RR(f.F, x)))
    ctx.ensure("the objective of a point", dot(ct, x) == f.cost(s.co.arr(), x))
    ctx.ensure("a row before splitting", z3.Implies(inr, dot(S(At, i), x) == dot(S(f.An, i), f.RR(f.F, x)) + z3.If(f.rel(i), f.sgn(i) * S(x, f.slot(i)), R0)))
    ctx.ensure("a row of a point", z3.Implies(inr, dot(S(At, i), x) == f.row(i, x)))
    rv = r.attrs.get("_reverse_sef")
    ok = isinstance(rv, PDict) and set(rv.items) == {"drop", "concat", "negative"}
    ctx.ensure("the way back is recorded", ok)
    if ok:
        p = ctx.fresh("p", IntS)
        cc = rv.items["concat"]
        ctx.ensure("the way back: places of split variables", isinstance(cc, SSeq) and z3.And(cc.n == f.F, z3.Implies(z3.And(0 <= p, p < f.F), S(cc.arr, p) == S(f.fr, p) + p)))
        ng = ints(ctx, rv.items["negative"])
        ctx.ensure("the way back: negative variables", ng.has(j) == s.isneg(j))
        dl = Interp(ctx, ctx.program, {}, {})
        card = I_len(dl, kp.attrs["_inequality_indices"])
        ctx.ensure("the way back: number of slacks", term(rv.items["drop"]) == term(card))
    ctx.reach("standard form")


def I_len(it, d):
    from interp import BUILTINS
    return BUILTINS["len"](it, [d], {})


# ---------------------------------------------------------------- the map between the points, closed
class Maps:
    """What the maps do, position by position: claims about the first t free variables."""

    def __init__(self, ctx, f):
        self.ctx, self.f, self.s = ctx, f, f.s
        k = ctx.next_serial()
        self.sig = z3.Function(f"place!{k}", IntS, IntS, IntS)   # where variable j is after t splits
        self.EE = z3.Function(f"split!{k}", IntS, la.Vec, la.Vec)      # the first t free variables split by sign
        self.ISF = ctx.ghost["members"][self.s.free.arr.get_id()] if self.s.free.arr is not None and self.s.free.arr.get_id() in ctx.ghost.get("members", {}) else None
        self.j, self.p, self.e = z3.Ints("j_ p_ s_")

    def isfree(self, j):
        return self.s.isfree(j)

    def last(self, t):
        """The last free variable among the first t (or -1)."""
        return z3.If(t == 0, z3.IntVal(-1), S(self.f.fr, t - 1))

    def among(self, t, j):
        """j is one of the first t free variables."""
        return z3.And(self.isfree(j), S(self.ISF[3], j) < t)

    def base(self):
        ctx = self.ctx
        ctx.assume(z3.ForAll([self.j], self.sig(0, self.j) == self.j, patterns=[self.sig(0, self.j)]))
        ctx.assume(z3.ForAll([x_], self.EE(0, x_) == x_, patterns=[self.EE(0, x_)]))

    def next(self, t):
        ctx, f = self.ctx, self.f
        f.next_join(t)
        ctx.assume(z3.ForAll([self.j], self.sig(t + 1, self.j) == self.sig(t, self.j) + z3.If(self.j > S(f.fr, t), 1, 0), patterns=[self.sig(t + 1, self.j)]))
        ctx.assume(z3.ForAll([x_], self.EE(t + 1, x_) == la.spl(self.EE(t, x_), f.k(t)), patterns=[self.EE(t + 1, x_)]))

    def claims(self, t, j, p, e, x):
        """Each claim as (name, variables, formula, pattern)."""
        f = self.f
        sig, RR, EE = self.sig(t, j), f.RR(t, x), self.EE(t, x)
        return [("places are bounded", [j], z3.Implies(j >= 0, z3.And(0 <= sig, sig <= j + t, z3.Implies(j > self.last(t), sig == j + t))), self.sig(t, j)),
                ("a variable that is not split is read from its place", [x, j], z3.Implies(z3.And(j >= 0, z3.Not(self.among(t, j))), S(RR, j) == S(x, sig)), S(RR, j)),
                ("a split variable is the difference of its two parts", [x, e], z3.Implies(z3.And(0 <= e, e < t), S(RR, S(f.fr, e)) == S(x, S(f.fr, e) + e) - S(x, S(f.fr, e) + e + 1)), S(RR, S(f.fr, e))),
                ("putting together undoes splitting", [x], f.RR(t, EE) == x, EE),
                ("positions after the last split variable are moved", [x, p], z3.Implies(p > self.last(t) + t, S(EE, p) == S(x, p - t)), S(EE, p)),
                ("splitting leaves nothing negative", [x], z3.Implies(z3.ForAll([j], z3.Implies(z3.And(j >= 0, z3.Not(self.isfree(j))), S(x, j) >= 0), patterns=[S(x, j)]),
                                                                   z3.ForAll([p], z3.Implies(z3.And(0 <= p, p <= self.last(t) + t), S(EE, p) >= 0), patterns=[S(EE, p)])), EE),
                ("places between two split variables", [j, e], z3.Implies(z3.And(0 <= e, e <= t, j >= 0, j > self.last(e), z3.Implies(e < f.F, j <= S(f.fr, e))), sig == j + e), MP(self.sig(t, j), S(f.fr, e)))]

    def assume_all(self, t, only=None):
        for k, (nm, vs, g, pat) in enumerate(self.claims(t, self.j, self.p, self.e, x_)):
            if only is None or k in only:
                self.ctx.assume(z3.ForAll(vs, g, patterns=[pat], qid=f"map{k}"))

    def prove_all(self, t, when):
        ctx = self.ctx
        j, p, e, x = ctx.fresh("j", IntS), ctx.fresh("p", IntS), ctx.fresh("e", IntS), ctx.fresh("x", la.Vec)
        cl = self.claims(t, j, p, e, x)
        for nm, vs, g, _ in cl[:5]:
            ctx.ensure(f"{nm}: {when}", g)
        ctx.ensure(f"{cl[6][0]}: {when}", cl[6][2])
        jj = z3.Int("j_")
        pos = z3.ForAll([jj], z3.Implies(z3.And(jj >= 0, z3.Not(self.isfree(jj))), S(x, jj) >= 0), patterns=[S(x, jj)])
        ctx.ensure(f"{cl[5][0]}: {when}", z3.Implies(z3.And(pos, 0 <= p, p <= self.last(t) + t), S(self.EE(t, x), p) >= 0))


def some_sef(ctx):
    o = new_lp(ctx, sef=False)
    s = P(ctx, o)
    f = Sef(ctx, s)
    return s, f


@unit("the map of the standard form, by induction", "C13", "C19", functions=[], limit=60)
def u_maps(ctx):
    s, f = some_sef(ctx)
    M = Maps(ctx, f)
    M.base()
    if ctx.choose(2) == 0:
        M.prove_all(z3.IntVal(0), "at the start")
        ctx.reach("the start")
        return
    t = ctx.fresh("t", IntS)
    ctx.assume(z3.And(0 <= t, t < f.F))
    M.assume_all(t)
    M.next(t)
    M.prove_all(z3.simplify(t + 1), "one more")
    ctx.reach("one more")


def slot_claim(f, i, r, e):
    """Slots used before row i are different from each other and lie between the variables and slot(i)."""
    up = lambda a: f.slot(a) + z3.If(f.rel(a), 1, 0)
    return z3.And(f.slot(i) >= f.N0, z3.Implies(z3.And(0 <= r, r < i), z3.And(f.N0 <= f.slot(r), up(r) <= f.slot(i))),
                  z3.Implies(z3.And(0 <= r, r < e, e < i), up(r) <= f.slot(e)))


def assume_slots(ctx, f):
    """What the next unit proves, at the last row."""
    r, e = z3.Ints("r_ s_")
    ctx.assume(f.end >= f.N0)
    ctx.assume(z3.ForAll([r], z3.Implies(z3.And(0 <= r, r < f.s.m), z3.And(f.N0 <= f.slot(r), f.slot(r) + z3.If(f.rel(r), 1, 0) <= f.end)), patterns=[f.slot(r)], qid="slot1"))
    ctx.assume(z3.ForAll([r, e], z3.Implies(z3.And(0 <= r, r < e, e < f.s.m), f.slot(r) + z3.If(f.rel(r), 1, 0) <= f.slot(e)), patterns=[MP(f.slot(r), f.slot(e))], qid="slot2"))


@unit("slacks have columns of their own, by induction", "C13", functions=[])
def u_slots(ctx):
    s, f = some_sef(ctx)
    r, e = ctx.fresh("r", IntS), ctx.fresh("e", IntS)
    if ctx.choose(2) == 0:
        ctx.ensure("slots at the start", slot_claim(f, z3.IntVal(0), r, e))
        return
    i = ctx.fresh("i", IntS)
    ctx.assume(z3.And(0 <= i, i < s.m))
    q, p = z3.Ints("q_ p_")
    ctx.assume(z3.ForAll([q, p], slot_claim(f, i, q, p), patterns=[MP(f.slot(q), f.slot(p))]))
    ctx.assume(slot_claim(f, i, r, i))
    f.next_slot(i)
    ctx.ensure("slots with one more row", slot_claim(f, z3.simplify(i + 1), r, e))
    ctx.reach("one more row")


def sef_program(ctx, f, x):
    """A point x meets the constraints of the standard form (rows by the contract of to_sef)."""
    s = f.s
    i, p = z3.Ints("i_ p_")
    return z3.And(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < s.m), f.row(i, x) == s.b(i)), patterns=[dot(S(s.Ao.arr(), i), f.join(x))]),
                  z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < f.end), S(x, p) >= 0), patterns=[S(x, p)]))


@unit("the standard form is the same problem", "C13", functions=[], limit=100)
def u_same_problem(ctx):
    s, f = some_sef(ctx)
    M = Maps(ctx, f)
    M.assume_all(f.F)
    assume_slots(ctx, f)
    A, b, c = s.arrs()
    i, j, p = ctx.fresh("i", IntS), ctx.fresh("j", IntS), ctx.fresh("p", IntS)
    inr, inc = z3.And(0 <= i, i < s.m), z3.And(0 <= j, j < s.n)
    if ctx.choose(2) == 0:
        X = nd.fresh(ctx, "X", [f.end]).arr()
        ctx.assume(sef_program(ctx, f, X))
        x = f.join(X)
        d = ctx.fresh("left", RealS)
        ctx.assume(d == dot(S(A, i), x))
        ctx.ensure("a slack of a feasible point is not negative", z3.Implies(z3.And(inr, f.rel(i)), S(X, f.slot(i)) >= 0))
        ctx.ensure("the point behind a feasible point meets every relation", z3.Implies(inr, s.row_ok(i, d)))
        ctx.ensure("a variable before its sign is changed", z3.Implies(z3.And(inc, z3.Not(s.isfree(j))), S(f.RR(f.F, X), j) >= 0))
        ctx.ensure("the point behind a feasible point meets every sign restriction", z3.Implies(inc, s.sign_ok(j, S(x, j))))
        ctx.reach("a feasible point of the standard form")
        return
    x = nd.fresh(ctx, "x", [s.n]).arr()
    ctx.assume(s.feasible(x))
    y = la.flip(x, f.NEG)
    v = z3.Int("j_")
    ctx.ensure("signs changed, only free variables may be negative", z3.Implies(z3.And(j >= 0, z3.Not(s.isfree(j))), S(y, j) >= 0))
    ctx.assume(z3.ForAll([v], z3.Implies(z3.And(v >= 0, z3.Not(s.isfree(v))), S(y, v) >= 0), patterns=[S(y, v)]))
    E = M.EE(f.F, y)
    ctx.mention(E)
    ctx.ensure("splitting and putting together", f.RR(f.F, E) == y)
    ctx.ensure("the last free variable", z3.And(M.last(f.F) < s.n, M.last(f.F) >= -1))
    low, high = M.last(f.F) + f.F, z3.simplify(f.N0)
    q = z3.Int("q_")
    ctx.assume(z3.Implies(z3.ForAll([v], z3.Implies(z3.And(v >= 0, z3.Not(s.isfree(v))), S(y, v) >= 0), patterns=[S(y, v)]),
                          z3.ForAll([q], z3.Implies(z3.And(0 <= q, q <= low), S(E, q) >= 0), patterns=[S(E, q)])))
    ctx.ensure("a position after the last split variable", z3.Implies(z3.And(p > low, p < high), z3.Not(s.isfree(p - f.F))))
    ctx.ensure("split variables are not negative", z3.Implies(z3.And(0 <= p, p < high), S(E, p) >= 0))
    # the point of the standard form: the split variables, then every slack in its column (columns differ: proved above)
    X = ctx.fresh("X", la.Vec)
    r, e = z3.Ints("r_ e_")
    ctx.assume(z3.ForAll([e], z3.Implies(e < high, S(X, e) == S(E, e)), patterns=[S(X, e)]))
    slack = lambda k: f.sgn(k) * (s.b(k) - dot(S(A, k), x))
    ctx.assume(z3.ForAll([r], z3.Implies(z3.And(0 <= r, r < s.m, f.rel(r)), S(X, f.slot(r)) == slack(r)), patterns=[f.slot(r)]))
    k = ctx.fresh("k", IntS)
    hit = z3.And(0 <= k, k < s.m, f.rel(k), f.slot(k) == p)
    ctx.assume(z3.Implies(p >= high, z3.Or(hit, S(X, p) == 0)))
    ctx.ensure("two rows do not share a slack", z3.Implies(z3.And(inr, f.rel(i), hit, f.slot(i) == p), i == k))
    d = ctx.fresh("left", RealS)
    ctx.assume(z3.And(d == dot(S(A, k), x), z3.Implies(z3.And(0 <= k, k < s.m), s.row_ok(k, d))))
    ctx.ensure("nothing is negative in the standard form", z3.Implies(z3.And(0 <= p, p < f.end), S(X, p) >= 0))
    ctx.mention(S(f.RR(f.F, X), j))
    ctx.mention(S(f.RR(f.F, E), j))
    ctx.ensure("the same where nothing is split", z3.Implies(z3.And(inc, z3.Not(s.isfree(j))), S(f.RR(f.F, X), j) == S(f.RR(f.F, E), j)))
    if M.ISF is not None:
        at = S(M.ISF[3], j)
        ctx.mention(S(f.RR(f.F, X), S(f.fr, at)))
        ctx.mention(S(f.RR(f.F, E), S(f.fr, at)))
        ctx.ensure("a split variable lies before the slacks", z3.Implies(z3.And(inc, s.isfree(j)), z3.And(at >= 0, at < f.F, j + at + 1 < high)))
        ctx.ensure("the same where a variable is split", z3.Implies(z3.And(inc, s.isfree(j)), S(f.RR(f.F, X), j) == S(f.RR(f.F, E), j)))
    ctx.ensure("the point behind it is the given one", z3.Implies(inc, S(f.join(X), j) == S(x, j)))
    ctx.assume(z3.ForAll([v], z3.Implies(z3.And(0 <= v, v < s.n), S(f.join(X), v) == S(x, v)), patterns=[S(f.join(X), v)]))
    support_law(ctx, S(A, i), f.join(X), x)
    ctx.ensure("rows see the given point", z3.Implies(inr, dot(S(A, i), f.join(X)) == dot(S(A, i), x)))
    ctx.ensure("rows of the standard form hold", z3.Implies(inr, f.row(i, X) == s.b(i)))
    support_law(ctx, c, f.join(X), x)
    ctx.ensure("the objective of the given point", f.cost(c, X) == z3.If(s.obj == MIN, -dot(c, x), dot(c, x)))
    ctx.reach("a feasible point of the program")


# ---------------------------------------------------------------- the contract of to_sef
def is_plain(o):
    """A program without relations, free and negative variables."""
    d = o.attrs["_inequality_indices"]
    none = isinstance(d, LazyDict) and d.real is None
    return none and all(isinstance(o.attrs[k], PList) and not o.attrs[k].items for k in ("_free_variables", "_negative_variables"))


def plain_program(ctx):
    """Any well-formed minimising program without relations, free and negative variables."""
    o = new_lp(ctx, sef=True)
    o.attrs["_objective"], o.attrs["_is_sef"] = "min", False
    return o


def plain_loops():
    def nothing(L):
        return []
    keep = ("same",)
    return {("LinearProgram.to_sef", 2): LoopSpec(nothing)}


@unit("LinearProgram.to_sef of a minimising program without relations", "C13", "C18", functions=["LinearProgram.to_sef"], shared=("C18",))
def u_to_sef_plain(ctx):
    o = plain_program(ctx)
    s, kp = P(ctx, o), Keep(ctx, o)
    in_place = ctx.choose(2) == 0
    out = run_lp(ctx, o, "to_sef", ctx.choose(2) == 0, in_place, loops=plain_loops())
    ctx.ensure("to_sef does not raise", not out.raised)
    if out.raised:
        return
    r = out.value
    ctx.ensure("[C11] to_sef in place returns the program itself, otherwise another", (r is o) == in_place)
    if not in_place:
        kp.ensure(ctx, "to_sef")
    t = P(ctx, r)
    i, j = ctx.fresh("i", IntS), ctx.fresh("j", IntS)
    ctx.ensure("the standard form maximises, without relations, free and negative variables", z3.And(t.obj == MAX, t.eq(i), z3.Not(t.isfree(j)), z3.Not(t.isneg(j)), t.sef))
    ctx.ensure("the size stays", z3.And(t.m == s.m, t.n == s.n, t.bn == s.m, t.cn == s.n))
    ctx.ensure("the matrix stays", z3.Implies(z3.And(0 <= i, i < s.m, 0 <= j, j < s.n), t.A(i, j) == s.A(i, j)))
    ctx.ensure("the right-hand side and the constant stay", z3.And(t.z == s.z, z3.Implies(z3.And(0 <= i, i < s.m), t.b(i) == s.b(i))))
    ctx.ensure("the objective is negated", z3.Implies(z3.And(0 <= j, j < s.n), t.c(j) == -s.c(j)))
    ctx.reach("to_sef returns")


def c_to_sef(interp, v):
    ctx, o, in_place = interp.ctx, v["self"], v["in_place"]
    if not isinstance(in_place, bool) or not isinstance(o.attrs.get("_is_sef"), bool):
        raise Unsupported("to_sef by contract")
    if o.attrs["_is_sef"]:
        if in_place:
            return o
        raise Unsupported("to_sef of a program in standard equality form by contract")
    r = o if in_place else Obj(ctx, o.cls)
    if is_plain(o) and o.attrs["_objective"] == "min":
        c = nd.pointwise(interp, [o.attrs["_c"]], lambda a: -a)
        if not in_place:
            r.attrs.update({k: o.attrs[k] for k in ("_z",)})
            r.attrs["_A"], r.attrs["_b"] = nd.snapshot(o.attrs["_A"]), nd.snapshot(o.attrs["_b"])
            r.attrs["_steps"] = Steps(ctx)
        r.attrs["_c"] = c
        drop, cc, ng = 0, PList(ctx, []), PList(ctx, [])
    else:
        if in_place:
            raise Unsupported("to_sef in place by contract")
        s = P(ctx, o)
        f = Sef(ctx, s)
        M = Maps(ctx, f)
        ctx.ghost["sef_of"] = (s, f, M)
        M.assume_all(f.F)
        assume_slots(ctx, f)
        n = f.end
        A, c = nd.fresh(ctx, "sefA", [s.m, n]), nd.fresh(ctx, "sefc", [n])
        i = z3.Int("i_")
        ctx.assume(z3.ForAll([i, x_], z3.Implies(z3.And(0 <= i, i < s.m), dot(S(A.arr(), i), x_) == f.row(i, x_)), patterns=[dot(S(A.arr(), i), x_)], qid="sef_row"))
        ctx.assume(z3.ForAll([x_], dot(c.arr(), x_) == f.cost(s.co.arr(), x_), patterns=[dot(c.arr(), x_)], qid="sef_cost"))
        r.attrs["_A"], r.attrs["_c"], r.attrs["_b"] = A, c, nd.snapshot(o.attrs["_b"])
        r.attrs["_z"], r.attrs["_steps"] = o.attrs["_z"], Steps(ctx)
        drop = SV(f.end - f.N0)
        ctx.result.assumed.add("the number of relations is the number of rows that have one (len of a mapping)")
        cc = SSeq(ctx, f.F, ctx.fresh("concat", la.IVec), IntS)
        ctx.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < f.F), S(cc.arr, i) == S(f.fr, i) + i), patterns=[S(cc.arr, i)]))
        ng = o.attrs["_negative_variables"]
    r.attrs["_objective"], r.attrs["_is_sef"] = "max", True
    r.attrs["_inequality_indices"] = LazyDict(ctx)
    r.attrs["_free_variables"], r.attrs["_negative_variables"] = PList(ctx, []), PList(ctx, [])
    r.attrs["_reverse_sef"] = PDict(ctx, {"drop": drop, "concat": cc, "negative": ng})
    return r


TO_SEF = {"LinearProgram.to_sef": Contract(c_to_sef)}
