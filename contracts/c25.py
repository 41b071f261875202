"""C25: objectives, constraints and restrictions become a program."""
from lp import *
from c10 import INIT
from c24 import EQM, VARM, CONM, E, meaning, expression, number, Same, eq_loops, denotes, vector, outcome, NO, ZERO

OBM = "pytimize.formulations.linear._objective"
ABM = "pytimize.formulations.linear._abstract"


# ---------------------------------------------------------------- objectives
@unit("minimize and maximize", "C25", functions=["minimize", "maximize", "ObjectiveFunction.__init__", "LinearEquation.coefficients", "LinearEquation.constant", "Variable.equation"], limit=60)
def u_objective(ctx):
    for module in (OBM, "pytimize.formulations.integer._objective"):
        pass
    module = (OBM, "pytimize.formulations.integer._objective")[ctx.choose(2)]
    name = ("minimize", "maximize")[ctx.choose(2)]
    e = expression(ctx, "e")
    s = Same(ctx, e)
    it = Interp(ctx, ctx.program, eq_loops(), {})
    f = cls(ctx, module, name)
    out = outcome(lambda: it.call(f, [e]))
    s.ensure(name)
    ctx.ensure(f"{name} does not raise", not out.raised)
    if out.raised:
        return
    r = out.value
    ctx.ensure(f"{name} gives an objective", isinstance(r, Obj) and r.cls.name == "ObjectiveFunction")
    vector(ctx, f"{name}: coefficients", attr(r, "_c"), s.m.co, s.m.dom)
    ctx.ensure(f"{name}: constant", real(attr(r, "_z")) == s.m.const)
    ctx.ensure(f"{name}: direction", attr(r, "_objective") == ("min" if name == "minimize" else "max"))
    ctx.reach("objective")


# ---------------------------------------------------------------- assembling the rows
class Con(HObj):
    """One of the constraints written: its coefficients, relation and constant."""

    def __init__(self, all_, i):
        HObj.__init__(self, all_.ctx)
        self.all, self.i = all_, i

    def py_getattr(self, interp, a):
        if a == "coefficients":
            return nd.of_term(self.ctx, S(self.all.C, self.i), (S(self.all.N, self.i),))
        if a == "inequality":
            return SV(S(self.all.R, self.i))
        if a == "constant":
            return SV(S(self.all.K, self.i), "float")
        raise Unsupported(f"attribute {a} of a constraint")


class Cons(HObj):
    """Any number of constraints."""
    py_type = "tuple"
    star = True

    def __init__(self, ctx):
        HObj.__init__(self, ctx)
        self.n = ctx.fresh("constraints", IntS)
        self.C = ctx.fresh("coefs", z3.ArraySort(IntS, la.Vec))
        self.N = ctx.fresh("coef_len", la.IVec)
        self.R = ctx.fresh("relation", z3.ArraySort(IntS, Name))
        self.K = ctx.fresh("constant", la.Vec)
        i = z3.Int("i_")
        ctx.assume(self.n >= 1)
        ctx.assume(z3.ForAll([i], S(self.N, i) >= 1, patterns=[S(self.N, i)]))

    def py_len(self, interp):
        return from_term(self.n)

    def py_iter(self, interp):
        return SeqIter(self.n, lambda i: Con(self, i))


def padded(C, N, i, j):
    """Coefficient of variable j in constraint i."""
    return z3.If(z3.And(0 <= j, j < S(N, i)), S(S(C, i), j), R0)


def rows_loop():
    def get(L):
        k = L["constraints"]
        if not isinstance(k, Cons):
            raise Unsupported(f"constraints are {k!r}")
        return k

    def rels(L):
        return grown(L["inequalities"], Name)

    def fresh_A(interp, old):
        ctx = interp.ctx
        if not isinstance(old, Nd):
            raise Unsupported(f"rows are {old!r}")
        w = old.dims[-1]
        if ctx.choose(2) == 0:
            return nd.fresh(ctx, "A", [w])
        h = ctx.fresh("height", IntS)
        ctx.assume(h >= 0)
        return nd.fresh(ctx, "A", [h, w])

    def fresh_b(interp, old):
        h = interp.ctx.fresh("height", IntS)
        interp.ctx.assume(h >= 0)
        return nd.fresh(interp.ctx, "b", [h])

    def inv(L):
        k, q, A, b = get(L), rels(L), L["A"], L["b"]
        if not isinstance(A, Nd) or not isinstance(b, Nd) or b.nd != 1:
            raise Unsupported("rows under construction")
        i, j = z3.Ints("i_ j_")
        w = term(L["length"])
        out = [("one relation per constraint so far", q.n == L.i), ("the relations so far", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < L.i), S(q.arr, i) == S(k.R, i)), patterns=[S(q.arr, i)])),
               ("one more right-hand side than constraints so far", b.dims[0] == L.i + 1), ("the right-hand sides so far", quantify(L.ctx, (b.dims[0],), lambda p: z3.Implies(p >= 1, b.real_fn()(p) == S(k.K, p - 1))))]
        if A.nd == 1:
            return out + [("no row yet", L.i == 0), ("rows are as wide as the longest", A.dims[0] == w)]
        f = A.real_fn()
        return out + [("some row", L.i > 0), ("one more row than constraints so far", A.dims[0] == L.i + 1), ("rows are as wide as the longest", A.dims[1] == w),
                      ("the rows so far", quantify(L.ctx, A.dims, lambda p, r: z3.Implies(p >= 1, f(p, r) == padded(k.C, k.N, p - 1, r))))]
    return {("ObjectiveFunction.subject_to", 0): LoopSpec(inv, enter=rels, mods=lambda L: [rels(L)], types={"A": fresh_A, "b": fresh_b})}


def new_objective(ctx, module=OBM):
    o = Obj(ctx, cls(ctx, module, "ObjectiveFunction"))
    n = ctx.fresh("obj_len", IntS)
    ctx.assume(n >= 1)
    o.attrs["_c"] = None if ctx.choose(2) == 0 else nd.fresh(ctx, "c", [n])
    o.attrs["_z"] = SV(ctx.fresh("z", RealS), "float")
    d = ctx.fresh("direction", Name)
    ctx.assume(z3.Or(d == MAX, d == MIN))
    o.attrs["_objective"] = SV(d)
    return o


@unit("ObjectiveFunction.subject_to", "C25", functions=["ObjectiveFunction.subject_to", "pad_right", "AbstractLinearProgram.__init__"], limit=120)
def u_subject_to(ctx):
    o = new_objective(ctx, (OBM, "pytimize.formulations.integer._objective")[ctx.choose(2)])
    k = Cons(ctx)
    it = Interp(ctx, ctx.program, rows_loop(), {})
    c0, z0, d0 = attr(o, "_c"), real(attr(o, "_z")), term(attr(o, "_objective"))
    fn = c0.buf.fn if c0 is not None else None
    out = it.run(o, "subject_to", k)
    ctx.ensure("subject_to does not raise", not out.raised)
    ctx.ensure("subject_to does not change the objective", attr(o, "_c") is c0 and (c0 is None or c0.buf.fn is fn))
    if out.raised:
        return
    r = out.value
    if not isinstance(r, Obj):
        raise Unsupported(f"subject_to returns {r!r}")
    A, b, c = attr(r, "_A"), attr(r, "_b"), attr(r, "_c")
    ok = all(isinstance(x, Nd) for x in (A, b, c)) and (A.nd, b.nd, c.nd) == (2, 1, 1)
    ctx.ensure("the model has a matrix and two vectors", ok)
    if not ok:
        return
    i, j = ctx.fresh("i", IntS), ctx.fresh("j", IntS)
    m, n = A.dims
    cn = c0.dims[0] if c0 is not None else z3.IntVal(0)
    ctx.ensure("one row per constraint", z3.And(m == k.n, b.dims[0] == k.n))
    ctx.ensure("one objective coefficient per column", c.dims[0] == n)
    inr = z3.And(0 <= i, i < k.n)
    ctx.mention(S(k.N, i))
    ctx.ensure("a column for every variable of a constraint", z3.Implies(inr, S(k.N, i) <= n))
    ctx.ensure("a column for every variable of the objective", cn <= n)
    q = z3.Int("q_")
    ctx.ensure("no column beyond the highest variable used", z3.Or(n == cn, z3.Exists([q], z3.And(0 <= q, q < k.n, S(k.N, q) == n))))
    ctx.ensure("the rows are the constraints in order", z3.Implies(z3.And(inr, 0 <= j, j < n), A.real_fn()(i, j) == padded(k.C, k.N, i, j)))
    ctx.ensure("the right-hand sides are the constants in order", z3.Implies(inr, b.real_fn()(i) == S(k.K, i)))
    ctx.ensure("the objective coefficients", z3.Implies(z3.And(0 <= j, j < n), c.real_fn()(j) == (z3.If(j < cn, c0.real_fn()(j), R0) if c0 is not None else R0)))
    ctx.ensure("the objective constant", real(attr(r, "_z")) == z0)
    ctx.ensure("the objective direction", term(attr(r, "_objective")) == d0)
    w = attr(r, "_inequalities")
    if not isinstance(w, SSeq):
        raise Unsupported(f"relations are {w!r}")
    ctx.ensure("the relations are those of the constraints in order", z3.And(w.n == k.n, z3.Implies(inr, S(w.arr, i) == S(k.R, i))))
    for f in ("_negative_variables", "_positive_variables"):
        q = attr(r, f)
        ctx.ensure("no variable is restricted yet", isinstance(q, PList) and not q.items)
    ctx.ensure("the two lists of restrictions are separate", attr(r, "_negative_variables") is not attr(r, "_positive_variables"))
    ctx.reach("subject_to returns")


# ---------------------------------------------------------------- the model, its restrictions and its program
class VCon(HObj):
    """One restriction: the variables restricted to be nonnegative and nonpositive ([] for all of them, or None)."""

    def __init__(self, all_, i):
        HObj.__init__(self, all_.ctx)
        self.all, self.i = all_, i

    def py_getattr(self, interp, a):
        ctx = self.ctx
        k = {"positive_variables": self.all.PK, "negative_variables": self.all.NK}.get(a)
        if k is None:
            raise Unsupported(f"attribute {a} of a restriction")
        e = S(k, self.i)
        if ctx.branch(e == -1):
            return None
        if ctx.branch(e == 0):
            return PList(ctx, [])
        return PList(ctx, [SV(e)])


class VCons(HObj):
    """Any number of restrictions. PK, NK: -1 for None, 0 for all variables, k for variable k alone."""
    py_type = "tuple"
    star = True

    def __init__(self, ctx, n):
        HObj.__init__(self, ctx)
        self.n = ctx.fresh("restrictions", IntS)
        ctx.assume(self.n >= 0)
        self.PK, self.NK = ctx.fresh("pos_kind", la.IVec), ctx.fresh("neg_kind", la.IVec)
        i = z3.Int("i_")
        for a in (self.PK, self.NK):
            e = S(a, i)
            ctx.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.n), z3.And(-1 <= e, e <= n)), patterns=[e]))

    def py_len(self, interp):
        return from_term(self.n)

    def py_iter(self, interp):
        return SeqIter(self.n, lambda i: VCon(self, i))


def restricts(e, x, n):
    """A restriction of kind e covers variable x (counted from one) of n."""
    return z3.And(1 <= x, x <= n, z3.Or(e == 0, e == x))


def named_list(ctx, name, n):
    """Distinct positions from one to n."""
    q = ctx.fresh(name + "_n", IntS)
    ctx.assume(q >= 0)
    s = SSeq(ctx, q, ctx.fresh(name, la.IVec), IntS)
    i, j = z3.Ints("i_ j_")
    ctx.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < q), z3.And(1 <= S(s.arr, i), S(s.arr, i) <= n)), patterns=[S(s.arr, i)]))
    ctx.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < q), S(s.arr, i) != S(s.arr, j)), patterns=[z3.MultiPattern(S(s.arr, i), S(s.arr, j))]))
    return s, name_members(ctx, s, name)


class Model:
    """Any model as subject_to and the restrictions so far leave it."""

    def __init__(self, ctx, compiled, restricted=True):
        o = self.o = Obj(ctx, cls(ctx, ABM, "AbstractLinearProgram"))
        self.ctx = ctx
        m, n = self.m, self.n = ctx.fresh("m", IntS), ctx.fresh("n", IntS)
        ctx.assume(z3.And(m >= 1, n >= 1))
        self.A, self.b, self.c = nd.fresh(ctx, "A", [m, n]), nd.fresh(ctx, "b", [m]), nd.fresh(ctx, "c", [n])
        self.z = SV(ctx.fresh("z", RealS), "float")
        d = ctx.fresh("direction", Name)
        ctx.assume(z3.Or(d == MAX, d == MIN))
        self.d = d
        self.R = SSeq(ctx, m, ctx.fresh("relation", z3.ArraySort(IntS, Name)), Name)
        i = z3.Int("i_")
        r = S(self.R.arr, i)
        ctx.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), z3.Or(r == GE, r == LE, r == EQ)), patterns=[r]))
        if restricted:
            self.neg, self.N0 = named_list(ctx, "neg", n)
            self.pos, self.P0 = named_list(ctx, "pos", n)
            ctx.assume(z3.ForAll([i], z3.Not(z3.And(S(self.N0, i), S(self.P0, i))), patterns=[S(self.N0, i)]))
            ctx.assume(z3.ForAll([i], z3.Not(z3.And(S(self.N0, i), S(self.P0, i))), patterns=[S(self.P0, i)]))
        else:
            self.neg, self.pos, self.N0, self.P0 = PList(ctx, []), PList(ctx, []), NO, NO
        o.attrs.update(_A=self.A, _b=self.b, _c=self.c, _z=self.z, _objective=SV(d), _inequalities=self.R, _negative_variables=self.neg, _positive_variables=self.pos, _program=None, _recompile=False)
        if compiled:
            o.attrs["_program"] = Obj(ctx, lp_class(ctx))  # the program of an earlier state
        elif ctx.choose(2) == 0:
            o.attrs["_recompile"] = True

    def program_is(self, it, N, Pm, what):
        """The program handed out has the data of the model and the restrictions N, Pm (sets, counted from one)."""
        ctx = self.ctx
        out = outcome(lambda: it.getattr(self.o, "program"))
        ctx.ensure(f"{what}: the program is handed out", not out.raised)
        if out.raised:
            return
        r = out.value
        if not isinstance(r, Obj):
            raise Unsupported(f"program is {r!r}")
        ctx.ensure(f"{what}: the program is one of the current state", "_A" in r.attrs)
        if "_A" not in r.attrs:
            return
        t = P(ctx, r)
        i, j = ctx.fresh("i", IntS), ctx.fresh("j", IntS)
        ini, inj = z3.And(0 <= i, i < self.m), z3.And(0 <= j, j < self.n)
        ctx.ensure(f"{what}: the sizes", z3.And(t.m == self.m, t.n == self.n, t.bn == self.m, t.cn == self.n))
        ctx.ensure(f"{what}: the matrix", z3.Implies(z3.And(ini, inj), t.A(i, j) == self.A.real_fn()(i, j)))
        ctx.ensure(f"{what}: the right-hand sides", z3.Implies(ini, t.b(i) == self.b.real_fn()(i)))
        ctx.ensure(f"{what}: the objective", z3.Implies(inj, t.c(j) == self.c.real_fn()(j)))
        ctx.ensure(f"{what}: the constant and the direction", z3.And(t.z == self.z.t, t.obj == self.d))
        e = S(self.R.arr, i)
        ctx.ensure(f"{what}: the relations", z3.Implies(ini, z3.And(t.ge(i) == (e == GE), t.le(i) == (e == LE), t.eq(i) == (e == EQ))))
        for f in ("_negative_variables", "_positive_variables"):
            q = attr(self.o, f)
            if isinstance(q, SSeq):
                ctx.mention(S(q.arr, j))
        for _, _, _, rank, _ in ctx.ghost.get("filters", []):
            for F, _, arr, _ in list(ctx.ghost.get("members", {}).values()):
                ctx.mention(S(arr, rank(j)))
        for F, _, arr, at in list(ctx.ghost.get("members", {}).values()):
            ctx.mention(S(F, j + 1))
            ctx.mention(S(arr, S(at, j + 1)))
            ctx.mention(S(arr, j))
        ctx.ensure(f"{what}: the nonpositive variables", z3.Implies(inj, t.isneg(j) == N(j + 1)))
        ctx.ensure(f"{what}: variables without a restriction are free", z3.Implies(inj, t.isfree(j) == z3.And(z3.Not(N(j + 1)), z3.Not(Pm(j + 1)))))
        ctx.reach("program handed out")


@unit("AbstractLinearProgram.program", "C25", functions=["AbstractLinearProgram.program"], limit=100)
def u_program(ctx):
    ctx.ghost["seq_both"] = True
    compiled = ctx.choose(2) == 0
    M = Model(ctx, compiled, ctx.choose(2) == 0)
    it = Interp(ctx, ctx.program, {}, {**LPC, **INIT})
    if compiled:
        p0 = attr(M.o, "_program")
        out = outcome(lambda: it.getattr(M.o, "program"))
        ctx.ensure("an up-to-date program is handed out again or rebuilt", not out.raised and isinstance(out.value, Obj) and (out.value is p0 or "_A" in out.value.attrs))
        return
    M.program_is(it, lambda x: S(M.N0, x), lambda x: S(M.P0, x), "program")
    r = attr(M.o, "_program")
    out = outcome(lambda: it.getattr(M.o, "program"))
    ctx.ensure("the same program is handed out until something changes", not out.raised and out.value is r)


class Given:
    """What one list of restrictions (P: nonnegative, N: nonpositive) holds while `where` runs."""

    def __init__(self, ctx, M, t, k):
        self.ctx, self.M, self.k = ctx, M, k
        self.what = {"P": "nonnegative", "N": "nonpositive"}[t]
        self.field = {"P": "_positive_variables", "N": "_negative_variables"}[t]
        self.M0 = {"P": M.P0, "N": M.N0}[t]
        self.mem = self.M0
        s = self.seq()
        self.at = ctx.ghost["members"][s.arr.get_id()][3] if s.arr.get_id() in ctx.ghost.get("members", {}) else ctx.fresh("at", la.IVec)
        self.src = z3.K(IntS, z3.IntVal(-1))       # the restriction a member comes from (-1: from before)
        self.rep = z3.BoolVal(False)               # something was restricted twice
        self.i1 = self.i2 = self.x = self.r1 = self.r2 = z3.IntVal(0)

    def seq(self):
        return grown(attr(self.M.o, self.field))

    def havoc(self):
        f = self.ctx.fresh
        self.mem, self.at, self.src, self.rep = f("mem", NO.sort()), f("at", la.IVec), f("from", la.IVec), f("rep", BoolS)
        self.i1, self.i2, self.x, self.r1, self.r2 = (f(h, IntS) for h in ("i1", "i2", "x", "r1", "r2"))

    def begin(self):
        self.n0 = self.seq().n

    def step(self, i):
        ctx, e = self.ctx, S(self.k, i)
        x, w = z3.Int("x_"), ctx.fresh("w", IntS)
        now = lambda y: restricts(e, y, self.M.n)
        new, at, src, hit = ctx.fresh("mem", NO.sort()), ctx.fresh("at", la.IVec), ctx.fresh("from", la.IVec), ctx.fresh("hit", BoolS)
        where = lambda y: self.n0 + z3.If(e == 0, y - 1, 0)
        old = S(self.mem, x)
        ctx.assume(z3.ForAll([x], S(new, x) == z3.Or(old, now(x)), patterns=[S(new, x)]))
        ctx.assume(z3.ForAll([x], z3.Implies(old, S(new, x)), patterns=[old]))
        ctx.assume(z3.ForAll([x], S(at, x) == z3.If(old, S(self.at, x), where(x)), patterns=[S(at, x)]))
        ctx.assume(z3.ForAll([x], S(src, x) == z3.If(old, S(self.src, x), i), patterns=[S(src, x)]))
        ctx.assume(z3.Implies(hit, z3.And(S(self.mem, w), now(w))))  # w: something given now that is there already, if anything is
        ctx.assume(z3.ForAll([x], z3.Implies(z3.And(old, now(x)), hit), patterns=[old]))
        ctx.mention(S(self.mem, e))
        ctx.mention(S(new, e))
        pick = lambda a, b: z3.If(z3.And(hit, z3.Not(self.rep)), b, a)
        self.i1, self.i2 = pick(self.i1, S(self.at, w)), pick(self.i2, where(w))
        self.x, self.r1, self.r2 = pick(self.x, w), pick(self.r1, S(self.src, w)), pick(self.r2, i)
        self.rep = z3.Or(self.rep, hit)
        self.mem, self.at, self.src = new, at, src

    def twice(self):
        """The variable x was restricted before or by r1, and again by r2."""
        k, n = self.k, self.M.n
        return z3.And(z3.If(self.r1 == -1, S(self.M0, self.x), z3.And(0 <= self.r1, restricts(S(k, self.r1), self.x, n))), self.r1 < self.r2, 0 <= self.r2, restricts(S(k, self.r2), self.x, n))

    def facts(self, now):
        s, nm, n = self.seq(), self.what, self.M.n
        i, j, x = z3.Ints("i_ j_ x_")
        a, f, m = S(s.arr, i), S(self.src, x), S(self.mem, x)
        two = S(s.arr, j)
        return [(f"{nm}: length", s.n >= 0),
                (f"{nm}: the entries are members", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < s.n), S(self.mem, a)), patterns=[a])),
                (f"{nm}: the members are entries", z3.ForAll([x], z3.Implies(m, z3.And(0 <= S(self.at, x), S(self.at, x) < s.n, S(s.arr, S(self.at, x)) == x)), patterns=[m])),
                (f"{nm}: the members are variables", z3.ForAll([x], z3.Implies(m, z3.And(1 <= x, x <= n)), patterns=[m])),
                (f"{nm}: distinct unless repeated", z3.Implies(z3.Not(self.rep), z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < s.n), a != two), patterns=[z3.MultiPattern(a, two)]))),
                (f"{nm}: an entry occurs twice when repeated", z3.Implies(self.rep, z3.And(0 <= self.i1, self.i1 < self.i2, self.i2 < s.n, S(s.arr, self.i1) == S(s.arr, self.i2)))),
                (f"{nm}: repeated is what was written", z3.Implies(self.rep, z3.And(self.twice(), self.r2 < now))),
                (f"{nm}: every member was given", z3.ForAll([x], z3.Implies(m, z3.If(f == -1, S(self.M0, x), z3.And(0 <= f, f < now, restricts(S(self.k, f), x, n)))), patterns=[m])),
                (f"{nm}: the old ones stay", z3.ForAll([x], z3.Implies(S(self.M0, x), z3.And(m, f == -1)), patterns=[S(self.M0, x), m, f] if z3.is_const(self.M0) and self.M0.decl().kind() == z3.Z3_OP_UNINTERPRETED else [m])),
                (f"{nm}: everything given is a member", z3.ForAll([i, x], z3.Implies(z3.And(0 <= i, i < now, restricts(S(self.k, i), x, n)), z3.And(m, z3.Or(self.rep, f == i))), patterns=[z3.MultiPattern(S(self.k, i), m)]))]


def where_loops():
    def check(L):
        if not isinstance(L["constraints"], VCons):
            raise Unsupported(f"restrictions are {L['constraints']!r}")

    def given(L):
        return L.ctx.ghost["given"]

    def enter(L):
        check(L)
        k, M = L["constraints"], L.ctx.ghost["model"]
        L.ctx.ghost["given"] = [Given(L.ctx, M, "P", k.PK), Given(L.ctx, M, "N", k.NK)]

    def each(what):
        def f(L):
            for g in given(L):
                getattr(g, what)()
        return f

    def step(L):
        for g in given(L):
            g.step(L.i - 1)

    def inv(L):
        return [x for g in given(L) for x in g.facts(L.i)]
    return {("AbstractLinearProgram.where", 0): LoopSpec(inv, enter=enter, havoc=each("havoc"), begin=each("begin"), step=step, mods=lambda L: [g.seq() for g in given(L)])}


@unit("AbstractLinearProgram.where", "C25", functions=["AbstractLinearProgram.where", "AbstractLinearProgram._add_variable_constraint"], limit=150)
def u_where(ctx):
    ctx.ghost["seq_both"] = True
    M = ctx.ghost["model"] = Model(ctx, True, ctx.choose(2) == 0)
    k = VCons(ctx, M.n)
    it = Interp(ctx, ctx.program, where_loops(), {**LPC, **INIT})
    out = it.run(M.o, "where", k)
    p, n = ctx.ghost["given"]
    both = lambda x: z3.And(S(p.mem, x), S(n.mem, x))
    if out.raised:
        x = z3.Int("x_")
        ctx.ensure("where raises ValueError", exc_is(out, "ValueError"))
        ctx.ensure("restrictions are refused only when repeated or contradictory", z3.Or(z3.And(p.rep, p.twice()), z3.And(n.rep, n.twice()), z3.Exists([x], both(x))))
        ctx.reach("restrictions refused")
        return
    x = ctx.fresh("x", IntS)
    ctx.ensure("repeated restrictions are refused", z3.And(z3.Not(p.rep), z3.Not(n.rep)))
    ctx.ensure("contradictory restrictions are refused", z3.Not(both(x)))
    ctx.ensure("where returns the model", out.value is M.o)
    M.program_is(it, lambda x: S(n.mem, x), lambda x: S(p.mem, x), "where")


@unit("whereAllPositive and whereAllNegative", "C25", functions=["AbstractLinearProgram.whereAllPositive", "AbstractLinearProgram.whereAllNegative", "AbstractLinearProgram._add_variable_constraint"], limit=60)
def u_where_all(ctx):
    ctx.ghost["seq_both"] = True
    restricted = ctx.choose(2) == 0
    M = Model(ctx, True, restricted)
    name = ("whereAllPositive", "whereAllNegative")[ctx.choose(2)]
    it = Interp(ctx, ctx.program, {}, {**LPC, **INIT})
    some = z3.Or(M.neg.n > 0, M.pos.n > 0) if restricted else z3.BoolVal(False)
    out = it.run(M.o, name)
    if out.raised:
        ctx.ensure(f"{name} raises ValueError", exc_is(out, "ValueError"))
        ctx.ensure(f"{name} is refused only when something is restricted already", some)
        ctx.reach("refused")
        return
    ctx.ensure(f"{name} is refused when something is restricted already", z3.Not(some))
    ctx.ensure(f"{name} returns the model", out.value is M.o)
    every, none = (lambda x: z3.And(1 <= x, x <= M.n)), (lambda x: z3.BoolVal(False))
    M.program_is(it, *((none, every) if name == "whereAllPositive" else (every, none)), name)
