"""C10: which programs are accepted, what they report back, and the conversion of arguments to arrays."""
from lp import *


# ---------------------------------------------------------------- the constructor
def init_loops():
    """The loop over the relations given: a mapping of the rows that are not equalities."""
    def rels(L):
        return typed(L["inequality_indices"], IntS, Name)

    def given(L):
        q = L["inequalities"]
        if isinstance(q, PList):
            a = z3.K(IntS, EQ)
            for k, x in enumerate(q.items):
                a = z3.Store(a, k, term(x))
            return lambda i: S(a, i)
        if not isinstance(q, SSeq) or q.sort != Name:
            raise Unsupported(f"inequalities are {q!r}")
        return lambda i: S(q.arr, i)

    def inv(L):
        d, f = rels(L), given(L)
        i = z3.Int("i_")
        ne = z3.Or(f(i) == GE, f(i) == LE)
        pats = [f(i)] if usable(f(i)) else []
        return [("every relation so far is valid", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < L.i), z3.Or(ne, f(i) == EQ)), patterns=pats)),
                ("the rows that are not equalities so far", z3.ForAll([i], S(d.dom, i) == z3.And(0 <= i, i < L.i, ne), patterns=[S(d.dom, i)])),
                ("their relations", z3.ForAll([i], z3.Implies(S(d.dom, i), S(d.val, i) == f(i)), patterns=[S(d.val, i)]))]
    return {("LinearProgram.__init__", 0): LoopSpec(inv, enter=rels, mods=lambda L: [rels(L)])}


class NumMatrix(HObj):
    """A list of lists of numbers of the same length."""
    py_type = "list"

    def __init__(self, ctx, m, n, arr):
        HObj.__init__(self, ctx)
        self.m, self.n, self.arr = m, n, arr

    def to_ndarray_contract(self, interp):
        return nd.make(self.ctx, (self.m, self.n), lambda i, j: S(S(self.arr, i), j))


def mat_arg(ctx):
    k = ctx.choose(5)
    m, n = ctx.fresh("rows", IntS), ctx.fresh("columns", IntS)
    ctx.assume(z3.And(m >= 0, n >= 0))
    if k == 0:
        return nd.fresh(ctx, "A", [m, n])
    if k == 1:
        return nd.fresh(ctx, "A", [m, n], "int")
    if k == 2:
        return NumMatrix(ctx, m, n, nd.fresh(ctx, "A", [m, n]).arr())
    if k == 3:
        return nd.fresh(ctx, "A", [m])
    return Junk(ctx)


def matrix_of(v):
    if isinstance(v, Nd) and v.nd == 2:
        return v.dims, v.real_fn()
    if isinstance(v, NumMatrix):
        return (v.m, v.n), lambda i, j: S(S(v.arr, i), j)
    return None


def given_list(ctx, name):
    n = ctx.fresh(name + "_len", IntS)
    ctx.assume(n >= 0)
    q = SSeq(ctx, n, ctx.fresh(name, la.IVec), IntS)
    ctx.ghost["seq_both"] = True
    name_members(ctx, q, name)
    ctx.ghost.setdefault("given", {})[q.arr.get_id()] = ctx.ghost["members"][q.arr.get_id()]
    return q


def list_ok(q, n):
    """Distinct positions, counted from one, of n variables."""
    i, j = z3.Ints("i_ j_")
    a = S(q.arr, i)
    return [z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < q.n), z3.And(1 <= a, a <= n)), patterns=[a]),
            z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < q.n), a != S(q.arr, j)), patterns=[z3.MultiPattern(a, S(q.arr, j))])]


def has1(q, x):
    """Position x (from zero) is among the list q, which counts from one."""
    return S(q.ctx.ghost["given"][q.arr.get_id()][0], x + 1)


def run_init(ctx, o, args, kw=None, contracts=None):
    return run_lp(ctx, o, "__init__", *args, loops=init_loops(), contracts=contracts, **(kw or {}))


def program_spec(ctx, o, args, out, name="LinearProgram"):
    A, b, c, z, obj, rel, free, neg = args
    am, bv, cv = matrix_of(A), vector_of(ctx, b), vector_of(ctx, c)
    shapes = z3.And(bv[0] == am[0][0], cv[0] == am[0][1]) if am and bv and cv else z3.BoolVal(False)
    good = [("sizes", shapes)]
    n = am[0][1] if am else z3.IntVal(0)
    m = am[0][0] if am else z3.IntVal(0)
    i, j = z3.Ints("i_ j_")
    for what, q in (("free", free), ("negative", neg)):
        if q is not None:
            r, d = list_ok(q, n)
            good += [(f"range of {what} variables", r), (f"distinct {what} variables", d)]
    if free is not None and neg is not None:
        good.append(("no variable both free and negative", z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < free.n, 0 <= j, j < neg.n), S(free.arr, i) != S(neg.arr, j)), patterns=[z3.MultiPattern(S(free.arr, i), S(neg.arr, j))])))
    if rel is not None:
        r = S(rel.arr, i)
        good += [("one relation per row", rel.n == m), ("valid relations", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < rel.n), z3.Or(r == GE, r == LE, r == EQ)), patterns=[r]))]
    good.append(("direction", z3.Or(obj.t == MAX, obj.t == MIN)))
    if out.raised:
        raised(ctx, out, "ValueError", f"{name} raises nothing but ValueError")
        ctx.ensure(f"{name} rejects only ill-formed programs", z3.Not(z3.And(*[g for _, g in good])))
        ctx.reach("init raises")
        return None
    for what, g in good:
        ctx.ensure(f"only well-formed programs are accepted: {what}", g)
    for _, g in good:
        ctx.assume(g)  # just proved
    for f in ("_free_variables", "_negative_variables"):
        if isinstance(attr(o, f), SSeq):
            name_members(ctx, attr(o, f), f)
    t = P(ctx, o)
    x, y = ctx.fresh("x", IntS), ctx.fresh("y", IntS)
    ctx.ensure("sizes as given", z3.And(t.m == m, t.n == n, t.bn == m, t.cn == n))
    ctx.ensure("the matrix as given", z3.Implies(z3.And(0 <= x, x < m, 0 <= y, y < n), t.A(x, y) == am[1](x, y)))
    ctx.ensure("the right-hand side as given", z3.Implies(z3.And(0 <= x, x < m), t.b(x) == bv[1](x)))
    ctx.ensure("the objective coefficients as given", z3.Implies(z3.And(0 <= y, y < n), t.c(y) == cv[1](y)))
    ctx.ensure("the constant as given", t.z == z.t)
    ctx.ensure("the direction as given", t.obj == obj.t)
    r = S(rel.arr, x) if rel is not None else EQ
    ctx.ensure("the relations as given", z3.Implies(z3.And(0 <= x, x < m), z3.And(t.ge(x) == (r == GE), t.le(x) == (r == LE), t.eq(x) == (r == EQ))))
    ctx.ensure("no relation beyond the rows", z3.Implies(z3.Not(z3.And(0 <= x, x < m)), t.eq(x)))
    for what, q, attribute, mem in (("free", free, "_free_variables", t.isfree), ("negative", neg, "_negative_variables", t.isneg)):
        if q is None:
            ctx.ensure(f"no {what} variables unless given", z3.Not(mem(x)))
            continue
        ctx.ensure(f"the {what} variables as given", mem(x) == has1(q, x))
        w = attr(o, attribute)
        if isinstance(w, SSeq):
            ctx.ensure(f"the {what} variables are as many as given", w.n == q.n)
            ctx.ensure(f"the {what} variables are sorted", z3.Implies(z3.And(0 <= x, x < y, y < w.n), S(w.arr, x) < S(w.arr, y)))
    e = ctx.fresh("e", IntS)
    ctx.ensure("in standard equality form only when it is", z3.Implies(t.sef, z3.And(t.obj == MAX, t.eq(e), z3.Not(t.isfree(e)), z3.Not(t.isneg(e)))))
    q = z3.Int("e_")
    ctx.ensure("in standard equality form when it is", z3.Implies(z3.Not(t.sef), z3.Or(t.obj != MAX, z3.Exists([q], z3.Or(S(t.rdom, q), t.isfree(q), t.isneg(q))))))
    for a, f, what in ((A, "_A", "matrix"), (b, "_b", "right-hand side"), (c, "_c", "objective")):
        ctx.ensure(f"[C11] the program does not keep the caller's {what}", not isinstance(a, Nd) or attr(o, f).buf is not a.buf)
    for a, f, what in ((free, "_free_variables", "free variables"), (neg, "_negative_variables", "negative variables")):
        ctx.ensure(f"[C11] the program does not keep the caller's list of {what}", a is None or attr(o, f) is not a)
    ctx.ensure("[C11] the program does not keep the caller's list of relations", rel is None or attr(o, "_inequality_indices") is not rel)
    ctx.reach("init returns")
    return t


def keep_args(ctx, args):
    return [(a, a.buf.fn if isinstance(a, Nd) else (a.arr, a.n) if isinstance(a, SSeq) else None) for a in args if isinstance(a, (Nd, SSeq))]


def args_kept(ctx, ks):
    for a, v in ks:
        ok = a.buf.fn is v if isinstance(a, Nd) else a.arr.eq(v[0]) and a.n is v[1]
        ctx.ensure("[C11] building a program does not change the arguments", ok)


def some_args(ctx, shapes):
    """shapes: vary the kinds of the arrays (with no lists); otherwise vary which lists are given."""
    if shapes:
        A = mat_arg(ctx)
        if isinstance(A, Nd) and A.nd == 2 and A.dt == "float":
            b, c = vec_arg(ctx, "b"), vec_arg(ctx, "c")
        else:
            b, c = nd.fresh(ctx, "b", [fresh_len(ctx, "b")]), nd.fresh(ctx, "c", [fresh_len(ctx, "c")])
        rel = free = neg = None
    else:
        m, n = fresh_len(ctx, "rows"), fresh_len(ctx, "columns")
        A, b, c = nd.fresh(ctx, "A", [m, n]), nd.fresh(ctx, "b", [m]), nd.fresh(ctx, "c", [n])
        rel = free = neg = None
        if ctx.choose(2) == 1:
            q = fresh_len(ctx, "relations")
            rel = SSeq(ctx, q, ctx.fresh("relation", z3.ArraySort(IntS, Name)), Name)
        if ctx.choose(2) == 1:
            free = given_list(ctx, "free")
        if ctx.choose(2) == 1:
            neg = given_list(ctx, "negative")
    return [A, b, c, SV(ctx.fresh("z", RealS), "float"), SV(ctx.fresh("objective", Name)), rel, free, neg]


def fresh_len(ctx, name):
    n = ctx.fresh(name + "_len", IntS)
    ctx.assume(n >= 0)
    return n


FN = ["LinearProgram.__init__", "LinearProgram.__is_vector_of_size", "LinearProgram.__to_array_indexing"]


@unit("LinearProgram.__init__ (arrays of every kind)", "C10", "C11", functions=FN, limit=120)
def u_init_arrays(ctx):
    o = Obj(ctx, lp_class(ctx))
    args = some_args(ctx, True)
    ks = keep_args(ctx, args)
    out = run_init(ctx, o, args)
    args_kept(ctx, ks)
    program_spec(ctx, o, args, out)


@unit("LinearProgram.__init__ (relations and signs)", "C10", "C11", functions=FN, limit=180)
def u_init_lists(ctx):
    o = Obj(ctx, lp_class(ctx))
    args = some_args(ctx, False)
    ks = keep_args(ctx, args)
    out = run_init(ctx, o, args)
    args_kept(ctx, ks)
    program_spec(ctx, o, args, out)


@unit("IntegerProgram.__init__", "C10", "C11", functions=["IntegerProgram.__init__"] + FN, limit=120)
def u_init_ip(ctx):
    from c11 import IPM
    o = Obj(ctx, cls(ctx, IPM, "IntegerProgram"))
    m, n = fresh_len(ctx, "rows"), fresh_len(ctx, "columns")
    args = [nd.fresh(ctx, "A", [m, n]), nd.fresh(ctx, "b", [m]), nd.fresh(ctx, "c", [n]), SV(ctx.fresh("z", RealS), "float"), SV(ctx.fresh("objective", Name)), None, None, None]
    iv = None
    if ctx.choose(2) == 1:
        iv = SSeq(ctx, fresh_len(ctx, "integral"), ctx.fresh("integral", la.IVec), IntS)
    ks = keep_args(ctx, args + [iv])
    out = run_init(ctx, o, args + [iv])
    args_kept(ctx, ks)
    if program_spec(ctx, o, args, out, "IntegerProgram") is None:
        return
    w = attr(o, "_integral_variables")
    if iv is None:
        ctx.ensure("[C22] every variable is integral unless told otherwise", w is None)
        return
    ctx.ensure("[C11] the integer program does not keep the caller's list of integral variables", w is not iv)
    k = ctx.fresh("k", IntS)
    if not isinstance(w, SSeq):
        raise Unsupported(f"integral variables are {w!r}")
    ctx.ensure("the integral variables as given", z3.And(w.n == iv.n, z3.Implies(z3.And(0 <= k, k < iv.n), S(w.arr, k) == S(iv.arr, k))))


# ---------------------------------------------------------------- arrays from arguments
KINDS = ("list", "int", "float", "bool", "str")


class Item(HObj):
    """An element of a list about which nothing is known: its type is decided when it is asked for."""

    def __init__(self, src, i, j=None):
        HObj.__init__(self, src.ctx)
        self.src, self.i, self.j = src, i, j

    def kind(self):
        return S(self.src.K, self.i) if self.j is None else S(S(self.src.C, self.i), self.j)

    @property
    def py_type(self):
        for k, n in enumerate(KINDS[:-1]):
            if self.ctx.branch(self.kind() == k):
                return n
        return KINDS[-1]

    def is_list(self):
        return self.ctx.branch(self.kind() == 0)

    def py_len(self, interp):
        if not self.is_list():
            raise Unsupported("length of an item that is not a list")
        if self.j is not None:
            return SV(self.ctx.fresh("depth", IntS))
        return SV(S(self.src.RL, self.i))

    def py_iter(self, interp):
        if self.j is not None or not self.is_list():
            raise Unsupported("iteration over an item")
        return SeqIter(S(self.src.RL, self.i), lambda j: Item(self.src, self.i, j))


class Source(HObj):
    """Any Python list whose elements are lists or anything else."""
    py_type = "list"

    def __init__(self, ctx):
        HObj.__init__(self, ctx)
        self.n = fresh_len(ctx, "source")
        self.K = ctx.fresh("kind", la.IVec)          # kind of each element
        self.RL = ctx.fresh("row_len", la.IVec)      # its length, when it is a list
        self.C = ctx.fresh("cell_kind", z3.ArraySort(IntS, la.IVec))  # kinds of the elements of that list
        self.V = ctx.fresh("value", la.Vec)
        self.W = ctx.fresh("cell", z3.ArraySort(IntS, la.Vec))
        i = z3.Int("i_")
        ctx.assume(z3.ForAll([i], S(self.RL, i) >= 0, patterns=[S(self.RL, i)]))

    def num(self, k):
        return z3.Or(k == 1, k == 2)

    def flat(self):
        i = z3.Int("i_")
        return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.n), self.num(S(self.K, i))), patterns=[S(self.K, i)])

    def row_ok(self, i, l):
        j = z3.Int("j_")
        return z3.And(S(self.RL, i) == l, self.cells_ok(i, S(self.RL, i)))

    def cells_ok(self, i, upto):
        j = z3.Int("j_")
        e = S(S(self.C, i), j)
        return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < upto), self.num(e)), patterns=[e])

    def matrix(self):
        i, j = z3.Ints("i_ j_")
        e = S(S(self.C, i), j)
        return z3.And(self.n > 0, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.n), z3.And(S(self.K, i) == 0, S(self.RL, i) == S(self.RL, 0))), patterns=[S(self.K, i)]),
                      z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < self.n, 0 <= j, j < S(self.RL, i)), self.num(e)), patterns=[e]))

    def py_len(self, interp):
        return from_term(self.n)

    def py_iter(self, interp):
        return SeqIter(self.n, lambda i: Item(self, i))

    def py_array(self, interp, kw):
        """np.array(source, dtype=float): numbers make a vector, equally long lists of numbers a matrix; a mixture raises
        ValueError, anything else may give something or raise."""
        ctx = self.ctx
        if ctx.branch(self.flat()):
            return nd.of_term(ctx, self.V, (self.n,)) if False else nd.make(ctx, (self.n,), lambda i: S(self.V, i))
        if ctx.branch(self.matrix()):
            return nd.make(ctx, (self.n, S(self.RL, 0)), lambda i, j: S(S(self.W, i), j))
        i = ctx.fresh("i", IntS)
        mixed = z3.Exists([z3.Int("i_"), z3.Int("j_")], z3.And(0 <= z3.Int("i_"), z3.Int("i_") < self.n, 0 <= z3.Int("j_"), z3.Int("j_") < self.n, S(self.K, z3.Int("i_")) == 0, S(self.K, z3.Int("j_")) != 0))
        if ctx.branch(mixed) or ctx.choose(2) == 0:
            raise PyRaise("ValueError", "np.array", True)
        return OddArray(ctx, 2, "float")


def array_loops():
    def src(L):
        s = L["source"]
        if not isinstance(s, Source):
            raise Unsupported(f"source is {s!r}")
        return s

    def some_row(L):
        s, i = src(L), z3.Int("i_")
        return z3.Exists([i], z3.And(0 <= i, i < L.i, S(s.K, i) == 0))

    def inv(L):
        s = src(L)
        i, j = z3.Ints("i_ j_")
        l = L["length"]
        k = S(s.K, i)
        e = S(S(s.C, i), j)
        rng = z3.And(0 <= i, i < L.i)
        out = [("numbers and lists only", z3.ForAll([i], z3.Implies(rng, z3.Or(k == 0, s.num(k))), patterns=[k])),
               ("lists hold numbers only", z3.ForAll([i, j], z3.Implies(z3.And(rng, k == 0, 0 <= j, j < S(s.RL, i)), s.num(e)), patterns=[e]))]
        if l is None:
            out.append(("no list yet", z3.ForAll([i], z3.Implies(rng, k != 0), patterns=[k])))
        else:
            w = L.g.get("row")
            out.append(("the length is that of a list", z3.And(0 <= w, w < L.i, S(s.K, w) == 0, S(s.RL, w) == term(l))))
            out.append(("lists of one length", z3.ForAll([i], z3.Implies(z3.And(rng, k == 0), S(s.RL, i) == term(l)), patterns=[k])))
        return out

    def enter(L):
        L.g["row"] = z3.IntVal(-1)

    def havoc(L):
        L.g["row"] = L.ctx.fresh("row", IntS)

    def step(L):
        s = src(L)
        if L["length"] is not None:
            L.g["row"] = z3.If(S(s.K, L.i - 1) == 0, L.i - 1, L.g["row"])

    def inv_in(L):
        r = L["row"]
        if not isinstance(r, Item) or r.j is not None:
            raise Unsupported(f"row is {r!r}")
        j = z3.Int("j_")
        e = S(S(r.src.C, r.i), j)
        return [("numbers only so far", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < L.i), r.src.num(e)), patterns=[e]))]
    return {("LinearProgram.__to_ndarray", 0): LoopSpec(inv, enter=enter, havoc=havoc, step=step, types={"length": ("opt", IntS)}),
            ("LinearProgram.__to_ndarray", 1): LoopSpec(inv_in)}


@unit("LinearProgram.__to_ndarray", "C10", "C11", functions=["LinearProgram.__to_ndarray"], limit=120)
def u_to_ndarray(ctx):
    o = new_lp(ctx, sef=True)
    kk = Keep(ctx, o)
    kind = ctx.choose(8)
    n, m = fresh_len(ctx, "n"), fresh_len(ctx, "m")
    src = None
    if kind == 0:
        src = nd.fresh(ctx, "a", [n])
    elif kind == 1:
        src = nd.fresh(ctx, "a", [n, m])
    elif kind == 2:
        src = nd.fresh(ctx, "a", [n], "int")
    elif kind == 3:
        src = nd.fresh(ctx, "a", [n, m], "int")
    elif kind == 4:
        src = OddArray(ctx, 3, ("float", "int", "bool", "object")[ctx.choose(4)])
    elif kind == 5:
        src = Junk(ctx, ("str", "tuple", "dict", "int")[ctx.choose(4)])
    elif kind == 6:
        src = None
    else:
        src = Source(ctx)
    fn = src.buf.fn if isinstance(src, Nd) else None
    cs = dict(LPC)
    cs.pop("LinearProgram.__to_ndarray")
    it = Interp(ctx, ctx.program, array_loops(), cs)
    out = it.run(o, "__to_ndarray", src)
    kk.ensure(ctx, "__to_ndarray")
    if fn is not None:
        ctx.ensure("[C11] __to_ndarray does not change the array", src.buf.fn is fn)
    good = isinstance(src, Nd) or isinstance(src, OddArray) and src.dt in ("float", "int")
    if isinstance(src, Source):
        good = z3.Or(src.flat(), src.matrix())
    good = good if z3.is_expr(good) else z3.BoolVal(good)
    if out.raised:
        raised(ctx, out, "ValueError", "__to_ndarray raises nothing but ValueError")
        ctx.ensure("__to_ndarray rejects only what is not a rectangular array of numbers", z3.Not(good))
        ctx.reach("__to_ndarray raises")
        return
    r = out.value
    ctx.ensure("__to_ndarray accepts only rectangular arrays of numbers", good)
    if isinstance(src, OddArray):
        ctx.ensure("arrays of numbers become arrays of floats of the same dimensions", isinstance(r, OddArray) and r.ndims == src.ndims and r.dt == "float")
        return
    if not isinstance(r, Nd):
        ctx.ensure("__to_ndarray returns an array", False)
        return
    ctx.ensure("__to_ndarray returns floats", r.dt == "float")
    x, y = ctx.fresh("x", IntS), ctx.fresh("y", IntS)
    if isinstance(src, Nd):
        dims, f = src.dims, src.real_fn()
    elif r.nd == 1:
        ctx.ensure("a vector comes from a list of numbers", src.flat())
        dims, f = (src.n,), lambda i: S(src.V, i)
    else:
        ctx.ensure("a matrix comes from lists of numbers", src.matrix())
        dims, f = (src.n, S(src.RL, 0)), lambda i, j: S(S(src.W, i), j)
    ctx.ensure("the dimensions stay", z3.And(z3.BoolVal(len(dims) == r.nd), *[a == b for a, b in zip(dims, r.dims)]))
    if len(dims) == r.nd:
        p = (x, y)[:r.nd]
        ctx.ensure("the entries stay", z3.Implies(z3.And(*[z3.And(0 <= a, a < d) for a, d in zip(p, dims)]), r.real_fn()(*p) == f(*p)))
    ctx.reach("__to_ndarray returns")


# ---------------------------------------------------------------- what a program reports back
def positive_loop():
    def seen(L, i):
        s = L.ctx.ghost["prog"]
        return z3.And(z3.Not(s.isfree(i)), z3.Not(s.isneg(i)))
    return {("LinearProgram.positive_variables", 0): filter_loop(Filtered("positive", seen, off=1))}


def prop_of(ctx, o, name, loops=None):
    it = Interp(ctx, ctx.program, loops or {}, dict(LPC))
    return outcome(lambda: it.getattr(o, name))


def outcome(f):
    try:
        return Outcome(f(), None)
    except PyRaise as e:
        return Outcome(None, e)


@unit("LinearProgram getters", "C10", "C11", functions=["LinearProgram.A", "LinearProgram.b", "LinearProgram.c", "LinearProgram.z", "LinearProgram.objective", "LinearProgram.is_sef", "LinearProgram.inequalities", "LinearProgram.free_variables", "LinearProgram.negative_variables", "LinearProgram.positive_variables", "LinearProgram.__get_inequalities", "LinearProgram.__to_math_indexing"], limit=100)
def u_getters(ctx):
    from c11 import rel_loop
    o = new_lp(ctx)
    s, k = P(ctx, o), Keep(ctx, o)
    ctx.ghost["prog"] = s
    ctx.ghost["seq_both"] = True
    x, y = ctx.fresh("x", IntS), ctx.fresh("y", IntS)
    inr = z3.And(0 <= x, x < s.m)
    inc = z3.And(0 <= x, x < s.n)
    which = ctx.choose(10)
    name = ("A", "b", "c", "z", "objective", "is_sef", "inequalities", "free_variables", "negative_variables", "positive_variables")[which]
    out = prop_of(ctx, o, name, {**rel_loop(), **positive_loop()})
    k.ensure(ctx, name)
    ctx.ensure(f"{name} does not raise", not out.raised)
    if out.raised:
        return
    v = out.value
    if name in ("A", "b", "c"):
        dims, f = {"A": ((s.m, s.n), s.A), "b": ((s.m,), s.b), "c": ((s.n,), s.c)}[name]
        if not isinstance(v, Nd) or v.nd != len(dims):
            ctx.ensure(f"{name} reports an array of the right dimensions", False)
            return
        p = (x, y)[:v.nd]
        ctx.ensure(f"{name} reports the right size", z3.And(*[a == b for a, b in zip(v.dims, dims)]))
        ctx.ensure(f"{name} reports the entries", z3.Implies(z3.And(*[z3.And(0 <= a, a < d) for a, d in zip(p, dims)]), v.real_fn()(*p) == f(*p)))
    elif name == "z":
        ctx.ensure("z reports the constant", real(v) == s.z)
    elif name == "objective":
        ctx.ensure("objective reports the direction", term(v) == s.obj)
    elif name == "is_sef":
        ctx.ensure("is_sef reports the form", is_true(v) == s.sef)
    elif name == "inequalities":
        if not isinstance(v, SSeq):
            raise Unsupported(f"inequalities returns {v!r}")
        ctx.ensure("one relation per row is reported", v.n == s.m)
        ctx.ensure("each relation is reported", z3.Implies(inr, S(v.arr, x) == z3.If(s.ge(x), GE, z3.If(s.le(x), LE, EQ))))
        ctx.ensure("[C11] inequalities hands out a list of its own", v is not attr(o, "_inequality_indices"))
    else:
        mem = {"free_variables": s.isfree, "negative_variables": s.isneg, "positive_variables": lambda i: z3.And(0 <= i, i < s.n, z3.Not(s.isfree(i)), z3.Not(s.isneg(i)))}[name]
        ctx.ensure(f"[C11] {name} hands out a list of its own", v is not attr(o, "_free_variables") and v is not attr(o, "_negative_variables"))
        if isinstance(v, PList):
            v = SSeq(ctx, z3.IntVal(len(v.items)), ints(ctx, v).arr, IntS)
        if not isinstance(v, SSeq):
            raise Unsupported(f"{name} returns {v!r}")
        F = name_members(ctx, v, name) if v.arr.get_id() not in ctx.ghost.get("members", {}) else ctx.ghost["members"][v.arr.get_id()][0]
        ctx.ensure(f"{name} reports exactly those variables, counted from one", S(F, x + 1) == mem(x))
        ctx.ensure(f"{name} is sorted", z3.Implies(z3.And(0 <= x, x < y, y < v.n), S(v.arr, x) < S(v.arr, y)))
    ctx.reach("reported")


# ---------------------------------------------------------------- the constructor, at call sites
def list_of(ctx, v, what):
    """The list of positions v as (length, entries, member(x)): a fresh description of the same values."""
    if v is None:
        return z3.IntVal(0), None, lambda x: z3.BoolVal(False)
    if isinstance(v, PList):
        if not v.items:
            return z3.IntVal(0), None, lambda x: z3.BoolVal(False)
        raise Unsupported(f"{what}: {v!r}")
    if not isinstance(v, SSeq) or v.sort != IntS:
        raise Unsupported(f"{what}: {v!r}")
    mem = ctx.ghost.get("members", {}).get(v.arr.get_id())
    F = mem[0] if mem is not None and mem[1].eq(v.n) else name_members(ctx, v, what)
    return v.n, v.arr, lambda x: S(F, x)


def c_init(interp, v):
    """LinearProgram.__init__, as proved by the units above."""
    ctx, o = interp.ctx, v["self"]
    to_nd = lambda x: c_to_ndarray(interp, {"source": x})
    A, b, c = to_nd(v["A"]), to_nd(v["b"]), to_nd(v["c"])
    if not (isinstance(A, Nd) and isinstance(b, Nd) and isinstance(c, Nd) and A.nd == 2 and b.nd == 1 and c.nd == 1):
        raise PyRaise("ValueError", "LinearProgram")
    m, n = A.dims
    obj = term(v["objective"])
    good = [b.dims[0] == m, c.dims[0] == n, z3.Or(obj == MAX, obj == MIN)]
    i, j = z3.Ints("i_ j_")
    lists = {}
    for what in ("free_variables", "negative_variables"):
        q, a, mem = list_of(ctx, v[what], what)
        lists[what] = (q, a, mem)
        if a is not None:
            good += [z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < q), z3.And(1 <= S(a, i), S(a, i) <= n)), patterns=[S(a, i)]),
                     z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < q), S(a, i) != S(a, j)), patterns=[z3.MultiPattern(S(a, i), S(a, j))])]
    f, g = lists["free_variables"], lists["negative_variables"]
    if f[1] is not None and g[1] is not None:
        good.append(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < f[0], 0 <= j, j < g[0]), S(f[1], i) != S(g[1], j)), patterns=[z3.MultiPattern(S(f[1], i), S(g[1], j))]))
    rel = v["inequalities"]
    if rel is not None:
        if isinstance(rel, PList):
            ar = z3.K(IntS, EQ)
            for k, x in enumerate(rel.items):
                ar = z3.Store(ar, k, term(x))
            rn = z3.IntVal(len(rel.items))
        elif isinstance(rel, SSeq) and rel.sort == Name:
            ar, rn = rel.arr, rel.n
        else:
            raise Unsupported(f"inequalities: {rel!r}")
        r = S(ar, i)
        good += [rn == m, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < rn), z3.Or(r == GE, r == LE, r == EQ)), patterns=[r] if usable(r) else [])]
    for x in good:
        ctx.need(x, "ValueError")
    copy = lambda x: nd.make(ctx, x.dims, x.frozen(), x.dt, x.arr_term())
    o.attrs["_A"], o.attrs["_b"], o.attrs["_c"] = copy(A), copy(b), copy(c)
    o.attrs["_z"] = v["z"]
    o.attrs["_steps"] = Steps(ctx)
    o.attrs["_objective"] = v["objective"]
    empty = []
    if rel is None:
        o.attrs["_inequality_indices"] = LazyDict(ctx)
    else:
        d = new_dict(ctx, "rel", IntS, Name)
        r = S(ar, i)
        ctx.assume(z3.ForAll([i], S(d.dom, i) == z3.And(0 <= i, i < m, z3.Or(r == GE, r == LE)), patterns=[S(d.dom, i)]))
        ctx.assume(z3.ForAll([i], z3.Implies(S(d.dom, i), S(d.val, i) == r), patterns=[S(d.val, i)]))
        o.attrs["_inequality_indices"] = d
        empty.append(z3.Not(z3.Exists([i], S(d.dom, i))))
    for what in ("free_variables", "negative_variables"):
        q, a, mem = lists[what]
        if a is None:
            o.attrs["_" + what] = PList(ctx, [])
            continue
        s = SSeq(ctx, q, ctx.fresh(what, la.IVec), IntS)
        F = name_members(ctx, s, what)
        ctx.assume(z3.ForAll([i], S(F, i) == mem(i + 1), patterns=[S(F, i)]))
        ctx.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < q), S(s.arr, i) < S(s.arr, j)), patterns=[z3.MultiPattern(S(s.arr, i), S(s.arr, j))]))
        o.attrs["_" + what] = s
        empty.append(q == 0)
    sef = ctx.fresh("sef", BoolS)
    ctx.assume(sef == z3.And(obj == MAX, *empty))
    o.attrs["_is_sef"] = SV(sef)
    return None


INIT = {"LinearProgram.__init__": Contract(c_init)}
