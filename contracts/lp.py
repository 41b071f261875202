"""Linear programs: arbitrary well-formed programs, their abstract state, arguments, and the contracts of the private helpers."""
from unit import *
import nd
import la
from nd import Nd, OddArray, quantify
from interp import SeqIter
from c01 import CONTRACTS as CMP_CONTRACTS, cmp, near0, near, TOL, integral

LPM = "pytimize.programs._linear"
S = z3.Select
dot, mv, tr, mm, inv, det = la.dot, la.mv, la.tr, la.mm, la.inv, la.det
R0, R1 = z3.RealVal(0), z3.RealVal(1)
MAX, MIN, GE, LE, EQ = (lit(x) for x in ("max", "min", ">=", "<=", "="))


class Steps(HObj):
    """The log of steps: never looked into."""
    py_type = "list"

    def py_method(self, interp, name, args, kw):
        if name == "copy":
            return Steps(self.ctx)
        if name == "append":
            self.touch()
            return None
        raise Unsupported("list of steps")


class NumList(HObj):
    """A Python list of numbers."""
    py_type = "list"

    def __init__(self, ctx, n, arr):
        HObj.__init__(self, ctx)
        self.n, self.arr = n, arr

    def array(self):
        a = self.arr
        return nd.of_term(self.ctx, a, (self.n,))

    def py_array(self, interp, kw):
        return nd.make(self.ctx, (self.n,), lambda p: S(self.arr, p))

    def py_len(self, interp):
        return from_term(self.n)

    def py_iter(self, interp):
        return SeqIter(self.n, lambda i: SV(S(self.arr, i)))


class Junk(HObj):
    """Something that is neither an array nor a list."""

    def __init__(self, ctx, py_type="str"):
        HObj.__init__(self, ctx)
        self.py_type = py_type


def vector_of(ctx, v):
    """(length, entries) of an argument that is a vector, or None."""
    if isinstance(v, Nd) and v.nd == 1 and v.dt != "bool":
        return v.dims[0], v.real_fn()
    if isinstance(v, NumList):
        return v.n, (lambda p: S(v.arr, p))
    return None


def vec_arg(ctx, name, odd=True):
    """An argument that should be a vector of numbers."""
    k = ctx.choose(4 if odd else 2)
    n = ctx.fresh(name + "_len", IntS)
    ctx.assume(n >= 0)
    if k == 0:
        return nd.fresh(ctx, name, [n])
    if k == 1:
        a = nd.fresh(ctx, name, [n])
        return NumList(ctx, n, a.arr())
    if k == 2:
        return nd.fresh(ctx, name, [n], "int")
    m = ctx.fresh(name + "_cols", IntS)
    ctx.assume(m >= 0)
    return nd.fresh(ctx, name, [n, m])


# ---------------------------------------------------------------- the program
class P:
    """The abstract state of a linear program."""

    def __init__(self, ctx, o):
        self.ctx, self.o = ctx, o
        A, b, c = attr(o, "_A"), attr(o, "_b"), attr(o, "_c")
        for x, k in ((A, 2), (b, 1), (c, 1)):
            if not isinstance(x, Nd) or x.nd != k:
                raise Unsupported(f"a part of the program is {x!r}")
        A, b, c = (nd.snapshot(x) for x in (A, b, c))  # the content now, whatever happens to the arrays later
        self.Ao, self.bo, self.co = A, b, c
        self.m, self.n = A.dims
        self.bn, self.cn = b.dims[0], c.dims[0]
        self.A, self.b, self.c = A.real_fn(), b.real_fn(), c.real_fn()
        self.z = real(attr(o, "_z"))
        self.obj = term(attr(o, "_objective"))
        d = attr(o, "_inequality_indices")
        if isinstance(d, LazyDict) and d.real is None:
            self.rdom, self.rval = z3.K(IntS, z3.BoolVal(False)), z3.K(IntS, EQ)
        else:
            d = typed(d, IntS, Name)
            self.rdom, self.rval = d.dom, d.val
        self.free, self.neg = ints(ctx, attr(o, "_free_variables")), ints(ctx, attr(o, "_negative_variables"))
        self.sef = term(attr(o, "_is_sef"))

    def arrs(self):
        return self.Ao.arr(), self.bo.arr(), self.co.arr()

    def le(self, i):
        return z3.And(S(self.rdom, i), S(self.rval, i) == LE)

    def ge(self, i):
        return z3.And(S(self.rdom, i), S(self.rval, i) == GE)

    def eq(self, i):
        return z3.Not(S(self.rdom, i))

    def isfree(self, j):
        return self.free.has(j)

    def isneg(self, j):
        return self.neg.has(j)

    def row_ok(self, i, v):
        """The relation of row i holds exactly for the value v of its left side."""
        b = self.b(i)
        return z3.And(z3.Implies(self.le(i), v <= b), z3.Implies(self.ge(i), v >= b), z3.Implies(self.eq(i), v == b))

    def row_near(self, i, v):
        b = self.b(i)
        c = nd.close(v, b)
        return z3.And(z3.Implies(self.le(i), z3.Or(c, v <= b)), z3.Implies(self.ge(i), z3.Or(c, v >= b)), z3.Implies(self.eq(i), c))

    def sign_ok(self, j, v):
        return z3.If(self.isneg(j), v <= 0, z3.Or(self.isfree(j), v >= 0))

    def sign_near(self, j, v):
        return z3.If(self.isneg(j), v < TOL, z3.Or(self.isfree(j), v > -TOL))

    def feasible(self, x):
        """x (a named vector) satisfies every relation and every sign restriction exactly."""
        A = self.Ao.arr()
        return z3.And(quantify(self.ctx, (self.m,), lambda i: self.row_ok(i, dot(S(A, i), x))), quantify(self.ctx, (self.n,), lambda j: self.sign_ok(j, S(x, j))))

    def feasible_near(self, x):
        A = self.Ao.arr()
        return z3.And(quantify(self.ctx, (self.m,), lambda i: self.row_near(i, dot(S(A, i), x))), quantify(self.ctx, (self.n,), lambda j: self.sign_near(j, S(x, j))))

    def value(self, x):
        return dot(self.co.arr(), x) + self.z


class Ints:
    def __init__(self, ctx, n, arr):
        self.ctx, self.n, self.arr = ctx, n, arr

    def has(self, x):
        m = self.ctx.ghost.get("members", {}).get(self.arr.get_id()) if self.arr is not None else None
        if m is not None and z3.is_true(z3.simplify(m[1] == self.n)):
            return S(m[0], x)
        a = self.arr
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE and z3.is_true(z3.simplify(self.n == a.arg(1) + 1)):
            return z3.Or(Ints(self.ctx, a.arg(1), a.arg(0)).has(x), x == a.arg(2))  # one appended
        n = z3.simplify(self.n)
        if z3.is_int_value(n) and n.as_long() == 0:
            return z3.BoolVal(False)
        if z3.is_int_value(n):
            return z3.Or(*[S(self.arr, z3.IntVal(k)) == x for k in range(n.as_long())])
        i = z3.Int("i_")
        return z3.Exists([i], z3.And(0 <= i, i < self.n, S(self.arr, i) == x))


def ints(ctx, v):
    if isinstance(v, SSeq) and v.sort == IntS:
        return Ints(ctx, v.n, v.arr)
    if isinstance(v, PList) and all(is_int(x) for x in v.items):
        a = z3.K(IntS, z3.IntVal(0))
        for k, x in enumerate(v.items):
            a = z3.Store(a, k, term(x))
        return Ints(ctx, z3.IntVal(len(v.items)), a)
    raise Unsupported(f"variable indices are {v!r}")


def name_members(ctx, seq, hint="mem"):
    """A characteristic array and positions for the list seq."""
    F = ctx.fresh(hint, z3.ArraySort(IntS, BoolS))
    pos = ctx.fresh(hint + "_at", la.IVec)
    i, x = z3.Ints("i_ x_")
    ctx.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < seq.n), S(F, S(seq.arr, i))), patterns=[S(seq.arr, i)], qid="mem_in"))
    ctx.assume(z3.ForAll([x], z3.Implies(S(F, x), z3.And(0 <= S(pos, x), S(pos, x) < seq.n, S(seq.arr, S(pos, x)) == x)), patterns=[S(F, x)], qid="mem_at"))
    ctx.ghost.setdefault("members", {})[seq.arr.get_id()] = (F, seq.n, seq.arr, pos)
    return F


def sorted_indices(ctx, hint, n):
    k = ctx.fresh(hint + "_n", IntS)
    s = SSeq(ctx, k, ctx.fresh(hint, la.IVec), IntS)
    i, j = z3.Ints("i_ j_")
    ctx.assume(k >= 0)
    ctx.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < k), z3.And(0 <= S(s.arr, i), S(s.arr, i) < n)), patterns=[S(s.arr, i)], qid="idx_range"))
    ctx.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < k), S(s.arr, i) < S(s.arr, j)), patterns=[z3.MultiPattern(S(s.arr, i), S(s.arr, j))], qid="idx_sorted"))
    name_members(ctx, s, hint + "_mem")
    return s


def lp_class(ctx):
    return cls(ctx, LPM, "LinearProgram")


def new_lp(ctx, sef=None, klass=None):
    """Any well-formed linear program. sef: fix whether it is in standard equality form (None: both)."""
    if sef is None:
        sef = ctx.choose(2) == 0
    o = Obj(ctx, klass or lp_class(ctx))
    m, n = ctx.fresh("m", IntS), ctx.fresh("n", IntS)
    ctx.assume(z3.And(m >= 0, n >= 0))
    o.attrs["_A"] = nd.fresh(ctx, "A", [m, n])
    o.attrs["_b"] = nd.fresh(ctx, "b", [m])
    o.attrs["_c"] = nd.fresh(ctx, "c", [n])
    o.attrs["_z"] = SV(ctx.fresh("z", RealS), "float")
    o.attrs["_steps"] = Steps(ctx)
    o.attrs["_is_sef"] = sef
    if sef:
        o.attrs["_objective"] = "max"
        o.attrs["_inequality_indices"] = LazyDict(ctx)
        o.attrs["_free_variables"] = PList(ctx, [])
        o.attrs["_negative_variables"] = PList(ctx, [])
        return o
    obj = ctx.fresh("objective", Name)
    ctx.assume(z3.Or(obj == MAX, obj == MIN))
    o.attrs["_objective"] = SV(obj)
    d = new_dict(ctx, "rel", IntS, Name)
    i = z3.Int("i_")
    ctx.assume(z3.ForAll([i], z3.Implies(S(d.dom, i), z3.And(0 <= i, i < m, z3.Or(S(d.val, i) == GE, S(d.val, i) == LE))), patterns=[S(d.dom, i)], qid="rel_ok"))
    o.attrs["_inequality_indices"] = d
    f, g = sorted_indices(ctx, "free", n), sorted_indices(ctx, "neg", n)
    o.attrs["_free_variables"], o.attrs["_negative_variables"] = f, g
    F, G = ctx.ghost["members"][f.arr.get_id()][0], ctx.ghost["members"][g.arr.get_id()][0]
    ctx.assume(z3.ForAll([i], z3.Not(z3.And(S(F, i), S(G, i))), patterns=[S(F, i)], qid="disj1"))
    ctx.assume(z3.ForAll([i], z3.Not(z3.And(S(F, i), S(G, i))), patterns=[S(G, i)], qid="disj2"))
    k = ctx.fresh("k", IntS)
    ctx.assume(z3.Or(obj == MIN, z3.And(0 <= k, k < m, S(d.dom, k)), f.n > 0, g.n > 0))
    return o


PARTS = ("_A", "_b", "_c", "_z", "_objective", "_inequality_indices", "_free_variables", "_negative_variables", "_is_sef")


class Keep:
    """Remembers a program, to state that it was not changed."""

    def __init__(self, ctx, o):
        self.o, self.attrs = o, dict(o.attrs)
        self.fns = {k: o.attrs[k].buf.fn for k in ("_A", "_b", "_c")}
        self.ver = {k: version(o.attrs[k]) for k in PARTS}

    def same(self):
        """Every part is the object it was, with the content it had."""
        o = self.o
        out = []
        for k in PARTS:
            v, w = self.attrs[k], o.attrs.get(k)
            if isinstance(v, HObj):
                out.append((k, w is v and version(v) == self.ver[k]))
            elif isinstance(v, SV) and isinstance(w, SV):
                out.append((k, w.t.eq(v.t)))
            else:
                out.append((k, w is v or w == v))
        return out

    def ensure(self, ctx, what):
        bad = [k for k, ok in self.same() if not ok]
        ctx.ensure(f"[C11] {what} leaves the program as it was" + (f" ({', '.join(bad)})" if bad else ""), not bad)


def version(v):
    if isinstance(v, Nd):
        return ("nd", id(v.buf), id(v.buf.fn))
    if isinstance(v, LazyDict):
        return ("lazy", v.real is None or repr(version(v.real)) if v.real is not None else "none")
    if isinstance(v, HDict):
        return ("dict", v.dom.get_id(), v.val.get_id())
    if isinstance(v, SSeq):
        return ("seq", v.arr.get_id(), z3.simplify(v.n).get_id() if isinstance(v.n, z3.ExprRef) else v.n)
    if isinstance(v, PList):
        return ("list", tuple(id(x) for x in v.items))
    return None


# ---------------------------------------------------------------- contracts of helpers
def c_to_ndarray(interp, v):
    s, ctx = v["source"], interp.ctx
    if isinstance(s, Nd):
        if s.dt == "bool":
            raise PyRaise("ValueError", "__to_ndarray")
        return s if s.dt == "float" else nd.astype(s, "float")
    if isinstance(s, OddArray):
        if s.dt not in ("float", "int"):
            raise PyRaise("ValueError", "__to_ndarray")
        return s if s.dt == "float" else OddArray(ctx, s.ndims, "float")
    if isinstance(s, NumList):
        return s.array()
    if hasattr(s, "to_ndarray_contract"):
        return s.to_ndarray_contract(interp)
    if isinstance(s, (PList, SSeq)):
        return nd.astype(nd.as_nd(ctx, s), "float")
    if isinstance(s, Junk) or s is None or isinstance(s, (str, int)):
        raise PyRaise("ValueError", "__to_ndarray")
    raise Unsupported(f"__to_ndarray of {s!r}")


def c_steps(interp, v):
    interp.ctx.result.assumed.add("LinearProgram.__append_to_steps only adds to the log of steps (its text is not modelled)")
    return None


LPC = dict(CMP_CONTRACTS)
LPC["LinearProgram.__append_to_steps"] = Contract(c_steps)
LPC["LinearProgram.__to_ndarray"] = Contract(c_to_ndarray)


def run_lp(ctx, o, name, *args, loops=None, contracts=None, **kw):
    cs = dict(LPC)
    cs.update(contracts or {})
    it = Interp(ctx, ctx.program, loops or {}, cs)
    return it.run(o, name, *args, **kw)


def raised(ctx, out, kind, name):
    """An exception of this kind was raised."""
    ctx.ensure(name, out.raised and exc_is(out, kind))


def exc_is(out, kind):
    return out.raised and exc_matches(out.exc.kind, kind)


def across(ctx, A, x, y):
    """Mention dot(Ax, y), so that the law moving the transpose across the product applies to it."""
    ctx.mention(la.adj(A, x, y))


def nonneg_product(ctx, u, v, n):
    """Instance of a law: the product of two nonnegative vectors is not negative."""
    la.law(ctx, "nonneg", u, v)


def is_true(v):
    return term(v) if isinstance(v, (SV, bool)) else z3.BoolVal(bool(v))


# ---------------------------------------------------------------- lists of positions built by loops
def grown(v, sort=IntS):
    """The empty list v, about to grow in a loop, as a list of symbolic length."""
    if isinstance(v, SSeq):
        return v
    if not isinstance(v, PList) or v.items:
        raise Unsupported(f"expected an empty list, found {v!r}")
    v.__class__ = SSeq
    v.n, v.sort, v.kind = z3.IntVal(0), sort, "list"
    v.arr = v.ctx.fresh("grown", z3.ArraySort(IntS, sort))
    return v


class Filtered:
    """Loop state for a list that collects, in order, the positions with cond(L, i) seen so far (shifted by `off`)."""

    def __init__(self, name, cond, off=0, what=None):
        self.name, self.cond, self.off, self.what = name, cond, off, what or name

    def seq(self, L):
        return grown(L[self.name])

    def enter(self, L):
        s = self.seq(L)
        L.g[self.name] = L.ctx.fresh("at", la.IVec)

    def mods(self, L):
        return [self.seq(L)]

    def havoc(self, L):
        L.g[self.name] = L.ctx.fresh("at", la.IVec)

    def begin(self, L):
        L.g[self.name + "#n"] = self.seq(L).n

    def step(self, L):
        s, n0 = self.seq(L), L.g[self.name + "#n"]
        at = L.g[self.name]
        if z3.is_false(z3.simplify(s.n > n0)):
            return
        L.g[self.name] = z3.If(s.n > n0, z3.Store(at, L.i - 1, n0), at) if not z3.is_true(z3.simplify(s.n > n0)) else z3.Store(at, L.i - 1, n0)

    def inv(self, L):
        s, at = self.seq(L), L.g[self.name]
        i, j = z3.Ints("i_ j_")
        e = S(s.arr, i) - self.off
        return [(f"{self.what} holds only such positions", z3.And(s.n >= 0, s.n <= L.i, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < s.n), z3.And(0 <= e, e < L.i, self.cond(L, e))), patterns=[S(s.arr, i)]))),
                (f"{self.what} holds every such position", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < L.i, self.cond(L, i)), z3.And(0 <= S(at, i), S(at, i) < s.n, S(s.arr, S(at, i)) == i + self.off)), patterns=[S(at, i)])),
                (f"{self.what} is increasing", z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < s.n), S(s.arr, i) < S(s.arr, j)), patterns=[z3.MultiPattern(S(s.arr, i), S(s.arr, j))]))]

    def done(self, L):
        """Name the set of its entries."""
        ctx, s, at = L.ctx, self.seq(L), L.g[self.name]
        F = ctx.fresh("mem", z3.ArraySort(IntS, BoolS))
        i = z3.Int("i_")
        n = L.i
        ctx.assume(z3.ForAll([i], S(F, i) == z3.And(0 <= i - self.off, i - self.off < n, self.cond(L, i - self.off)), patterns=[S(F, i)]))
        ctx.assume(z3.ForAll([i], z3.Implies(S(F, i), S(at, i - self.off) == S(at, i - self.off)), patterns=[S(F, i)]))
        k, x = ctx.fresh("k", IntS), ctx.fresh("x", IntS)
        ctx.ensure(f"entries of {self.what} belong to it", z3.Implies(z3.And(0 <= k, k < s.n), S(F, S(s.arr, k))))
        w = S(at, x - self.off)
        ctx.ensure(f"members of {self.what} are among its entries", z3.Implies(S(F, x), z3.And(0 <= w, w < s.n, S(s.arr, w) == x)))
        ctx.ghost.setdefault("members", {})[s.arr.get_id()] = (F, s.n, s.arr)


def filter_loop(*fs, inv=None, enter=None, mods=None, types=None):
    """A loop specification from several Filtered lists and further invariants."""
    def each(m):
        def f(L):
            for x in fs:
                getattr(x, m)(L)
        return f

    def enter_(L):
        if enter:
            enter(L)
        each("enter")(L)
    return LoopSpec(lambda L: [p for x in fs for p in x.inv(L)] + (inv(L) if inv else []), enter=enter_,
                    mods=lambda L: [o for x in fs for o in x.mods(L)] + (mods(L) if mods else []),
                    havoc=each("havoc"), begin=each("begin"), step=each("step"), done=each("done"), types=types)
