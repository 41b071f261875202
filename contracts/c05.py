"""C05: cuts, degrees."""
from unit import *
import ug, dgr
from ug import Snap
from dgr import DSnap

UND = {"UndirectedGraph": (ug.new_graph, Snap), "DirectedGraph": (dgr.new_digraph, DSnap)}


def inside(ctx):
    """An argument naming vertices: (program value, membership test, is it kept as it was)."""
    k = ctx.choose(3)
    if k == 0:
        x = ctx.fresh("vertex", Name)
        return SV(x), (lambda v: v == x), None
    if k == 1:
        s = HSet(ctx, Name, ctx.fresh("vertices", z3.ArraySort(Name, BoolS)))
        S = s.t
        return s, (lambda v: sel(S, v)), (s, S)
    n = ctx.fresh("n", IntS)
    ctx.assume(n >= 0)
    q = SSeq(ctx, n, ctx.fresh("vertices", z3.ArraySort(IntS, Name)), Name)
    arr = q.arr
    i = z3.Int("i_")
    return q, (lambda v: z3.Exists([i], z3.And(0 <= i, i < n, sel(arr, i) == v))), None


def spec(ctx, s, In, which):
    """The set of edges the query is about, defined pointwise."""
    S = ctx.fresh("spec_" + which, z3.ArraySort(Pair, BoolS))
    a, b = (lambda e: In(sel_pair(e, 0))), (lambda e: In(sel_pair(e, 1)))
    f = {"cut": lambda e: z3.Or(z3.And(a(e), z3.Not(b(e))), z3.And(b(e), z3.Not(a(e)))),
         "out": lambda e: z3.And(a(e), z3.Not(b(e))), "in": lambda e: z3.And(b(e), z3.Not(a(e)))}[which]
    ctx.assume(forall([Pair], lambda e: sel(S, e) == z3.And(sel(s.edom, e), f(e)), lambda e: sel(S, e)))
    return S


def identify(ctx, S):
    """The sizes the code took that are the size of S."""
    for ks, R in list(ctx.ghost.get("cards", [])):
        if ks == S.domain() and ctx.holds(R == S):
            ctx.assume(R == S)
    return card_of(S)


def card_of(S):
    return I.card_fn(S.domain())(S)


def as_set(v):
    if isinstance(v, HSet):
        if v.ks is None:
            return z3.K(Pair, z3.BoolVal(False))
        return v.t
    raise Unsupported(f"result {v!r} is not a set or listing of edges")


def mk(klass, name, which):
    @unit(f"{klass}.{name}", "C05", functions=[f"{klass}.{name}"])
    def u(ctx):
        new, snap = UND[klass]
        o = new(ctx)
        s = snap(ctx, o)
        v, In, kept = inside(ctx)
        it = Interp(ctx, ctx.program, {}, {})
        out = it.run(o, name, v)
        ctx.ensure(f"{name} does not raise", not out.raised)
        if out.raised:
            return
        ctx.ensure(f"{name} changes nothing", snap(ctx, o).same(s))
        if kept:
            ctx.ensure(f"{name} leaves the given set alone", kept[0].t == kept[1])
        if len(which) == 1 and name in ("cut", "ncut"):
            S = spec(ctx, s, In, which[0])
            R = as_set(out.value)
            ctx.ensure(f"{name} has exactly the crossing edges", forall([Pair], lambda e: sel(R, e) == sel(S, e)))
        else:
            total = z3.IntVal(0)
            for w in which:
                total = total + identify(ctx, spec(ctx, s, In, w))
            ctx.ensure(f"{name} is the number of crossing edges", term(out.value) == total)
        ctx.reach(f"{name} returns")


mk("UndirectedGraph", "cut", ["cut"])
mk("UndirectedGraph", "degree", ["cut"])
mk("DirectedGraph", "cut", ["out"])
mk("DirectedGraph", "ncut", ["in"])
mk("DirectedGraph", "outdegree", ["out"])
mk("DirectedGraph", "indegree", ["in"])
mk("DirectedGraph", "connections", ["in", "out"])
