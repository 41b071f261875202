"""C07: Ford-Fulkerson."""
from unit import *
import dgr, flow, maxflow
from dgr import DSnap
from flow import *
from maxflow import *


@unit("DirectedGraph._push_flow", "C07", "C08", shared=("C07", "C08", "C09"))
def u_push(ctx):
    check_push(ctx)


@unit("DirectedGraph._bfs_path", "C07")
def u_bfs(ctx):
    check_bfs(ctx)


def certificate(ctx, cuts, s, src, t, out, S=None, level=None):
    """The postcondition of a maximum flow computation."""
    if not isinstance(out.value, tuple) or len(out.value) != 2:
        ctx.ensure("the result is a value and a flow", False)
        return
    value, fl = out.value
    fl = typed(fl, Pair, RealS)
    for n, f in bounds(s, fl.dom, fl.val):
        ctx.ensure(n, f)
    ctx.ensure("flow is conserved", forall([Name], lambda x: z3.Implies(z3.And(sel(s.vdom, x), x != src, x != t), cuts.net(fl.val, x) == 0), lambda x: cuts.pat(fl.val, x)))
    ctx.ensure("the value is the net outflow of the source", real(value) == cuts.net(fl.val, src))
    if S is None:
        raise Unsupported("the search has not ended with a cut")
    In = S if callable(S) else (lambda x: sel(S, x))
    ctx.ensure("the cut separates source and sink", z3.And(In(src), z3.Not(In(t))))
    ctx.ensure("arcs leaving the cut are saturated", forall([Pair], lambda a: z3.Implies(z3.And(sel(s.edom, a), In(sel_pair(a, 0)), z3.Not(In(sel_pair(a, 1)))), sel(fl.val, a) == sel(s.eval_, a))))
    ctx.ensure("arcs entering the cut are empty", forall([Pair], lambda a: z3.Implies(z3.And(sel(s.edom, a), z3.Not(In(sel_pair(a, 0))), In(sel_pair(a, 1))), sel(fl.val, a) == 0)))


def start(ctx):
    o = dgr.new_digraph(ctx)
    s = DSnap(ctx, o)
    ctx.assume(forall([Pair], lambda a: z3.Implies(sel(s.edom, a), sel(s.eval_, a) >= 0), lambda a: sel(s.eval_, a)))
    src, t = ctx.fresh("source", Name), ctx.fresh("sink", Name)
    return o, s, src, t, Cuts(ctx, s)


def refused(ctx, o, s, src, t, out):
    ctx.ensure("only unknown or equal nodes are rejected, with ValueError", z3.And(out.exc.kind == "ValueError", z3.Or(z3.Not(sel(s.vdom, src)), z3.Not(sel(s.vdom, t)), src == t)))
    ctx.ensure("the digraph is not changed", DSnap(ctx, o).same(s))
    ctx.reach("rejected")


def contracts(cuts):
    return {**dgr.CONTRACTS, **flow.RESIDUAL, DG + "._push_flow": Push(cuts), DG + "._bfs_path": BfsPath(),
            DG + ".cut": CutOf(cuts, "cut"), DG + ".ncut": CutOf(cuts, "ncut")}


@unit("DirectedGraph.ford_fulkerson", "C07", limit=200)
def u_ff(ctx):
    o, s, src, t, cuts = start(ctx)
    hold = {}

    def fl(l):
        return typed(l["flow"], Pair, RealS)

    def state(l):
        f, r = fl(l), Res(ctx, l["residual"])
        return bounds(s, f.dom, f.val) + consistent(s, fn(f.val, f.dom), r), f, r

    def inv0(l):
        st, f, r = state(l)
        st = st + [("flow is conserved", forall([Name], lambda x: z3.Implies(z3.And(sel(s.vdom, x), x != src, x != t), cuts.net(f.val, x) == 0), lambda x: cuts.pat(f.val, x)))]
        path, g = l["path"], hold["g"] if "g" in hold else ctx.ghost.get("search", {})
        if path is None:
            st.append(("no entry leaves the nodes the search has seen", no_path(r, src, t, g["S"])))
        else:
            d = typed(path, Name, Name)
            st.append(("the path is a path of entries", tree(r, src, t, d.dom, d.val, g["rank"])))
        return st

    def ptype(interp, old):
        return None if ctx.choose(2) == 1 else new_dict(ctx, "path", Name, Name)

    def enter0(l):
        cuts.zero(fl(l).val)

    def havoc0(l):
        hold["g"] = dict(S=ctx.fresh("S", SetN), rank=ctx.fresh("rank", ArrNI))

    def mods(l):
        return [fl(l), typed(l["residual"], Name, ("dict", Name, RealS))] + STORES

    def step0(l):
        hold["g"] = ctx.ghost["search"]

    def at(l):
        """The walk back along the path: u is the parent of v, None at the source."""
        u, v = l["u"], term(l["v"])
        d = typed(l["path"], Name, Name)
        return [("the walk is on the path", z3.And(z3.Or(v == src, sel(d.dom, v)), z3.Not(sel(d.dom, v)) if u is None else z3.And(sel(d.dom, v), term(u) == sel(d.val, v))))], v, d

    def inv1(l):
        st, v, d = at(l)
        P, rank, r = hold["P"], hold["g"]["rank"], Res(ctx, l["residual"])
        m = l["min_residual"]
        q = z3.Const("x_", Name)
        out = st + [
            ("the walk starts at the sink", z3.Or(v == t, sel(P, t))),
            ("nodes walked over have a parent and a higher rank", forall([Name], lambda x: z3.Implies(sel(P, x), z3.And(sel(d.dom, x), sel(rank, x) > sel(rank, v))), lambda x: sel(P, x))),
            ("parents of nodes walked over are walked over or here", forall([Name], lambda x: z3.Implies(sel(P, x), z3.Or(sel(P, sel(d.val, x)), sel(d.val, x) == v)), lambda x: z3.MultiPattern(sel(P, x), sel(d.val, x))))]
        if isinstance(m, float):
            out.append(("nothing walked over yet", z3.And(v == t, z3.BoolVal(l["u"] is not None), forall([Name], lambda x: z3.Not(sel(P, x)), lambda x: sel(P, x)))))
        else:
            out.append(("the smallest capacity so far", z3.And(real(m) > 0, forall([Name], lambda x: z3.Implies(sel(P, x), real(m) <= r.cap(sel(d.val, x), x)), lambda x: z3.MultiPattern(sel(P, x), sel(d.val, x))))))
        return out

    def enter1(l):
        hold["P"] = z3.K(Name, z3.BoolVal(False))

    def havoc1(l):
        hold["P"] = ctx.fresh("P", SetN)

    def begin1(l):
        hold["v"] = term(l["v"])

    def step1(l):
        hold["P"] = z3.Store(hold["P"], hold["v"], z3.BoolVal(True))

    def inv2(l):
        st, v, d = at(l)
        st2, f, r = state(l)
        P, rank, m = hold["P"], hold["g"]["rank"], real(l["min_residual"])
        F = fn(f.val, f.dom)
        return st + st2 + [
            ("the walk is over known nodes", z3.Or(v == src, sel(P, v))),
            ("the rest of the path has enough capacity", forall([Name], lambda x: z3.Implies(z3.And(sel(P, x), sel(rank, x) <= sel(rank, v)), rc(s, F, sel(d.val, x), x) >= m), lambda x: z3.MultiPattern(sel(P, x), sel(d.val, x)))),
            ("flow is conserved except here", forall([Name], lambda x: z3.Implies(z3.And(sel(s.vdom, x), x != src, x != t), cuts.net(f.val, x) == z3.If(x == v, m, z3.RealVal(0))), lambda x: cuts.pat(f.val, x)))]

    q = DG + ".ford_fulkerson"
    opt = {"u": ("opt", Name), "v": Name, "min_residual": ("inf", RealS)}
    loops = {(q, 0): LoopSpec(inv0, enter=enter0, types={"path": ptype, **opt}, mods=mods, havoc=havoc0, step=step0, kind="while"),
             (q, 1): LoopSpec(inv1, enter=enter1, types=opt, havoc=havoc1, begin=begin1, step=step1, kind="while"),
             (q, 2): LoopSpec(inv2, types=opt, mods=mods, kind="while")}
    it = Interp(ctx, ctx.program, loops, contracts(cuts))
    out = it.run(o, "ford_fulkerson", SV(src), SV(t))
    if out.raised:
        return refused(ctx, o, s, src, t, out)
    ctx.ensure("unknown or equal nodes are rejected", z3.And(sel(s.vdom, src), sel(s.vdom, t), src != t))
    ctx.ensure("the digraph is not changed", DSnap(ctx, o).same(s))
    certificate(ctx, cuts, s, src, t, out, hold["g"]["S"] if "g" in hold else None)
    ctx.reach("returns")
