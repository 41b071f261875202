"""C08: preflow push."""
from unit import *
import dgr, flow, maxflow
from dgr import DSnap
from flow import *
from maxflow import *
from c07 import certificate, start, refused, contracts

PP = DG + ".preflow_push"


@unit("DirectedGraph.preflow_push", "C08", limit=200)
def u_preflow(ctx):
    o, s, src, t, cuts = start(ctx)
    hold = {}

    def fl(l):
        return typed(l["flow"], Pair, RealS)

    def hts(l):
        return typed(l["height"], Name, IntS)

    def exc(l):
        return typed(l["excess"], Name, RealS)

    def middle(x):
        return z3.And(sel(s.vdom, x), x != src, x != t)

    def valid(f, h):
        """No residual arc goes down by more than one."""
        F = lambda a: sel(f.val, a)
        H = lambda x: sel(h.val, x)
        return forall([Pair], lambda a: z3.Implies(sel(s.edom, a), z3.And(z3.Implies(F(a) < sel(s.eval_, a), H(fst(a)) <= H(snd(a)) + 1), z3.Implies(F(a) > 0, H(snd(a)) <= H(fst(a)) + 1))), lambda a: [F(a), sel(s.edom, a)])

    def labels(h):
        return [("every node has a height", h.dom == s.vdom),
                ("the source is at the number of nodes and the sink at zero", z3.And(sel(h.val, src) == hold["N"], sel(h.val, t) == 0)),
                ("heights are not negative", forall([Name], lambda x: z3.Implies(sel(s.vdom, x), sel(h.val, x) >= 0), lambda x: sel(h.val, x)))]

    def filled(l, done):
        e, f = exc(l), fl(l)
        return [("nodes so far have their excess", forall([Name], lambda x: sel(e.dom, x) == sel(done, x), lambda x: [sel(e.dom, x), sel(done, x)])),
                ("an excess is what flows in more than out", forall([Name], lambda x: z3.Implies(sel(done, x), sel(e.val, x) == -cuts.net(f.val, x)), lambda x: [sel(e.val, x)] + cuts.pat(f.val, x)))]

    def core(l):
        f, h, e, r = fl(l), hts(l), exc(l), Res(ctx, l["residual"])
        return bounds(s, f.dom, f.val) + consistent(s, fn(f.val, f.dom), r) + labels(h) + [
            ("heights are valid", valid(f, h)),
            ("nodes between have an excess", forall([Name], lambda x: sel(e.dom, x) == middle(x), lambda x: [sel(e.dom, x), sel(s.vdom, x)])),
            ("an excess is what flows in more than out", forall([Name], lambda x: z3.Implies(middle(x), sel(e.val, x) == -cuts.net(f.val, x)), lambda x: [sel(e.val, x)] + cuts.pat(f.val, x))),
            ("excesses are not negative", forall([Name], lambda x: z3.Implies(middle(x), sel(e.val, x) >= 0), lambda x: sel(e.val, x)))]

    def mods(l):
        return [fl(l), hts(l), exc(l), typed(l["residual"], Name, ("dict", Name, RealS))] + STORES

    # ---- the excess of every node between
    def inv0(l):
        return filled(l, l.done)

    # ---- the search for a node with excess
    def at(l, e, i):
        arr, n = l.interp.enumeration(l["nodes"])
        k = z3.Int("k_")
        return [("the position is in the list", z3.And(0 <= i, i <= n)),
                ("nodes before the position have no excess", z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < i), sel(e.val, sel(arr, k)) <= 0), patterns=[sel(arr, k)]))]

    def inv1(l):
        hold["l"] = l
        return core(l) + at(l, exc(l), term(l["index"]))

    def enter1(l):
        f = fl(l)
        cuts.zero(f.val)
        hold["excess"], hold["height"] = exc(l), hts(l)

    def havoc1(l):
        f = fl(l)
        cuts.zero(f.val)

    # ---- pushing along one entry
    def inv2(l):
        h = hts(l)
        x = term(l["node"])
        return [("nothing was pushed", z3.BoolVal(l["pushed"] is False)),
                ("ends met so far are not one below", forall([Name], lambda y: z3.Implies(sel(l.done, y), sel(h.val, y) != sel(h.val, x) - 1), lambda y: sel(l.done, y)))]

    # ---- the lowest end
    def inv3(l):
        h, x, m = hts(l), term(l["node"]), l["max_height"]
        if isinstance(m, float):
            return [("no end met yet", forall([Name], lambda y: z3.Not(sel(l.done, y)), lambda y: sel(l.done, y)))]
        return [("the lowest end so far", forall([Name], lambda y: z3.Implies(sel(l.done, y), term(m) <= sel(h.val, y)), lambda y: sel(l.done, y))),
                ("no end is below the node", term(m) >= sel(h.val, x))]
    loops = {(PP, 0): LoopSpec(inv0, mods=lambda l: [exc(l)], kind="for"),
             (PP, 1): LoopSpec(inv1, enter=enter1, havoc=havoc1, types={"index": IntS}, mods=mods, kind="while"),
             (PP, 2): LoopSpec(inv2, types={"pushed": "same"}, mods=lambda l: [], last=mods, kind="for"),
             (PP, 3): LoopSpec(inv3, types={"max_height": ("inf", IntS)}, mods=lambda l: [], kind="for")}
    it = Interp(ctx, ctx.program, loops, contracts(cuts))
    hold["N"] = it.card(Name, s.vdom)
    out = it.run(o, "preflow_push", SV(src), SV(t))
    if out.raised:
        return refused(ctx, o, s, src, t, out)
    ctx.ensure("unknown or equal nodes are rejected", z3.And(sel(s.vdom, src), sel(s.vdom, t), src != t))
    ctx.ensure("the digraph is not changed", DSnap(ctx, o).same(s))
    # pigeonhole: as many heights from zero to the number of nodes as nodes and one more, and source and sink have two of them
    k, h, N = ctx.fresh("gap", IntS), hold["height"], hold["N"]
    ctx.assume(z3.And(0 < k, k < N))
    ctx.assume(forall([Name], lambda x: z3.Implies(sel(s.vdom, x), sel(h.val, x) != k), lambda x: sel(h.val, x)))
    ctx.result.assumed.add("pigeonhole: nodes other than two cannot have all of the heights between, which are one more")
    certificate(ctx, cuts, s, src, t, out, lambda x: sel(h.val, x) > k)
    ctx.reach("returns")
