"""C04: the operations of a directed graph against their contracts."""
from unit import *
import dgr
from dgr import DSnap, OPS, CONTRACTS, new_digraph, wf, MOD, SETK


def mk(name):
    @unit(f"DirectedGraph.{name}", "C04")
    def u(ctx):
        OPS[name].check(ctx, {})


for _n in OPS:
    mk(_n)


@unit("DirectedGraph defaults", "C04")
def u_defaults(ctx):
    k = ctx.choose(3)
    zero = z3.RealVal(0)
    if k == 0:
        OPS["add_arc"].check(ctx, {}, defaults={"weight": zero, "demands": ("none",)})
    elif k == 1:
        OPS["add_node"].check(ctx, {}, defaults={"demand": zero})
    else:
        OPS["remove_arc"].check(ctx, {}, defaults={"remove_nodes": z3.BoolVal(False)})


@unit("DirectedGraph.arcs/nodes", "C04")
def u_props(ctx):
    o = new_digraph(ctx)
    s = DSnap(ctx, o)
    it = Interp(ctx, ctx.program, {}, {})
    k = ctx.choose(2)
    name = ["arcs", "nodes"][k]
    d = it.getattr(o, name)
    ctx.ensure(f"{name} changes nothing", DSnap(ctx, o).same(s))
    if not (isinstance(d, HSet) and d.kind == "enum"):
        raise Unsupported(f"{name} is not a listing")
    ctx.ensure(f"{name} lists them all, once each", d.t == (s.edom, s.vdom)[k])
    ctx.reach(f"{name} returns")


@unit("DirectedGraph.__init__", "C04", limit=120)
def u_init(ctx):
    gp = new_dict(ctx, "graph_arg", Name, ("set", Name)) if ctx.choose(2) else None
    ep = new_dict(ctx, "arcs_arg", Pair, RealS) if ctx.choose(2) else None
    vp = new_dict(ctx, "nodes_arg", Name, RealS) if ctx.choose(2) else None
    o = Obj(ctx, cls(ctx, MOD, "DirectedGraph"))
    store0, ptr0 = ctx.store(SETK, Name), ctx.ptr
    gdom, gval = (gp.dom, gp.val) if gp else (None, None)
    arg = lambda u, v: sel(sel(store0, sel(gval, u)), v)
    if gp:
        ctx.assume(forall([Name], lambda u: z3.Implies(sel(gdom, u), sel(gval, u) < ptr0), lambda u: sel(gval, u)))
    edom0, eval0 = (ep.dom, ep.val) if ep else (z3.K(Pair, z3.BoolVal(False)), None)
    vdom0, vval0 = (vp.dom, vp.val) if vp else (z3.K(Name, z3.BoolVal(False)), None)

    def frame(n):
        return ("caller's sets are untouched", forall([IntS], lambda r: z3.Implies(r < ptr0, sel(n.store, r) == sel(store0, r)), lambda r: sel(n.store, r)))

    def own(n):
        return ("the digraph's sets are its own", forall([Name], lambda u: z3.Implies(sel(n.gdom, u), sel(n.gval, u) >= ptr0), lambda u: sel(n.gval, u)))

    def phase1(n, done, extra=None):
        ln = lambda u, v: z3.Or(z3.And(sel(done, u), arg(u, v)), *([z3.And(u == extra[0], sel(extra[1], v))] if extra else []))
        w = z3.Const("w_", Name)
        return [("well-formed", wf(n)), frame(n), own(n),
                ("adjacent exactly as given", forall([Name, Name], lambda u, v: z3.And(sel(n.gdom, u), n.adj(u, v)) == ln(u, v), lambda u, v: [n.adj(u, v)])),
                ("given adjacency is there", forall([Name, Name], lambda u, v: z3.Implies(z3.And(sel(done, u), arg(u, v)), z3.And(sel(n.gdom, u), n.adj(u, v))), lambda u, v: [arg(u, v)])),
                *([("given neighbours are there", forall([Name], lambda v: z3.Implies(sel(extra[1], v), z3.And(sel(n.gdom, extra[0]), n.adj(extra[0], v))), lambda v: sel(extra[1], v)))] if extra else []),
                ("processed nodes are there", forall([Name], lambda u: z3.Implies(sel(done, u), sel(n.vdom, u)), lambda u: sel(done, u))),
                ("nodes come from the adjacency", forall([Name], lambda u: z3.Implies(z3.And(sel(n.vdom, u), z3.Not(sel(done, u))), z3.Exists([w], z3.Or(n.adj(u, w), sel(n.edom, mkpair(w, u))))), lambda u: sel(n.vdom, u))),
                ("weights are zero", z3.And(forall([Name], lambda u: z3.Implies(sel(n.vdom, u), sel(n.vval, u) == 0), lambda u: sel(n.vval, u)),
                                            forall([Pair], lambda q: z3.Implies(sel(n.edom, q), sel(n.eval_, q) == 0), lambda q: sel(n.eval_, q))))]

    def mods(l):
        return list(DSnap(ctx, o).objs) + [("store", SETK)]

    outer = {}

    def inv0(l):
        outer["l"] = l
        return phase1(DSnap(ctx, o), l.done)

    def inv1(l):
        return phase1(DSnap(ctx, o), outer["l"].done, (outer["l"].x, l.done))

    def g0(l):
        l.g["s0"] = DSnap(ctx, o)

    def inv2(l):
        n, s0 = DSnap(ctx, o), l.g["s0"]
        w = z3.Const("w_", Name)
        return [("well-formed", wf(n)), frame(n), own(n),
                ("arcs are those before and those processed", forall([Pair], lambda e: sel(n.edom, e) == z3.Or(sel(s0.edom, e), sel(l.done, e)), lambda e: sel(n.edom, e))),
                ("processed arcs are there", forall([Pair], lambda e: z3.Implies(sel(l.done, e), sel(n.edom, e)), lambda e: sel(l.done, e))),
                ("arc weights", forall([Pair], lambda e: z3.Implies(sel(n.edom, e), sel(n.eval_, e) == z3.If(sel(l.done, e), sel(eval0, e), z3.RealVal(0))), lambda e: sel(n.eval_, e))),
                ("nodes are those before and endpoints", z3.And(
                    forall([Name], lambda u: z3.Implies(sel(s0.vdom, u), sel(n.vdom, u)), lambda u: sel(s0.vdom, u)),
                    forall([Name], lambda u: z3.Implies(z3.And(sel(n.vdom, u), z3.Not(sel(s0.vdom, u))), z3.Exists([w], z3.Or(sel(l.done, mkpair(u, w)), sel(l.done, mkpair(w, u))))), lambda u: sel(n.vdom, u)))),
                ("demands are zero", forall([Name], lambda u: z3.Implies(sel(n.vdom, u), sel(n.vval, u) == 0), lambda u: sel(n.vval, u)))]

    def inv3(l):
        n, s0 = DSnap(ctx, o), l.g["s0"]
        return [("well-formed", wf(n)), frame(n), own(n),
                ("arcs as before", z3.And(n.edom == s0.edom, n.eval_ == s0.eval_)),
                ("nodes are those before and those processed", forall([Name], lambda u: sel(n.vdom, u) == z3.Or(sel(s0.vdom, u), sel(l.done, u)), lambda u: sel(n.vdom, u))),
                ("processed nodes are there", forall([Name], lambda u: z3.Implies(sel(l.done, u), sel(n.vdom, u)), lambda u: sel(l.done, u))),
                ("demands", forall([Name], lambda u: z3.Implies(sel(n.vdom, u), sel(n.vval, u) == z3.If(sel(l.done, u), sel(vval0, u), z3.RealVal(0))), lambda u: sel(n.vval, u)))]

    q = "DirectedGraph.__init__"
    loops = {(q, 0): LoopSpec(inv0, mods=mods, kind="for"), (q, 1): LoopSpec(inv1, mods=mods, kind="for"),
             (q, 2): LoopSpec(inv2, enter=g0, mods=mods, kind="for"), (q, 3): LoopSpec(inv3, enter=g0, mods=mods, kind="for")}
    it = Interp(ctx, ctx.program, loops, CONTRACTS)
    out = it.run(o, "__init__", gp, ep, vp)
    u, v, w = z3.Consts("u_ v_ w_", Name)
    if out.raised:
        bad = []
        if gp:
            bad.append(z3.Exists([u], z3.And(sel(gdom, u), arg(u, u))))
        if ep:
            bad.append(z3.Exists([u], sel(edom0, mkpair(u, u))))
        ctx.ensure("construction refuses only loops, with ValueError", z3.And(out.exc.kind == "ValueError", z3.Or(*bad) if bad else z3.BoolVal(False)))
        ctx.reach("init raises")
        return
    n = DSnap(ctx, o)
    ctx.ensure("construction gives a well-formed digraph", wf(n))
    ctx.ensure("construction leaves the caller's sets", frame(n)[1])
    ctx.ensure("construction shares no set with the caller", own(n)[1])
    given = lambda u, v: z3.Or(*([z3.And(sel(gdom, u), arg(u, v))] if gp else []), sel(edom0, mkpair(u, v)))
    ctx.ensure("the arcs are exactly those given", forall([Name, Name], lambda u, v: sel(n.edom, mkpair(u, v)) == given(u, v)))
    ctx.ensure("arc weights are those given", forall([Pair], lambda e: z3.Implies(sel(n.edom, e), sel(n.eval_, e) == (z3.If(sel(edom0, e), sel(eval0, e), z3.RealVal(0)) if ep else z3.RealVal(0)))))
    ctx.ensure("demands are those given", forall([Name], lambda x: z3.Implies(sel(n.vdom, x), sel(n.vval, x) == (z3.If(sel(vdom0, x), sel(vval0, x), z3.RealVal(0)) if vp else z3.RealVal(0)))))
    ctx.ensure("the nodes given are there", forall([Name], lambda x: z3.Implies(z3.Or(sel(vdom0, x), *([sel(gdom, x)] if gp else [])), sel(n.vdom, x))))
    ctx.ensure("every other node is an endpoint", forall([Name], lambda x: z3.Implies(z3.And(sel(n.vdom, x), z3.Not(sel(vdom0, x)), *([z3.Not(sel(gdom, x))] if gp else [])),
                                                         z3.Exists([w], z3.Or(sel(n.edom, mkpair(x, w)), sel(n.edom, mkpair(w, x)))))))
    ctx.reach("init returns")
