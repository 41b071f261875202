"""C03: the operations of an undirected graph against their contracts."""
from unit import *
import ug
from ug import Snap, OPS, CONTRACTS, new_graph, wf, MOD, SETK


def mk(name):
    @unit(f"UndirectedGraph.{name}", "C03")
    def u(ctx):
        OPS[name].check(ctx, {})


for _n in OPS:
    mk(_n)


@unit("UndirectedGraph defaults", "C03")
def u_defaults(ctx):
    which = ctx.choose(2)
    OPS[["add_edge", "add_vertex"][which]].check(ctx, {}, defaults={"weight": z3.RealVal(0)})


@unit("UndirectedGraph.edges/graph/vertices", "C03")
def u_props(ctx):
    """The mappings handed out are equal to the internal ones and share nothing mutable with them."""
    o = new_graph(ctx)
    s = Snap(ctx, o)
    it = Interp(ctx, ctx.program, {}, {})
    k = ctx.choose(3)
    name = ["edges", "graph", "vertices"][k]
    d = it.getattr(o, name)
    n = Snap(ctx, o)
    ctx.ensure(f"asking for {name} changes nothing", z3.And(n.gdom == s.gdom, n.gval == s.gval, n.edom == s.edom, n.eval_ == s.eval_, n.vdom == s.vdom, n.vval == s.vval,
               forall([IntS], lambda r: z3.Implies(r < s.ptr, sel(n.store, r) == sel(s.store, r)))))
    ctx.ensure(f"{name} is a new mapping", not any(d is x for x in s.objs))
    if k == 0:
        d = typed(d, Pair, RealS)
        ctx.ensure("edges is equal", z3.And(d.dom == s.edom, forall([Pair], lambda q: z3.Implies(sel(s.edom, q), sel(d.val, q) == sel(s.eval_, q)))))
    elif k == 2:
        d = typed(d, Name, RealS)
        ctx.ensure("vertices is equal", z3.And(d.dom == s.vdom, forall([Name], lambda q: z3.Implies(sel(s.vdom, q), sel(d.val, q) == sel(s.vval, q)))))
    else:
        d = typed(d, Name, ("set", Name))
        check_fresh_adjacency(ctx, s, n, d)
    ctx.reach(f"{name} returns")


def check_fresh_adjacency(ctx, s, n, d):
    ctx.ensure("the adjacency handed out is equal", z3.And(d.dom == s.gdom, forall([Name, Name], lambda u, v: z3.Implies(sel(s.gdom, u), sel(sel(n.store, sel(d.val, u)), v) == s.adj(u, v)))))
    ctx.ensure("the adjacency handed out shares no set with the graph", forall([Name], lambda u: z3.Implies(sel(d.dom, u), sel(d.val, u) >= s.ptr)))
    ctx.ensure("the adjacency handed out has a set of its own per vertex", forall([Name, Name], lambda u, v: z3.Implies(z3.And(sel(d.dom, u), sel(d.dom, v), sel(d.val, u) == sel(d.val, v)), u == v)))


@unit("UndirectedGraph.copy", "C03")
def u_copy(ctx):
    o = new_graph(ctx)
    s = Snap(ctx, o)
    it = Interp(ctx, ctx.program, {}, {})
    out = it.run(o, "copy")
    ctx.ensure("copy does not raise", not out.raised)
    if out.raised:
        return
    g = out.value
    n = Snap(ctx, g)
    old = Snap(ctx, o)
    ctx.ensure("copy is another object", g is not o and isinstance(g, Obj) and g.cls is o.cls)
    ctx.ensure("copy shares no mapping", not any(x is y for x in n.objs for y in old.objs))
    ctx.ensure("copy keeps the original", z3.And(old.gdom == s.gdom, old.gval == s.gval, old.edom == s.edom, old.eval_ == s.eval_, old.vdom == s.vdom, old.vval == s.vval,
               forall([IntS], lambda r: z3.Implies(r < s.ptr, sel(old.store, r) == sel(s.store, r)))))
    ctx.ensure("copy has the same edges", z3.And(n.edom == s.edom, forall([Pair], lambda q: z3.Implies(sel(s.edom, q), sel(n.eval_, q) == sel(s.eval_, q)))))
    ctx.ensure("copy has the same vertices", z3.And(n.vdom == s.vdom, forall([Name], lambda q: z3.Implies(sel(s.vdom, q), sel(n.vval, q) == sel(s.vval, q)))))
    check_fresh_adjacency(ctx, s, n, n.objs[0])
    ctx.ensure("copy is well-formed", wf(n))
    ctx.reach("copy returns")


@unit("UndirectedGraph.__eq__", "C03")
def u_eq(ctx):
    """Equality is equality of the three mappings (sets compared by content)."""
    a, b = new_graph(ctx), new_graph(ctx)
    s, t = Snap(ctx, a), Snap(ctx, b)
    it = Interp(ctx, ctx.program, {}, {})
    out = it.run(a, "__eq__", b)
    ctx.ensure("equality does not raise", not out.raised)
    same = z3.And(s.vdom == t.vdom, s.edom == t.edom,
                  forall([Name, Name], lambda u, v: z3.Implies(sel(s.gdom, u), s.adj(u, v) == t.adj(u, v))),
                  forall([Name], lambda u: z3.Implies(sel(s.vdom, u), sel(s.vval, u) == sel(t.vval, u))),
                  forall([Pair], lambda u: z3.Implies(sel(s.edom, u), sel(s.eval_, u) == sel(t.eval_, u))))
    r = out.value
    ctx.ensure("equal exactly when the three mappings agree", (term(r) == same) if not isinstance(r, bool) else (same if r else z3.Not(same)))
    ctx.reach("eq returns")


# ---------------------------------------------------------------- construction
def empty(s):
    return z3.And(s.vdom == z3.K(Name, z3.BoolVal(False)), s.edom == z3.K(Pair, z3.BoolVal(False)))


@unit("UndirectedGraph.__init__", "C03", limit=120)
def u_init(ctx):
    """Construction from an adjacency, edges with weights and vertices with weights (each given or not)."""
    gp = new_dict(ctx, "graph_arg", Name, ("set", Name)) if ctx.choose(2) else None
    ep = new_dict(ctx, "edges_arg", Pair, RealS) if ctx.choose(2) else None
    vp = new_dict(ctx, "vertices_arg", Name, RealS) if ctx.choose(2) else None
    o = Obj(ctx, cls(ctx, MOD, "UndirectedGraph"))
    store0, ptr0 = ctx.store(SETK, Name), ctx.ptr
    gdom, gval = (gp.dom, gp.val) if gp else (None, None)
    arg = lambda u, v: sel(sel(store0, sel(gval, u)), v)
    if gp:
        ctx.assume(forall([Name], lambda u: z3.Implies(sel(gdom, u), sel(gval, u) < ptr0), lambda u: sel(gval, u)))
    edom0, eval0 = (ep.dom, ep.val) if ep else (z3.K(Pair, z3.BoolVal(False)), None)
    vdom0, vval0 = (vp.dom, vp.val) if vp else (z3.K(Name, z3.BoolVal(False)), None)

    def frame(n):
        return ("caller's sets are untouched", forall([IntS], lambda r: z3.Implies(r < ptr0, sel(n.store, r) == sel(store0, r)), lambda r: sel(n.store, r)))

    def own(n):
        return ("the graph's sets are its own", forall([Name], lambda u: z3.Implies(sel(n.gdom, u), sel(n.gval, u) >= ptr0), lambda u: sel(n.gval, u)))

    def linked(done, extra=None):
        """u-v given by the adjacency part processed so far."""
        def f(u, v):
            a, b = z3.And(sel(done, u), arg(u, v)), z3.And(sel(done, v), arg(v, u))
            parts = [a, b]
            if extra:
                x, d2 = extra
                parts += [z3.And(u == x, sel(d2, v)), z3.And(v == x, sel(d2, u))]
            return z3.Or(*parts)
        return f

    def phase1(n, done, extra=None):
        ln = linked(done, extra)
        vs = lambda u: z3.Or(sel(done, u), z3.Exists([z3.Const("w_", Name)], ln(u, z3.Const("w_", Name))))
        return [("well-formed", wf(n)), frame(n), own(n),
                ("adjacent exactly as given", forall([Name, Name], lambda u, v: z3.And(sel(n.gdom, u), n.adj(u, v)) == ln(u, v), lambda u, v: [n.adj(u, v)])),
                ("given adjacency is there", forall([Name, Name], lambda u, v: z3.Implies(z3.And(sel(done, u), arg(u, v)), z3.And(sel(n.gdom, u), n.adj(u, v))), lambda u, v: [arg(u, v)])),
                *([("given neighbours are there", forall([Name], lambda v: z3.Implies(sel(extra[1], v), z3.And(sel(n.gdom, extra[0]), n.adj(extra[0], v), n.adj(v, extra[0]))), lambda v: sel(extra[1], v)))] if extra else []),
                ("processed vertices are there", forall([Name], lambda u: z3.Implies(sel(done, u), sel(n.vdom, u)), lambda u: sel(done, u))),
                ("vertices come from the adjacency", forall([Name], lambda u: z3.Implies(z3.And(sel(n.vdom, u), z3.Not(sel(done, u))), z3.Exists([z3.Const("w_", Name)], n.adj(u, z3.Const("w_", Name)))), lambda u: sel(n.vdom, u))),
                ("weights are zero", z3.And(forall([Name], lambda u: z3.Implies(sel(n.vdom, u), sel(n.vval, u) == 0), lambda u: sel(n.vval, u)),
                                            forall([Pair], lambda q: z3.Implies(sel(n.edom, q), sel(n.eval_, q) == 0), lambda q: sel(n.eval_, q))))]

    def mods(l):
        s = Snap(ctx, o)
        return list(s.objs) + [("store", SETK)]

    outer = {}

    def inv0(l):
        outer["l"] = l
        return phase1(Snap(ctx, o), l.done)

    def inv1(l):
        return phase1(Snap(ctx, o), outer["l"].done, (outer["l"].x, l.done))

    def g0(l):
        l.g["s0"] = Snap(ctx, o)

    def inv2(l):
        n, s0 = Snap(ctx, o), l.g["s0"]
        key = lambda u, v: z3.If(name_lt(u, v), mkpair(u, v), mkpair(v, u))
        given = lambda u, v: z3.Or(sel(l.done, mkpair(u, v)), sel(l.done, mkpair(v, u)))
        return [("well-formed", wf(n)), frame(n), own(n),
                ("edges are those before and those processed", forall([Name, Name], lambda u, v: z3.Implies(name_lt(u, v), sel(n.edom, mkpair(u, v)) == z3.Or(sel(s0.edom, mkpair(u, v)), given(u, v))), lambda u, v: sel(n.edom, mkpair(u, v)))),
                ("processed edges are there", forall([Name, Name], lambda u, v: z3.Implies(sel(l.done, mkpair(u, v)), sel(n.edom, key(u, v))), lambda u, v: sel(l.done, mkpair(u, v)))),
                ("edge weights", forall([Name, Name], lambda u, v: z3.Implies(sel(n.edom, mkpair(u, v)), z3.Or(
                    z3.And(z3.Not(given(u, v)), sel(n.eval_, mkpair(u, v)) == 0),
                    z3.And(sel(l.done, mkpair(u, v)), sel(n.eval_, mkpair(u, v)) == sel(eval0, mkpair(u, v))),
                    z3.And(sel(l.done, mkpair(v, u)), sel(n.eval_, mkpair(u, v)) == sel(eval0, mkpair(v, u))))), lambda u, v: sel(n.eval_, mkpair(u, v)))),
                ("vertices are those before and endpoints", z3.And(
                    forall([Name], lambda u: z3.Implies(sel(s0.vdom, u), sel(n.vdom, u)), lambda u: sel(s0.vdom, u)),
                    forall([Name], lambda u: z3.Implies(z3.And(sel(n.vdom, u), z3.Not(sel(s0.vdom, u))), z3.Exists([z3.Const("w_", Name)], given(u, z3.Const("w_", Name)))), lambda u: sel(n.vdom, u)))),
                ("vertex weights are zero", forall([Name], lambda u: z3.Implies(sel(n.vdom, u), sel(n.vval, u) == 0), lambda u: sel(n.vval, u)))]

    def inv3(l):
        n, s0 = Snap(ctx, o), l.g["s0"]
        return [("well-formed", wf(n)), frame(n), own(n),
                ("edges as before", z3.And(n.edom == s0.edom, n.eval_ == s0.eval_)),
                ("vertices are those before and those processed", forall([Name], lambda u: sel(n.vdom, u) == z3.Or(sel(s0.vdom, u), sel(l.done, u)), lambda u: sel(n.vdom, u))),
                ("processed vertices are there", forall([Name], lambda u: z3.Implies(sel(l.done, u), sel(n.vdom, u)), lambda u: sel(l.done, u))),
                ("vertex weights", forall([Name], lambda u: z3.Implies(sel(n.vdom, u), sel(n.vval, u) == z3.If(sel(l.done, u), sel(vval0, u), z3.RealVal(0))), lambda u: sel(n.vval, u)))]

    q = "UndirectedGraph.__init__"
    loops = {(q, 0): LoopSpec(inv0, mods=mods, kind="for"), (q, 1): LoopSpec(inv1, mods=mods, kind="for"),
             (q, 2): LoopSpec(inv2, enter=g0, mods=mods, kind="for"), (q, 3): LoopSpec(inv3, enter=g0, mods=mods, kind="for")}
    it = Interp(ctx, ctx.program, loops, CONTRACTS)
    out = it.run(o, "__init__", gp, ep, vp)
    if out.raised:
        # loops, empty names (and empty vertex sets are fine) are the only things refused
        bad = []
        u, v = z3.Consts("u_ v_", Name)
        if gp:
            bad.append(z3.Exists([u, v], z3.And(sel(gdom, u), arg(u, v), z3.Or(u == v, name_empty(u), name_empty(v)))))
        if ep:
            bad.append(z3.Exists([u, v], z3.And(sel(edom0, mkpair(u, v)), z3.Or(u == v, name_empty(u), name_empty(v)))))
        ctx.ensure("construction refuses only loops and empty names, with ValueError", z3.And(out.exc.kind == "ValueError", z3.Or(*bad) if bad else z3.BoolVal(False)))
        ctx.reach("init raises")
        return
    n = Snap(ctx, o)
    ctx.ensure("construction gives a well-formed graph", wf(n))
    ctx.ensure("construction leaves the caller's sets", frame(n)[1])
    ctx.ensure("construction shares no set with the caller", own(n)[1])
    given = lambda u, v: z3.Or(*([z3.And(sel(gdom, u), arg(u, v)), z3.And(sel(gdom, v), arg(v, u))] if gp else []), sel(edom0, mkpair(u, v)), sel(edom0, mkpair(v, u)))
    ctx.ensure("the edges are exactly those given", forall([Name, Name], lambda u, v: z3.Implies(name_lt(u, v), sel(n.edom, mkpair(u, v)) == given(u, v)))
               if gp is None else forall([Name, Name], lambda u, v: z3.Implies(name_lt(u, v), sel(n.edom, mkpair(u, v)) == given(u, v))))
    w = z3.Const("w_", Name)
    ew = lambda u, v: sel(n.eval_, mkpair(u, v))
    if ep:
        F, B = (lambda u, v: sel(edom0, mkpair(u, v))), (lambda u, v: sel(edom0, mkpair(v, u)))
        ctx.ensure("edge weights are those given", forall([Name, Name], lambda u, v: z3.Implies(sel(n.edom, mkpair(u, v)), z3.Or(
            z3.And(F(u, v), ew(u, v) == sel(eval0, mkpair(u, v))), z3.And(B(u, v), ew(u, v) == sel(eval0, mkpair(v, u))),
            z3.And(z3.Not(F(u, v)), z3.Not(B(u, v)), ew(u, v) == 0)))))
    else:
        ctx.ensure("edge weights are zero when none are given", forall([Pair], lambda e: z3.Implies(sel(n.edom, e), sel(n.eval_, e) == 0)))
    ctx.ensure("vertex weights are those given", forall([Name], lambda x: z3.Implies(sel(n.vdom, x), sel(n.vval, x) == (z3.If(sel(vdom0, x), sel(vval0, x), z3.RealVal(0)) if vp else z3.RealVal(0)))))
    ctx.ensure("the vertices given are there", forall([Name], lambda x: z3.Implies(z3.Or(sel(vdom0, x), *([sel(gdom, x)] if gp else [])), sel(n.vdom, x))))
    ctx.ensure("every other vertex is an endpoint", forall([Name], lambda x: z3.Implies(z3.And(sel(n.vdom, x), z3.Not(sel(vdom0, x)), *([z3.Not(sel(gdom, x))] if gp else [])),
                                                           z3.Exists([w], z3.Or(sel(n.edom, mkpair(x, w)), sel(n.edom, mkpair(w, x)))))))
    ctx.reach("init returns")
