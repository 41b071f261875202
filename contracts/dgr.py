"""The directed graph: representation invariant and contracts of its operations."""
from unit import *
from ops import *

MOD = "pytimize.graphs._directed"
SETK = ("set", "Name")


class DSnap:
    """The abstract state: nodes and demands, successor sets, arcs and weights."""

    def __init__(self, ctx, o):
        g = typed(attr(o, "_graph"), Name, ("set", Name))
        e = typed(attr(o, "_arcs"), Pair, RealS)
        v = typed(attr(o, "_nodes"), Name, RealS)
        self.objs = (g, e, v)
        self.gdom, self.gval, self.edom, self.eval_, self.vdom, self.vval = g.dom, g.val, e.dom, e.val, v.dom, v.val
        self.store = ctx.store(SETK, Name)
        self.ptr = ctx.ptr

    def adj(self, u, v):
        return z3.Select(z3.Select(self.store, z3.Select(self.gval, u)), v)

    def same(self, other):
        return z3.And(self.gdom == other.gdom, self.gval == other.gval, self.edom == other.edom, self.eval_ == other.eval_,
                      self.vdom == other.vdom, self.vval == other.vval, self.store == other.store)


def wf(s):
    P = lambda u, v: sel(s.edom, mkpair(u, v))
    return z3.And(
        s.gdom == s.vdom,
        forall([Name], lambda u: z3.Implies(sel(s.gdom, u), sel(s.gval, u) < s.ptr), lambda u: sel(s.gval, u)),
        forall([Name, Name], lambda u, v: z3.Implies(z3.And(sel(s.gdom, u), sel(s.gdom, v), sel(s.gval, u) == sel(s.gval, v)), u == v),
               lambda u, v: z3.MultiPattern(sel(s.gval, u), sel(s.gval, v))),
        forall([Name, Name], lambda u, v: z3.Implies(z3.And(sel(s.gdom, u), s.adj(u, v)), P(u, v)), lambda u, v: s.adj(u, v)),
        forall([Name, Name], lambda u, v: z3.Implies(P(u, v), z3.And(sel(s.gdom, u), sel(s.gdom, v), s.adj(u, v), u != v)), lambda u, v: P(u, v)),
        forall([Pair], lambda e: z3.Implies(sel(s.edom, e), sel(s.edom, mkpair(fst(e), snd(e)))), lambda e: sel(s.edom, e)))


def new_digraph(ctx, assume=True):
    o = Obj(ctx, cls(ctx, MOD, "DirectedGraph"))
    o.attrs["_graph"] = new_dict(ctx, "graph", Name, ("set", Name))
    o.attrs["_arcs"] = new_dict(ctx, "arcs", Pair, RealS)
    o.attrs["_nodes"] = new_dict(ctx, "nodes", Name, RealS)
    if assume:
        ctx.assume(wf(DSnap(ctx, o)))
    return o


def havoc(interp, o):
    ctx = interp.ctx
    s = DSnap(ctx, o)
    for d in s.objs:
        interp.havoc_obj(d)
    interp.havoc_obj(("store", SETK))
    p = ctx.fresh("heap_ptr", IntS)
    ctx.assume(p >= ctx.ptr)
    ctx.ptr = p


KIT = Kit(DSnap, wf, new_digraph, havoc)


def fresh_demands(ctx, name):
    k = ctx.choose(3)
    if k == 0:
        return None, ("none",)
    if k == 1:
        a, b = ctx.fresh("d", RealS), ctx.fresh("d", RealS)
        return (SV(a), SV(b)), ("tuple", a, b)
    a = ctx.fresh("d", RealS)
    return SV(a), ("num", a)


def of_demands(v):
    if v is None:
        return ("none",)
    if isinstance(v, tuple) and len(v) == 2:
        return ("tuple", real(v[0]), real(v[1]))
    if is_num(v):
        return ("num", real(v))
    raise Unsupported("demands")


Demands = Param(fresh_demands, of_demands)


def demand_of(d, i):
    return z3.RealVal(0) if d[0] == "none" else d[1 + i] if d[0] == "tuple" else d[1]


def arc_err(s, a):
    e = a["arc"]
    u, v = sel_pair(e, 0), sel_pair(e, 1)
    out = [("ValueError", z3.Or(sel(s.edom, e), u == v))]
    if a["demands"][0] == "num":
        out.append(("TypeError", z3.And(z3.Not(sel(s.edom, e)), u != v, z3.Not(sel(s.vdom, u)), z3.Not(sel(s.vdom, v)), a["demands"][1] != 0)))
    return out


def post_add_arc(s, n, a):
    e, w, d = a["arc"], a["weight"], a["demands"]
    u, v = sel_pair(e, 0), sel_pair(e, 1)
    return z3.And(
        sel(n.edom, e), eq_except(n.edom, s.edom, e), sel(n.eval_, e) == w,
        forall([Pair], lambda q: z3.Implies(sel(s.edom, q), sel(n.eval_, q) == sel(s.eval_, q)), lambda q: sel(n.eval_, q)),
        sel(n.vdom, u), sel(n.vdom, v), eq_except(n.vdom, s.vdom, u, v),
        forall([Name], lambda x: z3.Implies(sel(s.vdom, x), sel(n.vval, x) == sel(s.vval, x)), lambda x: sel(n.vval, x)),
        *[z3.Implies(z3.Not(sel(s.vdom, x)), sel(n.vval, x) == demand_of(d, i)) for i, x in enumerate((u, v))],
        forall([Name, Name], lambda x, y: z3.Implies(sel(n.gdom, x), n.adj(x, y) == z3.Or(z3.And(sel(s.gdom, x), s.adj(x, y)), z3.And(x == u, y == v))), lambda x, y: [n.adj(x, y), s.adj(x, y)]), n.adj(u, v))


def post_add_node(s, n, a):
    x, w = a["node"], a["demand"]
    return z3.And(
        sel(n.vdom, x), eq_except(n.vdom, s.vdom, x), sel(n.vval, x) == w,
        forall([Name], lambda y: z3.Implies(sel(s.vdom, y), sel(n.vval, y) == sel(s.vval, y)), lambda y: sel(n.vval, y)),
        n.edom == s.edom, n.eval_ == s.eval_,
        forall([Name, Name], lambda u, v: z3.Implies(sel(n.gdom, u), n.adj(u, v) == z3.And(sel(s.gdom, u), s.adj(u, v))), lambda u, v: [n.adj(u, v), s.adj(u, v)]))


def isolated(n, x):
    """No arc touches x."""
    y = z3.Const("iso_", Name)
    return z3.ForAll([y], z3.And(z3.Not(sel(n.edom, mkpair(x, y))), z3.Not(sel(n.edom, mkpair(y, x)))))


def post_remove_arc(s, n, a):
    e, drop = a["arc"], a["remove_nodes"]
    u, v = sel_pair(e, 0), sel_pair(e, 1)
    return z3.And(
        z3.Not(sel(n.edom, e)), eq_except(n.edom, s.edom, e),
        forall([Pair], lambda q: z3.Implies(sel(n.edom, q), sel(n.eval_, q) == sel(s.eval_, q)), lambda q: sel(n.eval_, q)),
        eq_except(n.vdom, s.vdom, u, v),
        *[sel(n.vdom, x) == z3.Not(z3.And(drop, isolated(n, x))) for x in (u, v)],
        forall([Name], lambda x: z3.Implies(sel(n.vdom, x), sel(n.vval, x) == sel(s.vval, x)), lambda x: sel(n.vval, x)),
        forall([Name, Name], lambda x, y: z3.Implies(sel(n.gdom, x), n.adj(x, y) == z3.And(s.adj(x, y), z3.Not(z3.And(x == u, y == v)))), lambda x, y: [n.adj(x, y), s.adj(x, y)]))


def post_set_arc(s, n, a):
    k = a["arc"]
    return z3.And(n.gdom == s.gdom, n.gval == s.gval, n.store == s.store, n.vdom == s.vdom, n.vval == s.vval, n.edom == s.edom,
                  sel(n.eval_, k) == a["weight"], eq_except(n.eval_, s.eval_, k))


def post_set_node(s, n, a):
    x = a["node"]
    return z3.And(n.gdom == s.gdom, n.gval == s.gval, n.store == s.store, n.vdom == s.vdom, n.edom == s.edom, n.eval_ == s.eval_,
                  sel(n.vval, x) == a["weight"], eq_except(n.vval, s.vval, x))


A, N, W = "arc", "node", "weight"
no_arc = lambda s, a: [("ValueError", z3.Not(sel(s.edom, a[A])))]
no_node = lambda s, a: [("ValueError", z3.Not(sel(s.vdom, a[N])))]
ends = lambda s, a: [sel_pair(a[A], 0), sel_pair(a[A], 1)]

OPS = {o.name: o for o in [
    Op("add_arc", {A: Pair, W: RealS, "demands": Demands}, arc_err, post_add_arc, frame_refs=ends, kit=KIT),
    Op("add_node", {N: Name, "demand": RealS}, lambda s, a: [("ValueError", sel(s.vdom, a[N]))], post_add_node, kit=KIT),
    Op("remove_arc", {A: Pair, "remove_nodes": BoolS}, no_arc, post_remove_arc, frame_refs=ends, kit=KIT),
    Op("set_arc_weight", {A: Pair, W: RealS}, no_arc, post_set_arc, kit=KIT),
    Op("set_node_weight", {N: Name, W: RealS}, no_node, post_set_node, kit=KIT),
    Op("has_arc", {A: Pair}, lambda s, a: [], result=lambda s, a: sel(s.edom, a[A]), mutates=False, kit=KIT),
    Op("has_node", {N: Name}, lambda s, a: [], result=lambda s, a: sel(s.vdom, a[N]), mutates=False, kit=KIT),
]}

CONTRACTS = {"DirectedGraph." + n: o for n, o in OPS.items()}
