"""The undirected graph: representation invariant, state snapshots and contracts of its operations."""
from unit import *
from ops import *

MOD = "pytimize.graphs._undirected"
SETK = ("set", "Name")
SetN = z3.ArraySort(Name, BoolS)


class Snap:
    """The abstract state: vertex set and weights, adjacency, edge set and weights."""

    def __init__(self, ctx, o):
        g = typed(attr(o, "_graph"), Name, ("set", Name))
        e = typed(attr(o, "_edges"), Pair, RealS)
        v = typed(attr(o, "_vertices"), Name, RealS)
        self.objs = (g, e, v)
        self.gdom, self.gval, self.edom, self.eval_, self.vdom, self.vval = g.dom, g.val, e.dom, e.val, v.dom, v.val
        self.store = ctx.store(SETK, Name)
        self.ptr = ctx.ptr

    def adj(self, u, v):
        return z3.Select(z3.Select(self.store, z3.Select(self.gval, u)), v)

    def same(self, other):
        return z3.And(self.gdom == other.gdom, self.gval == other.gval, self.edom == other.edom, self.eval_ == other.eval_,
                      self.vdom == other.vdom, self.vval == other.vval, self.store == other.store)


def wf(s):
    """The representation invariant."""
    P = lambda u, v: sel(s.edom, mkpair(u, v))
    return z3.And(
        s.gdom == s.vdom,
        forall([Name], lambda u: z3.Implies(sel(s.gdom, u), sel(s.gval, u) < s.ptr), lambda u: sel(s.gval, u)),
        forall([Name, Name], lambda u, v: z3.Implies(z3.And(sel(s.gdom, u), sel(s.gdom, v), sel(s.gval, u) == sel(s.gval, v)), u == v),
               lambda u, v: z3.MultiPattern(sel(s.gval, u), sel(s.gval, v))),
        forall([Name, Name], lambda u, v: z3.Implies(z3.And(sel(s.gdom, u), s.adj(u, v)), z3.And(sel(s.gdom, v), s.adj(v, u), u != v)), lambda u, v: s.adj(u, v)),
        forall([Name, Name], lambda u, v: P(u, v) == z3.And(name_lt(u, v), sel(s.gdom, u), s.adj(u, v)), lambda u, v: P(u, v)),
        forall([Name, Name], lambda u, v: z3.Implies(z3.And(sel(s.gdom, u), s.adj(u, v)), z3.Or(P(u, v), P(v, u))), lambda u, v: s.adj(u, v)))


def new_graph(ctx, assume=True):
    o = Obj(ctx, cls(ctx, MOD, "UndirectedGraph"))
    o.attrs["_graph"] = new_dict(ctx, "graph", Name, ("set", Name))
    o.attrs["_edges"] = new_dict(ctx, "edges", Pair, RealS)
    o.attrs["_vertices"] = new_dict(ctx, "vertices", Name, RealS)
    if assume:
        ctx.assume(wf(Snap(ctx, o)))
    return o


def sorted_pair(t):
    u, v = sel_pair(t, 0), sel_pair(t, 1)
    return z3.If(name_lt(u, v), mkpair(u, v), mkpair(v, u))


def has(s, e):
    return z3.Or(sel(s.edom, e), sel(s.edom, mkpair(snd(e), fst(e)))) if False else sel(s.edom, sorted_pair(e))


def havoc_graph(interp, o):
    ctx = interp.ctx
    s = Snap(ctx, o)
    for d in s.objs:
        interp.havoc_obj(d)
    interp.havoc_obj(("store", SETK))
    ctx.set_store(SETK, ctx.stores[SETK])
    p = ctx.fresh("heap_ptr", IntS)
    ctx.assume(p >= ctx.ptr)
    ctx.ptr = p


KIT = Kit(Snap, wf, new_graph, havoc_graph)


def two(u, v, a, b):
    return z3.Or(z3.And(u == a, v == b), z3.And(u == b, v == a))


def post_add_edge(s, n, a):
    e, w = a["edge"], a["weight"]
    u, v = sel_pair(e, 0), sel_pair(e, 1)
    k = sorted_pair(e)
    return z3.And(
        sel(n.edom, k), eq_except(n.edom, s.edom, k), sel(n.eval_, k) == w,
        forall([Pair], lambda q: z3.Implies(sel(s.edom, q), sel(n.eval_, q) == sel(s.eval_, q)), lambda q: sel(n.eval_, q)),
        sel(n.vdom, u), sel(n.vdom, v), eq_except(n.vdom, s.vdom, u, v),
        forall([Name], lambda x: z3.Implies(sel(s.vdom, x), sel(n.vval, x) == sel(s.vval, x)), lambda x: sel(n.vval, x)),
        *[z3.Implies(z3.Not(sel(s.vdom, x)), sel(n.vval, x) == 0) for x in (u, v)],
        forall([Name, Name], lambda x, y: z3.Implies(sel(n.gdom, x), n.adj(x, y) == z3.Or(z3.And(sel(s.gdom, x), s.adj(x, y)), two(x, y, u, v))), lambda x, y: [n.adj(x, y), s.adj(x, y)]), n.adj(u, v), n.adj(v, u))


def post_remove_edge(s, n, a):
    e = a["edge"]
    u, v = sel_pair(e, 0), sel_pair(e, 1)
    k = sorted_pair(e)
    return z3.And(
        z3.Not(sel(n.edom, k)), eq_except(n.edom, s.edom, k),
        forall([Pair], lambda q: z3.Implies(sel(n.edom, q), sel(n.eval_, q) == sel(s.eval_, q)), lambda q: sel(n.eval_, q)),
        n.vdom == s.vdom, n.vval == s.vval,
        forall([Name, Name], lambda x, y: z3.Implies(sel(n.gdom, x), n.adj(x, y) == z3.And(s.adj(x, y), z3.Not(two(x, y, u, v)))), lambda x, y: [n.adj(x, y), s.adj(x, y)]))


def post_add_vertex(s, n, a):
    x, w = a["vertex"], a["weight"]
    return z3.And(
        sel(n.vdom, x), eq_except(n.vdom, s.vdom, x), sel(n.vval, x) == w,
        forall([Name], lambda y: z3.Implies(sel(s.vdom, y), sel(n.vval, y) == sel(s.vval, y)), lambda y: sel(n.vval, y)),
        n.edom == s.edom, n.eval_ == s.eval_,
        forall([Name, Name], lambda u, v: z3.Implies(sel(n.gdom, u), n.adj(u, v) == z3.And(sel(s.gdom, u), s.adj(u, v))), lambda u, v: [n.adj(u, v), s.adj(u, v)]))


def post_set_edge_weight(s, n, a):
    k = sorted_pair(a["edge"])
    return z3.And(n.gdom == s.gdom, n.gval == s.gval, n.store == s.store, n.vdom == s.vdom, n.vval == s.vval, n.edom == s.edom,
                  sel(n.eval_, k) == a["weight"], eq_except(n.eval_, s.eval_, k))


def post_set_vertex_weight(s, n, a):
    x = a["vertex"]
    return z3.And(n.gdom == s.gdom, n.gval == s.gval, n.store == s.store, n.vdom == s.vdom, n.edom == s.edom, n.eval_ == s.eval_,
                  sel(n.vval, x) == a["weight"], eq_except(n.vval, s.vval, x))


E, V, W = "edge", "vertex", "weight"
no_edge = lambda s, a: [("ValueError", z3.Not(has(s, a[E])))]
no_vertex = lambda s, a: [("ValueError", z3.Not(sel(s.vdom, a[V])))]
ends = lambda s, a: [sel_pair(a[E], 0), sel_pair(a[E], 1)]

OPS = {o.name: o for o in [
    Op("add_edge", {E: Pair, W: RealS}, lambda s, a: [
        ("ValueError", a[W] < 0), ("ValueError", sel_pair(a[E], 0) == sel_pair(a[E], 1)),
        ("ValueError", z3.Or(name_empty(sel_pair(a[E], 0)), name_empty(sel_pair(a[E], 1)))), ("ValueError", has(s, a[E]))],
       post_add_edge, frame_refs=ends),
    Op("remove_edge", {E: Pair}, no_edge, post_remove_edge, frame_refs=ends),
    Op("add_vertex", {V: Name, W: RealS}, lambda s, a: [("ValueError", a[W] < 0), ("ValueError", sel(s.vdom, a[V]))], post_add_vertex),
    Op("set_edge_weight", {E: Pair, W: RealS}, no_edge, post_set_edge_weight),
    Op("set_vertex_weight", {V: Name, W: RealS}, no_vertex, post_set_vertex_weight),
    Op("has_edge", {E: Pair}, lambda s, a: [], result=lambda s, a: has(s, a[E]), mutates=False),
    Op("has_vertex", {V: Name}, lambda s, a: [], result=lambda s, a: sel(s.vdom, a[V]), mutates=False),
    Op("get_edge_weight", {E: Pair}, no_edge, result=lambda s, a: sel(s.eval_, sorted_pair(a[E])), mutates=False),
    Op("get_vertex_weight", {V: Name}, no_vertex, result=lambda s, a: sel(s.vval, a[V]), mutates=False),
]}
for _o in OPS.values():
    _o.kit = KIT

CONTRACTS = {"UndirectedGraph." + n: o for n, o in OPS.items()}
