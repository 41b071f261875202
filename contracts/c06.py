"""C06: traversal, connectivity, trees, cycles, partition."""
from unit import *
from ops import *
from reach import Least, card_full, least_number, mark
import ug
from ug import Snap, SETK, SetN

UG = "UndirectedGraph"
ArrNI, ArrNN = z3.ArraySort(Name, IntS), z3.ArraySort(Name, Name)


def adjacent(s):
    return lambda u, v: z3.And(sel(s.gdom, u), s.adj(u, v))


def reach_from(ctx, s, start, hint="R"):
    return Least(ctx, hint, start, adjacent(s), lambda u, v: s.adj(u, v))


def seen(l):
    """The visited set of a search loop."""
    v = l["visited"]
    if not isinstance(v, HSet):
        raise Unsupported("visited is not a set")
    v.fix(Name)
    return v.t


def bag(l):
    q = l["queue"]
    if not isinstance(q, Bag):
        raise Unsupported("queue is not a queue")
    q.fix(Name)
    return q


def search_mods(l):
    return [l["visited"], l["queue"]]


def search_inv(l, s, start, R):
    """Invariant of a breadth or depth first search from start."""
    vis, q = seen(l), bag(l)
    c = q.cnt
    return [
        ("every visited vertex is reachable", forall([Name], lambda v: z3.Implies(sel(vis, v), sel(R, v)), lambda v: sel(vis, v))),
        ("every waiting vertex is reachable", forall([Name], lambda v: z3.Implies(sel(c, v) > 0, sel(R, v)), lambda v: sel(c, v))),
        ("the start is visited or waiting", z3.Or(sel(vis, start), sel(c, start) > 0)),
        ("neighbours of visited vertices are visited or waiting", forall([Name, Name], lambda u, v: z3.Implies(z3.And(sel(vis, u), s.adj(u, v)), z3.Or(sel(vis, v), sel(c, v) > 0)), lambda u, v: z3.MultiPattern(sel(vis, u), s.adj(u, v)))),
    ]


@unit("UndirectedGraph.traverse", "C06")
def u_traverse(ctx):
    o = ug.new_graph(ctx)
    s = Snap(ctx, o)
    start = ctx.fresh("start", Name)
    ctx.ghost["yield_factory"] = lambda: Bag(ctx, kind="list")
    R = None
    RL = reach_from(ctx, s, start)
    R = RL.R
    method = ("bfs", "dfs", "rng")[ctx.choose(3)]
    order = ctx.choose(2) == 1

    def inv(l):
        y = ctx.yields
        y.fix(Name)
        vis, q = seen(l), bag(l)
        return search_inv(l, s, start, R) + [
            ("exactly the visited vertices have been yielded, once each", forall([Name], lambda v: sel(y.cnt, v) == z3.If(sel(vis, v), z3.IntVal(1), z3.IntVal(0)), lambda v: [sel(y.cnt, v), sel(vis, v)])),
            ("the start is yielded first", z3.If(y.n == 0, z3.And(q.n > 0, q.first == start), y.first == start))]

    spec = LoopSpec(inv, enter=lambda l: RL.within(lambda x: sel(s.gdom, x)), mods=search_mods, kind="while")
    it = Interp(ctx, ctx.program, {(UG + ".traverse", 0): spec}, {**ug.CONTRACTS})
    key = Native(lambda interp, a, k: SV(ctx.fresh("key", RealS)), "order")
    out = it.run(o, "traverse", SV(start), method, *([key] if order else []))
    if out.raised:
        ctx.ensure("traverse raises only ValueError and only for an unknown start", z3.And(out.exc.kind == "ValueError", z3.Not(sel(s.vdom, start))))
        ctx.ensure("traverse changes nothing", Snap(ctx, o).same(s))
        ctx.reach("traverse raises")
        return
    ctx.ensure("traverse accepts only known vertices", sel(s.vdom, start))
    ctx.ensure("traverse changes nothing", Snap(ctx, o).same(s))
    y = out.value
    if isinstance(y, HSet) and y.kind == "enum":
        cnt = lambda v: z3.If(sel(y.t, v), z3.IntVal(1), z3.IntVal(0))
        first = None
    elif isinstance(y, Bag):
        y.fix(Name)
        cnt, first = (lambda v: sel(y.cnt, v)), y.first
    else:
        raise Unsupported(f"traversal result {y!r}")
    if method == "rng":
        ctx.ensure("random traversal yields every vertex once", forall([Name], lambda v: cnt(v) == z3.If(sel(s.vdom, v), z3.IntVal(1), z3.IntVal(0))))
    else:
        RL.within(lambda v: cnt(v) > 0)
        ctx.ensure("traversal yields exactly the reachable vertices, once each", forall([Name], lambda v: cnt(v) == z3.If(sel(R, v), z3.IntVal(1), z3.IntVal(0))))
        ctx.ensure("traversal begins with the start", first == start if first is not None else False)
    ctx.reach("traverse returns " + method)


class Traverse:
    """At call sites: an enumeration of the reachable vertices."""

    def __init__(self, note=None):
        self.note = note

    def apply(self, interp, v):
        ctx, o = interp.ctx, v["self"]
        if v.get("method", "bfs") not in ("bfs", "dfs"):
            raise Unsupported("random traversal at a call site")
        s = Snap(ctx, o)
        start = as_sort(v["start"], Name)
        if ctx.branch(z3.Not(sel(s.vdom, start))):
            raise PyRaise("ValueError", "traverse")
        L_ = reach_from(ctx, s, start)
        L_.within(lambda x: sel(s.vdom, x))
        ctx.ghost.setdefault("reached", []).append(L_)
        return HSet(ctx, Name, L_.R, kind="enum")


TR = {UG + ".traverse": Traverse()}


def mk_list(name):
    @unit(UG + "." + name, "C06")
    def u(ctx):
        o = ug.new_graph(ctx)
        s = Snap(ctx, o)
        start = ctx.fresh("start", Name)
        seen_ = []

        class T(Traverse):
            def apply(self, interp, v):
                r = Traverse.apply(self, interp, v)
                seen_.append((v, r))
                return r
        it = Interp(ctx, ctx.program, {}, {**ug.CONTRACTS, UG + ".traverse": T()})
        out = it.run(o, name, SV(start))
        if out.raised:
            ctx.ensure(f"{name} raises only ValueError and only for an unknown start", z3.And(out.exc.kind == "ValueError", z3.Not(sel(s.vdom, start))))
            return
        ctx.ensure(f"{name} lists the traversal from its start", len(seen_) == 1 and isinstance(out.value, HSet) and out.value.kind == "enum" and out.value.t.eq(seen_[0][1].t)
                   and z3.is_true(z3.simplify(as_sort(seen_[0][0]["start"], Name) == start)))
        ctx.ensure(f"{name} changes nothing", Snap(ctx, o).same(s))
        ctx.reach(f"{name} returns")


mk_list("bfs")
mk_list("dfs")


@unit("reachability is symmetric", "C06")
def u_sym(ctx):
    """Lemma: in an undirected graph, v reachable from u has the same reachable set."""
    o = ug.new_graph(ctx)
    s = Snap(ctx, o)
    u, v = ctx.fresh("u", Name), ctx.fresh("v", Name)
    ctx.assume(z3.And(sel(s.vdom, u), sel(s.vdom, v)))
    Ru, Rv = reach_from(ctx, s, u), reach_from(ctx, s, v)
    ctx.assume(sel(Ru.R, v))
    Rv.within(lambda x: sel(Ru.R, x))
    ctx.ensure("what v reaches u reaches", forall([Name], lambda x: z3.Implies(sel(Rv.R, x), sel(Ru.R, x))))
    # otherwise the complement of what v reaches contains u and is closed, so it would contain v
    Ru.within(lambda x: z3.Or(z3.Not(sel(Rv.R, x)), sel(Rv.R, u)))
    ctx.ensure("u is reached from v", sel(Rv.R, u))
    Ru.within(lambda x: sel(Rv.R, x))
    ctx.ensure("what u reaches v reaches", forall([Name], lambda x: z3.Implies(sel(Ru.R, x), sel(Rv.R, x))))
    ctx.reach("lemma")


def is_connected_spec(ctx, s, L_):
    """With L_ the reachable set of some vertex: connected is R = V (every vertex reaches every other, by the lemma)."""
    return forall([Name], lambda v: z3.Implies(sel(s.vdom, v), sel(L_.R, v)), lambda v: sel(s.vdom, v))


def mk_conn(name):
    @unit(UG + "." + name, "C06")
    def u(ctx):
        o = ug.new_graph(ctx)
        s = Snap(ctx, o)
        it = Interp(ctx, ctx.program, {}, {**ug.CONTRACTS, **TR})
        out = it.run(o, name)
        ctx.ensure(f"{name} does not raise", not out.raised)
        if out.raised:
            return
        for ks, S in ctx.ghost.get("cards", []):
            for ks2, T in ctx.ghost.get("cards", []):
                if S is not T and ks == Name and ks2 == Name:
                    card_full(ctx, S, T)
        r = ctx.ghost.get("reached", [])
        x = z3.Const("x_", Name)
        empty = z3.Not(z3.Exists([x], sel(s.vdom, x)))
        if not r:
            ctx.ensure(f"{name} without a search is the answer for the empty graph", z3.And(empty, z3.Not(term(out.value))))
        else:
            ctx.ensure(f"{name} says whether one vertex reaches all", term(out.value) == is_connected_spec(ctx, s, r[-1]))
            ctx.ensure(f"{name} searches from a vertex of the graph", sel(s.vdom, r[-1].start))
        ctx.ensure(f"{name} changes nothing", Snap(ctx, o).same(s))
        ctx.reach(f"{name} returns")


mk_conn("is_connected")
mk_conn("has_spanning_tree")


@unit("UndirectedGraph.is_empty", "C06")
def u_empty(ctx):
    o = ug.new_graph(ctx)
    s = Snap(ctx, o)
    out = Interp(ctx, ctx.program, {}, {}).run(o, "is_empty")
    ctx.ensure("is_empty does not raise", not out.raised)
    x = z3.Const("x_", Name)
    ctx.ensure("is_empty says whether there is no vertex", term(out.value) == z3.Not(z3.Exists([x], sel(s.vdom, x))))
    ctx.reach("is_empty returns")


# ---------------------------------------------------------------- cycles
class Forest:
    """Ghost state of a search that looks for cycles: parent P, second parent P2, rank RK (time of visit)."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.fresh()
        self.time = z3.IntVal(0)

    def fresh(self):
        ctx = self.ctx
        self.P, self.P2, self.RK = ctx.fresh("parent", ArrNN), ctx.fresh("parent2", ArrNN), ctx.fresh("rank", ArrNI)
        self.time = ctx.fresh("time", IntS)
        self.root = ctx.fresh("roots", SetN)


def certificate(s, E, f):
    """Within the explored set E every edge joins a vertex to its parent, of lower rank."""
    rk, P = f.RK, f.P
    return [
        ("time goes on", f.time >= 0),
        ("explored vertices are vertices and have a rank", forall([Name], lambda y: z3.Implies(E(y), z3.And(sel(s.gdom, y), 0 <= sel(rk, y), sel(rk, y) < f.time)), lambda y: sel(rk, y))),
        ("ranks are different", forall([Name, Name], lambda y, z: z3.Implies(z3.And(E(y), E(z), sel(rk, y) == sel(rk, z)), y == z), lambda y, z: z3.MultiPattern(sel(rk, y), sel(rk, z)))),
        ("explored edges are tree edges", forall([Name, Name], lambda y, z: z3.Implies(z3.And(E(y), E(z), s.adj(y, z), sel(rk, z) < sel(rk, y)), z3.And(z == sel(P, y), z3.Not(sel(f.root, y)))), lambda y, z: s.adj(y, z))),
    ]


def tree_inv(l, s, U, root, f):
    """Invariant of the search of one component; U the vertices not explored before, root its start."""
    vis, q = seen(l), bag(l)
    c, P, P2, rk = q.cnt, f.P, f.P2, f.RK
    V = lambda y: sel(vis, y)
    return [
        ("time goes on", f.time >= 0),
        ("the queue holds unexplored vertices", forall([Name], lambda y: z3.Implies(sel(c, y) > 0, U(y)), lambda y: sel(c, y))),
        ("visited vertices were unexplored", forall([Name], lambda y: z3.Implies(V(y), z3.And(U(y), 0 <= sel(rk, y), sel(rk, y) < f.time)), lambda y: V(y))),
        ("the root is first", z3.And(sel(f.root, root), U(root), z3.If(V(root), sel(c, root) == 0, z3.And(sel(c, root) == 1, forall([Name], lambda y: z3.And(z3.Not(V(y)), z3.Implies(sel(c, y) > 0, y == root)), lambda y: [V(y), sel(c, y)]))))),
        ("only the root has no parent here", forall([Name], lambda y: z3.Implies(z3.And(U(y), y != root), z3.Not(sel(f.root, y))), lambda y: sel(f.root, y))),
        ("the root ranks below the others", forall([Name], lambda y: z3.Implies(z3.And(V(y), V(root), y != root), sel(rk, root) < sel(rk, y)), lambda y: V(y))),
        ("visit times are different", forall([Name, Name], lambda y, z: z3.Implies(z3.And(V(y), V(z), sel(rk, y) == sel(rk, z)), y == z), lambda y, z: z3.MultiPattern(V(y), V(z)))),
        ("a vertex waits once for each visited neighbour: none", forall([Name, Name], lambda y, z: z3.Implies(z3.And(U(y), z3.Not(V(y)), sel(c, y) == 0, V(z)), z3.Not(s.adj(z, y))), lambda y, z: s.adj(z, y))),
        ("waiting vertices have a visited parent", forall([Name], lambda y: z3.Implies(z3.And(y != root, z3.Not(V(y)), sel(c, y) >= 1), z3.And(V(sel(P, y)), s.adj(sel(P, y), y))), lambda y: sel(P, y))),
        ("a vertex waiting once has one visited neighbour", forall([Name, Name], lambda y, z: z3.Implies(z3.And(y != root, z3.Not(V(y)), sel(c, y) == 1, V(z), s.adj(z, y)), z == sel(P, y)), lambda y, z: s.adj(z, y))),
        ("a vertex waiting twice has two visited neighbours", forall([Name], lambda y: z3.Implies(z3.And(y != root, z3.Not(V(y)), sel(c, y) >= 2), z3.And(V(sel(P2, y)), s.adj(sel(P2, y), y), sel(P2, y) != sel(P, y))), lambda y: sel(P2, y))),
        ("visited vertices have an earlier parent", forall([Name], lambda y: z3.Implies(z3.And(y != root, V(y)), z3.And(V(sel(P, y)), s.adj(sel(P, y), y), sel(rk, sel(P, y)) < sel(rk, y))), lambda y: sel(P, y))),
        ("visited and still waiting: another earlier neighbour", forall([Name], lambda y: z3.Implies(z3.And(y != root, V(y), sel(c, y) >= 1), z3.And(V(sel(P2, y)), s.adj(sel(P2, y), y), sel(P2, y) != sel(P, y), sel(rk, sel(P2, y)) < sel(rk, y))), lambda y: sel(P2, y))),
        ("visited and not waiting: the parent is the only earlier neighbour", forall([Name, Name], lambda y, z: z3.Implies(z3.And(V(y), V(z), sel(c, y) == 0, s.adj(z, y), sel(rk, z) < sel(rk, y)), z3.And(z == sel(P, y), y != root)), lambda y, z: s.adj(z, y))),
    ]


def tree_begin(l, f):
    l.g["vis0"], l.g["cnt0"] = seen(l), bag(l).cnt


def tree_step(l, s, f):
    """Ghost code at the end of a visit: the time of the visit; neighbours met for the first time get a parent."""
    ctx = l.ctx
    x = term(l["current"])
    vis, vis0, cnt0 = seen(l), l.g["vis0"], l.g["cnt0"]
    P, P2, rk, t = f.P, f.P2, f.RK, f.time
    nP, nP2 = ctx.fresh("parent", ArrNN), ctx.fresh("parent2", ArrNN)
    met = lambda y: z3.And(s.adj(x, y), z3.Not(sel(vis, y)))
    c1 = cnt0  # waiting before this visit; x itself is visited now
    ctx.assume(forall([Name], lambda y: sel(nP, y) == z3.If(z3.And(met(y), sel(c1, y) == 0), x, sel(P, y)), lambda y: sel(nP, y)))
    ctx.assume(forall([Name], lambda y: sel(nP2, y) == z3.If(z3.And(met(y), sel(c1, y) > 0), x, sel(P2, y)), lambda y: sel(nP2, y)))
    f.P, f.P2 = nP, nP2
    f.RK = z3.Store(rk, x, t)
    f.time = t + 1


def on_cycle(ctx, s, c, p, p2, V, rk, root, P):
    """c has two earlier visited neighbours p and p2: the edge (c, p2) lies on a cycle, that is p2 is reached from c
    without it. Proved by walking down to the root and up again."""
    minus = lambda u, v: z3.And(sel(s.gdom, u), s.adj(u, v), z3.Not(z3.Or(z3.And(u == c, v == p2), z3.And(u == p2, v == c))))
    W = Least(ctx, "W", c, minus, lambda u, v: s.adj(u, v))
    low = lambda z: z3.And(V(z), sel(rk, z) < sel(rk, c))
    ctx.ensure("the parent is reached without the edge", sel(W.R, p))
    m = least_number(ctx, lambda z: z3.And(low(z), sel(W.R, z)), rk)
    ctx.ensure("the root is reached without the edge", sel(W.R, root), hints=[mark(sel(P, m))])
    m = least_number(ctx, lambda z: z3.And(low(z), z3.Not(sel(W.R, z))), rk)
    ctx.ensure("every earlier vertex is reached without the edge", forall([Name], lambda z: z3.Implies(low(z), sel(W.R, z)), lambda z: sel(rk, z)),
               hints=[mark(sel(P, m))])
    ctx.ensure("the edge lies on a cycle", sel(W.R, p2))


@unit("a forest has no cycle", "C06")
def u_forest(ctx):
    """Lemma: if every edge joins a vertex to its parent of lower rank, no edge lies on a cycle."""
    o = ug.new_graph(ctx)
    s = Snap(ctx, o)
    f = Forest(ctx)
    f.fresh()
    for _, g in certificate(s, lambda y: sel(s.gdom, y), f):
        ctx.assume(g)
    y = ctx.fresh("y", Name)
    p = ctx.fresh("p", Name)
    ctx.assume(z3.And(sel(s.gdom, y), s.adj(y, p), sel(f.RK, p) < sel(f.RK, y)))
    ctx.assume(p == sel(f.P, y))
    minus = lambda u, v: z3.And(sel(s.gdom, u), s.adj(u, v), z3.Not(z3.Or(z3.And(u == y, v == p), z3.And(u == p, v == y))))
    W = Least(ctx, "W", y, minus, lambda u, v: s.adj(u, v))
    child = lambda u, v: z3.And(sel(s.gdom, u), sel(s.gdom, v), s.adj(v, u), sel(f.P, v) == u, sel(f.RK, u) < sel(f.RK, v))
    D = Least(ctx, "D", y, child, lambda u, v: s.adj(v, u))
    D.within(lambda z: z3.And(sel(s.gdom, z), sel(f.RK, z) >= sel(f.RK, y)))
    D.within(lambda z: z3.And(sel(D.R, z), z3.Or(z == y, sel(D.R, sel(f.P, z)))))
    W.within(lambda z: sel(D.R, z))
    ctx.ensure("what is reached without the edge are descendants", forall([Name], lambda z: z3.Implies(sel(W.R, z), sel(D.R, z)), lambda z: sel(W.R, z)))
    ctx.ensure("the other end is not reached without the edge", z3.Not(sel(W.R, p)))
    ctx.reach("lemma")


@unit("UndirectedGraph.is_tree", "C06", limit=120)
def u_tree(ctx):
    o = ug.new_graph(ctx)
    s = Snap(ctx, o)
    f = Forest(ctx)
    f.time = z3.IntVal(0)
    hold = {}
    allV = lambda y: sel(s.gdom, y)

    def enter(l):
        q = bag(l)
        root = q.first
        seen(l)
        hold["root"] = root
        f.root = ctx.fresh("roots", SetN)
        ctx.assume(forall([Name], lambda y: sel(f.root, y) == (y == root), lambda y: sel(f.root, y)))
        hold["R"] = reach_from(ctx, s, root)

    def inv(l):
        return tree_inv(l, s, allV, hold["root"], f) + search_inv(l, s, hold["root"], hold["R"].R)

    def havoc(l):
        r = f.root
        f.fresh()
        f.root = r
        hold["l"] = l

    spec = LoopSpec(inv, enter, mods=search_mods, havoc=havoc, begin=lambda l: tree_begin(l, f), step=lambda l: tree_step(l, s, f), kind="while")
    it = Interp(ctx, ctx.program, {(UG + ".is_tree", 0): spec}, {**ug.CONTRACTS})
    out = it.run(o, "is_tree")
    ctx.ensure("is_tree does not raise", not out.raised)
    if out.raised:
        return
    ctx.ensure("is_tree changes nothing", Snap(ctx, o).same(s))
    v = out.value
    if "l" not in hold:
        x = z3.Const("x_", Name)
        ctx.ensure("is_tree without a search is the answer for the empty graph", z3.And(z3.Not(z3.Exists([x], sel(s.vdom, x))), z3.Not(term(v))))
        ctx.reach("is_tree of the empty graph")
        return
    l = hold["l"]
    vis, q, root = seen(l), bag(l), hold["root"]
    R = hold["R"]
    if "vis0" in l.g:
        # a vertex was met again: some edge lies on a cycle
        ctx.ensure("is_tree is false when a vertex is met again", z3.Not(term(v)))
        c = term(l["current"])
        on_cycle(ctx, s, c, sel(f.P, c), sel(f.P2, c), lambda y: sel(vis, y), f.RK, root, f.P)
        ctx.reach("is_tree finds a cycle")
        return
    R.within(lambda x: sel(vis, x))
    ctx.ensure("the search has visited what the root reaches", forall([Name], lambda y: sel(vis, y) == sel(R.R, y)))
    R.within(lambda x: sel(s.vdom, x))
    for _, S in list(ctx.ghost.get("cards", [])):
        card_full(ctx, vis, s.vdom)
    full = is_connected_spec(ctx, s, R)
    ctx.ensure("with no vertex met again is_tree says whether the graph is connected", term(v) == full)
    if ctx.branch(term(v)):
        for n, g in certificate(s, allV, f):
            ctx.ensure("a tree: " + n, g)
    ctx.reach("is_tree finishes")


@unit("UndirectedGraph.is_cyclic", "C06", limit=120)
def u_cyclic(ctx):
    o = ug.new_graph(ctx)
    s = Snap(ctx, o)
    f = Forest(ctx)
    f.time = z3.IntVal(0)
    hold = {}

    def unexp(l):
        u = l["unexplored"]
        if not isinstance(u, HSet):
            raise Unsupported("unexplored is not a set")
        u.fix(Name)
        return u.t

    def explored(l):
        u = unexp(l)
        return lambda y: z3.And(sel(s.gdom, y), z3.Not(sel(u, y)))

    def oinv(l):
        u = unexp(l)
        return [("unexplored vertices are vertices", forall([Name], lambda y: z3.Implies(sel(u, y), sel(s.gdom, y)), lambda y: sel(u, y))),
                ("the explored part is closed", forall([Name, Name], lambda y, z: z3.Implies(z3.And(sel(u, y), s.adj(y, z)), sel(u, z)), lambda y, z: z3.MultiPattern(sel(u, y), s.adj(y, z))))] + certificate(s, explored(l), f)

    def ohavoc(l):
        f.fresh()

    def otype(interp, old):
        return HSet(ctx, Name, ctx.fresh("unexplored", SetN))

    outer = LoopSpec(oinv, enter=lambda l: unexp(l), types={"unexplored": otype}, havoc=ohavoc, kind="while")

    def enter(l):
        q = bag(l)
        seen(l)
        hold["root"] = q.first
        r = ctx.fresh("roots", SetN)
        u = unexp(l)
        old = f.root
        hold["old"] = (f.P, f.P2, f.RK, f.time)
        ctx.assume(forall([Name], lambda y: sel(r, y) == z3.Or(y == q.first, z3.And(z3.Not(sel(u, y)), sel(old, y))), lambda y: sel(r, y)))
        f.root = r
        hold["root_set"] = r

    def kept(l):
        """Ghost facts about vertices explored before do not change."""
        u = unexp(l)
        P, P2, rk, t = hold["old"]
        return [("what was explored keeps its parents and ranks", z3.And(t <= f.time, forall([Name], lambda y: z3.Implies(z3.Not(sel(u, y)), z3.And(sel(f.P, y) == sel(P, y), sel(f.RK, y) == sel(rk, y))), lambda y: [sel(f.P, y), sel(f.RK, y)]))),
                ("ranks here are later", forall([Name], lambda y: z3.Implies(sel(seen(l), y), sel(f.RK, y) >= t), lambda y: sel(seen(l), y)))]

    def iinv(l):
        u, vis, c = unexp(l), seen(l), bag(l).cnt
        return tree_inv(l, s, lambda y: sel(u, y), hold["root"], f) + kept(l) + [
            ("neighbours of visited vertices are visited or waiting", forall([Name, Name], lambda x, v: z3.Implies(z3.And(sel(vis, x), s.adj(x, v)), z3.Or(sel(vis, v), sel(c, v) > 0)), lambda x, v: z3.MultiPattern(sel(vis, x), s.adj(x, v))))]

    def ihavoc(l):
        f.fresh()
        f.root = hold["root_set"]
        hold["l"] = l

    inner = LoopSpec(iinv, enter, mods=search_mods, havoc=ihavoc, begin=lambda l: tree_begin(l, f), step=lambda l: tree_step(l, s, f), kind="while")
    it = Interp(ctx, ctx.program, {(UG + ".is_cyclic", 0): outer, (UG + ".is_cyclic", 1): inner}, {**ug.CONTRACTS})
    out = it.run(o, "is_cyclic")
    ctx.ensure("is_cyclic does not raise", not out.raised)
    if out.raised:
        return
    ctx.ensure("is_cyclic changes nothing", Snap(ctx, o).same(s))
    v = out.value
    if ctx.branch(term(v)):
        if "l" not in hold:
            ctx.ensure("is_cyclic is true only after a vertex is met again", False)
            return
        l = hold["l"]
        vis, c, root = seen(l), term(l["current"]), hold["root"]
        on_cycle(ctx, s, c, sel(f.P, c), sel(f.P2, c), lambda y: sel(vis, y), f.RK, root, f.P)
        ctx.reach("is_cyclic finds a cycle")
        return
    for n, g in certificate(s, lambda y: sel(s.gdom, y), f):
        ctx.ensure("no cycle: " + n, g)
    ctx.reach("is_cyclic finishes")


# ---------------------------------------------------------------- partition
class Parts(HObj):
    """The list of parts: each part is checked when it is appended; cov is the set of vertices in parts."""

    def __init__(self, ctx, check):
        HObj.__init__(self, ctx)
        self.check, self.cov, self.n = check, z3.K(Name, z3.BoolVal(False)), z3.IntVal(0)

    def py_havoc(self, interp):
        self.cov, self.n = self.ctx.fresh("covered", SetN), self.ctx.fresh("parts", IntS)
        self.touch()

    def py_len(self, interp):
        return SV(self.n)

    def py_method(self, interp, name, args, kw):
        if name != "append" or kw:
            raise Unsupported(f"parts.{name}")
        self.check(self, args[0])
        self.touch()


@unit("UndirectedGraph.partition", "C06", limit=120)
def u_partition(ctx):
    o = ug.new_graph(ctx)
    s = Snap(ctx, o)
    hold = {}

    def check(parts, g):
        n = Snap(ctx, g)
        root, R = hold["root"], hold["R"]
        R.within(lambda x: sel(hold["vis"], x) if "vis" in hold else False)
        R.within(lambda x: sel(n.vdom, x))
        ctx.ensure("a part has the vertices that one of them reaches", forall([Name], lambda v: sel(n.vdom, v) == sel(R.R, v), lambda v: [sel(n.vdom, v), sel(R.R, v)]))
        ctx.ensure("a part is not empty", sel(n.vdom, root))
        ctx.ensure("a part has no vertex of another part", forall([Name], lambda v: z3.Implies(sel(n.vdom, v), z3.Not(sel(parts.cov, v)))))
        ctx.ensure("a part has its own vertex weights", forall([Name], lambda v: z3.Implies(sel(n.vdom, v), sel(n.vval, v) == sel(s.vval, v))))
        ctx.ensure("a part has its own adjacency", z3.And(n.gdom == n.vdom, forall([Name, Name], lambda u, v: z3.Implies(sel(n.gdom, u), n.adj(u, v) == s.adj(u, v)))))
        ctx.ensure("a part has its own edges", forall([Pair], lambda e: sel(n.edom, e) == z3.And(sel(s.edom, e), sel(R.R, sel_pair(e, 0)))))
        ctx.ensure("a part has its own edge weights", forall([Pair], lambda e: z3.Implies(sel(n.edom, e), sel(n.eval_, e) == sel(s.eval_, e))))
        ctx.ensure("a part is a well-formed graph", ug.wf(n))
        ctx.ensure("a part shares no set with the graph", forall([Name], lambda v: z3.Implies(sel(n.gdom, v), sel(n.gval, v) >= s.ptr), lambda v: sel(n.gval, v)))
        cov = ctx.fresh("covered", SetN)
        old = parts.cov
        ctx.assume(forall([Name], lambda v: sel(cov, v) == z3.Or(sel(old, v), sel(n.vdom, v)), lambda v: [sel(cov, v), sel(old, v), sel(n.vdom, v)]))
        parts.cov = cov
        parts.n = parts.n + 1
        hold["checked"] = True

    def unexp(l):
        u = l["unexplored"]
        if not isinstance(u, HSet):
            raise Unsupported("unexplored is not a set")
        u.fix(Name)
        return u.t

    def oenter(l):
        p = l["partitions"]
        if not isinstance(p, PList) or p.items:
            raise Unsupported("partitions is not an empty list")
        l["partitions"] = Parts(ctx, check)
        ctx.store(SETK, Name)

    def oinv(l):
        u, p = unexp(l), l["partitions"]
        if not isinstance(p, Parts):
            raise Unsupported("partitions is not the list of parts")
        st = ctx.store(SETK, Name)
        return [("unexplored vertices are vertices", forall([Name], lambda y: z3.Implies(sel(u, y), sel(s.gdom, y)), lambda y: sel(u, y))),
                ("vertices are unexplored or in a part", forall([Name], lambda y: sel(p.cov, y) == z3.And(sel(s.gdom, y), z3.Not(sel(u, y))), lambda y: [sel(p.cov, y), sel(u, y)])),
                ("the explored part is closed", forall([Name, Name], lambda y, z: z3.Implies(z3.And(sel(u, y), s.adj(y, z)), sel(u, z)), lambda y, z: z3.MultiPattern(sel(u, y), s.adj(y, z)))),
                ("the sets of the graph stay", forall([IntS], lambda r: z3.Implies(r < s.ptr, sel(st, r) == sel(s.store, r)), lambda r: sel(st, r)))]

    def otype(interp, old):
        return HSet(ctx, Name, ctx.fresh("unexplored", SetN))

    def ohavoc(l):
        ctx.stores[SETK] = ctx.fresh("store", ctx.stores[SETK].sort())

    outer = LoopSpec(oinv, enter=oenter, types={"unexplored": otype}, mods=lambda l: [l["partitions"], ("store", SETK)], havoc=ohavoc, kind="while")

    def sub(l):
        g, e, v = l["subgraph"], l["subedges"], l["subvertices"]
        return typed(g, Name, ("set", Name)), typed(e, Pair, RealS), typed(v, Name, RealS)

    def imods(l):
        return search_mods(l) + list(sub(l)) + [("store", SETK)]

    def enter(l):
        sub(l)
        q = bag(l)
        seen(l)
        root = q.first
        hold["root"] = root
        R = reach_from(ctx, s, root)
        u = unexp(l)
        R.within(lambda x: z3.And(sel(s.gdom, x), sel(u, x)))
        hold["R"] = R
        hold["ptr"] = ctx.ptr

    def fresh_sets(l):
        """The sets of the part under construction are its own."""
        g, e, v = sub(l)
        st = ctx.store(SETK, Name)
        vis = seen(l)
        return [
            ("the part has the visited vertices", z3.And(g.dom == vis, v.dom == vis)),
            ("the part has the adjacency of the visited vertices", forall([Name], lambda x: z3.Implies(sel(vis, x), z3.And(sel(g.val, x) >= hold["ptr"], sel(g.val, x) < ctx.ptr, sel(st, sel(g.val, x)) == sel(s.store, sel(s.gval, x)))), lambda x: sel(g.val, x))),
            ("the part has a set for each vertex", forall([Name, Name], lambda x, y: z3.Implies(z3.And(sel(vis, x), sel(vis, y), sel(g.val, x) == sel(g.val, y)), x == y), lambda x, y: z3.MultiPattern(sel(g.val, x), sel(g.val, y)))),
            ("the part has the weights of the visited vertices", forall([Name], lambda x: z3.Implies(sel(vis, x), sel(v.val, x) == sel(s.vval, x)), lambda x: sel(v.val, x))),
            ("the part has the weights of its edges", forall([Pair], lambda x: z3.Implies(sel(e.dom, x), z3.And(sel(s.edom, x), sel(e.val, x) == sel(s.eval_, x))), lambda x: [sel(e.val, x), sel(e.dom, x)])),
            ("the sets of the graph stay", forall([IntS], lambda r: z3.Implies(r < s.ptr, sel(st, r) == sel(s.store, r)), lambda r: sel(st, r))),
            ("other parts keep their sets", forall([IntS], lambda r: z3.Implies(r < hold["ptr"], sel(st, r) == sel(hold["st"], r)), lambda r: sel(st, r)))]

    def edges_of(l, extra=None):
        """Edges of the part: those with a visited end (and those of the current vertex met so far)."""
        g, e, v = sub(l)
        vis = seen(l)
        a, b = (lambda x: sel_pair(x, 0)), (lambda x: sel_pair(x, 1))
        if extra is None:
            return forall([Pair], lambda x: sel(e.dom, x) == z3.And(sel(s.edom, x), z3.Or(sel(vis, a(x)), sel(vis, b(x)))), lambda x: [sel(e.dom, x), sel(s.edom, x)])
        c, done = extra
        return forall([Pair], lambda x: sel(e.dom, x) == z3.And(sel(s.edom, x), z3.Or(sel(vis, a(x)), sel(vis, b(x)), z3.And(a(x) == c, sel(done, b(x))), z3.And(b(x) == c, sel(done, a(x))))),
                      lambda x: [sel(e.dom, x), sel(s.edom, x)])

    def ienter(l):
        enter(l)
        hold["st"] = ctx.store(SETK, Name)

    def iinv(l):
        hold["vis"] = seen(l)
        return search_inv(l, s, hold["root"], hold["R"].R) + fresh_sets(l) + [("the part has the edges at visited vertices", edges_of(l))]

    inner = LoopSpec(iinv, ienter, mods=imods, kind="while")

    def einv(l):
        g, e, v = sub(l)
        c = term(l["current"])
        return [("the part has the edges met so far", edges_of(l, (c, l.done))),
                ("the part has the weights of its edges", forall([Pair], lambda x: z3.Implies(sel(e.dom, x), z3.And(sel(s.edom, x), sel(e.val, x) == sel(s.eval_, x))), lambda x: [sel(e.val, x), sel(e.dom, x)]))]

    eloop = LoopSpec(einv, mods=lambda l: [sub(l)[1]], kind="for")
    it = Interp(ctx, ctx.program, {(UG + ".partition", 0): outer, (UG + ".partition", 1): inner, (UG + ".partition", 2): eloop}, {**ug.CONTRACTS})
    out = it.run(o, "partition")
    ctx.ensure("partition does not raise", not out.raised)
    if out.raised:
        return
    ctx.ensure("partition keeps the graph", z3.And(*[getattr(Snap(ctx, o), a) == getattr(s, a) for a in ("gdom", "gval", "edom", "eval_", "vdom", "vval")]))
    p = out.value
    if not isinstance(p, Parts):
        raise Unsupported("partition returns something else than its list of parts")
    ctx.ensure("every vertex is in a part", forall([Name], lambda v: sel(p.cov, v) == sel(s.vdom, v)))
    ctx.reach("partition returns")
