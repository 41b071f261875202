"""C27: the stable-set formulation of an undirected graph."""
from lp import *
from c10 import INIT
import ug
from ug import Snap, wf, new_graph
import interp as I

FORM = "UndirectedGraph.formulate_max_stable_set"


class Rows:
    """Ghost state of the loop over the edges: which edge gave which row."""

    def __init__(self, ctx):
        self.ctx, self.k = ctx, z3.IntVal(0)
        self.edge, self.at = ctx.fresh("edge_of", z3.ArraySort(IntS, Pair)), ctx.fresh("row_of", z3.ArraySort(Pair, IntS))

    def havoc(self):
        self.k = self.ctx.fresh("k", IntS)
        self.edge, self.at = self.ctx.fresh("edge_of", z3.ArraySort(IntS, Pair)), self.ctx.fresh("row_of", z3.ArraySort(Pair, IntS))


def mapping_of(ctx, v):
    if not isinstance(v, (HDict, LazyDict)):
        raise Unsupported(f"mapping is {v!r}")
    return typed(v, Name, IntS)


def ends(m, e, j):
    """Column j belongs to an endpoint of the edge e."""
    return z3.Or(j == S(m.val, fst(e)), j == S(m.val, snd(e)))


def one_if(f):
    return z3.If(f, R1, R0)


def form_loops():
    def rows(L):
        if not hasattr(L, "S"):
            raise Unsupported("the rows are not made edge by edge")
        return L.ctx.ghost["rows"]

    def mat(L, n):
        A = L["A"]
        if not isinstance(A, Nd) or A.nd != n:
            raise Unsupported(f"A is {A!r}")
        return A

    def enter(L):
        L.ctx.ghost["rows"] = Rows(L.ctx)
        L.ctx.assume(I.card_fn(Pair)(L.done) == 0)

    def grow(interp, old):
        h = interp.ctx.fresh("height", IntS)
        interp.ctx.assume(h >= 0)
        return nd.fresh(interp.ctx, "A", [h, old.dims[1]])

    def longer(interp, old):
        h = interp.ctx.fresh("length", IntS)
        interp.ctx.assume(h >= 0)
        return nd.fresh(interp.ctx, "b", [h])

    def step(L):
        g, ctx = rows(L), L.ctx
        before = g.done_before
        g.edge, g.at, g.k = z3.Store(g.edge, g.k, L.x), z3.Store(g.at, L.x, g.k), g.k + 1
        card = I.card_fn(Pair)
        ctx.assume(card(L.done) == card(before) + 1)
        ctx.result.assumed.add("finite cardinality: one more element makes a set larger by one")

    def begin(L):
        rows(L).done_before = L.done

    def inv(L):
        g, A, m = rows(L), mat(L, 2), mapping_of(L.ctx, L["mapping"])
        q, e = z3.Int("q_"), z3.Const("e_", Pair)
        f = A.real_fn()
        at = S(g.at, e)
        return [("one row per edge so far", z3.And(g.k >= 0, A.dims[0] == g.k + 1, I.card_fn(Pair)(L.done) == g.k)),
                ("rows are as wide as there are vertices", A.dims[1] == term(L["columns"])),
                ("every edge so far has its row", z3.ForAll([e], z3.Implies(S(L.done, e), z3.And(0 <= at, at < g.k, S(g.edge, at) == e)), patterns=[S(L.done, e), at])),
                ("every row is of an edge", z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < g.k), S(L.done, S(g.edge, q))), patterns=[S(g.edge, q)])),
                ("the rows so far", quantify(L.ctx, A.dims, lambda p, j: z3.Implies(p >= 1, f(p, j) == one_if(ends(m, S(g.edge, p - 1), j)))))]

    # ---- the objective
    def weights(L):
        if not hasattr(L, "S"):
            raise Unsupported("the objective is not made vertex by vertex")
        m, s, c = mapping_of(L.ctx, L["mapping"]), L.ctx.ghost["graph"], L["c"]
        if not isinstance(c, Nd) or c.nd != 1:
            raise Unsupported(f"c is {c!r}")
        x = z3.Const("x_", Name)
        f = c.real_fn()
        return [("the weights so far", z3.ForAll([x], z3.Implies(S(L.done, x), f(S(m.val, x)) == S(s.vval, x)), patterns=[S(m.val, x), S(L.done, x)]))]

    # ---- at most one
    def inv3(L):
        A, b = mat(L, 2), L["b"]
        if not isinstance(b, Nd) or b.nd != 1:
            raise Unsupported(f"b is {b!r}")
        if not hasattr(L, "i"):
            raise Unsupported("the bounds are not made in order")
        g, m = L.ctx.ghost["rows"], mapping_of(L.ctx, L["mapping"])
        f, h = A.real_fn(), b.real_fn()
        return [("one more row per column so far", z3.And(A.dims[0] == g.k + L.i, b.dims[0] == g.k + L.i)),
                ("rows are as wide as there are vertices", A.dims[1] == term(L["columns"])),
                ("the rows of the edges stay", quantify(L.ctx, A.dims, lambda p, j: z3.Implies(p < g.k, f(p, j) == one_if(ends(m, S(g.edge, p), j))))),
                ("the rows of the columns", quantify(L.ctx, A.dims, lambda p, j: z3.Implies(p >= g.k, f(p, j) == one_if(j == p - g.k)))),
                ("the right-hand sides are one", quantify(L.ctx, b.dims, lambda p: h(p) == 1))]
    return {(FORM, 0): LoopSpec(inv, enter=enter, havoc=lambda L: rows(L).havoc(), begin=begin, step=step, types={"A": grow}),
            (FORM, 1): LoopSpec(weights, mods=lambda L: [L["c"]]),
            (FORM, 2): LoopSpec(inv3, types={"A": grow, "b": longer})}


@unit(FORM.split(".")[1], "C27", functions=[FORM, "UndirectedGraph.is_empty", "IntegerProgram.__init__"], limit=120)
def u_formulate(ctx):
    o = new_graph(ctx)
    s = ctx.ghost["graph"] = Snap(ctx, o)
    ctx.assume(S(s.vdom, ctx.fresh("some", Name)))
    it = Interp(ctx, ctx.program, form_loops(), {**LPC, **INIT})
    out = it.run(o, "formulate_max_stable_set")
    ctx.ensure("the formulation does not raise", not out.raised)
    ctx.ensure("the graph is not changed", s.same(Snap(ctx, o)))
    if out.raised:
        return
    r = out.value
    ctx.ensure("a program and a mapping are returned", isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], Obj))
    if not isinstance(r, tuple):
        return
    ip, mp = r
    ctx.ensure("the program is an integer program, all variables integral", ip.cls.name == "IntegerProgram" and attr(ip, "_integral_variables") is None)
    t, m = P(ctx, ip), mapping_of(ctx, mp)
    v, w, j, i = ctx.fresh("v", Name), ctx.fresh("w", Name), ctx.fresh("j", IntS), ctx.fresh("i", IntS)
    M = lambda y: S(m.val, y)
    ctx.ensure("the mapping is defined exactly on the vertices", S(m.dom, v) == S(s.vdom, v))
    ctx.ensure("every vertex has a column", z3.Implies(S(s.vdom, v), z3.And(0 <= M(v), M(v) < t.n)))
    ctx.ensure("different vertices have different columns", z3.Implies(z3.And(S(s.vdom, v), S(s.vdom, w), M(v) == M(w)), v == w))
    ctx.ensure("there are as many columns as vertices", t.n == I.card_fn(Name)(s.vdom))
    ctx.ensure("the objective maximises, without a constant", z3.And(t.obj == MAX, t.z == 0))
    ctx.ensure("the objective is the total weight", z3.Implies(S(s.vdom, v), t.c(M(v)) == S(s.vval, v)))
    inj = z3.And(0 <= j, j < t.n)
    ctx.ensure("every variable is nonnegative", z3.Implies(inj, z3.And(z3.Not(t.isfree(j)), z3.Not(t.isneg(j)))))
    ctx.ensure("every relation is at most", z3.Implies(z3.And(0 <= i, i < t.m), t.le(i)))
    g = ctx.ghost.get("rows")
    if g is None:
        raise Unsupported("the rows were not made as the contract says")
    # ---- any integral vector of the size of the program
    X = ctx.fresh("x", la.Vec)
    q = z3.Int("q_")
    ctx.assume(z3.ForAll([q], z3.IsInt(S(X, q)), patterns=[S(X, q)]))
    A = t.arrs()[0]
    row = lambda p: S(A, p)
    e = S(g.edge, i)

    def two(u, a, b):
        """Instance of a law: a dot product with a vector of two ones."""
        la.law(ctx, "two", u, a, b, X)

    def one(u, a):
        la.law(ctx, "one", u, a, X)
    sat = lambda p: dot(row(p), X) <= t.b(p)
    stable = lambda y, z: z3.Implies(S(s.edom, mkpair(y, z)), z3.Not(z3.And(S(X, M(y)) == 1, S(X, M(z)) == 1)))
    binary = lambda k: z3.Or(S(X, k) == 0, S(X, k) == 1)
    if ctx.choose(2) == 0:
        # feasible: every row and every sign
        ctx.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < t.m), sat(q)), patterns=[row(q)]))
        ctx.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < t.n), S(X, q) >= 0), patterns=[S(X, q)]))
        p = g.k + j
        one(row(p), j)
        ctx.ensure("feasible points are zero-one vectors", z3.Implies(inj, binary(j)))
        pe = S(g.at, mkpair(v, w))
        two(row(pe), M(v), M(w))
        ctx.ensure("feasible points select no two adjacent vertices", stable(v, w))
    else:
        y, z = z3.Consts("y_ z_", Name)
        ctx.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < t.n), binary(q)), patterns=[S(X, q)]))
        ctx.assume(z3.ForAll([y, z], stable(y, z), patterns=[S(s.edom, mkpair(y, z))]))
        two(row(i), M(fst(e)), M(snd(e)))
        one(row(i), i - g.k)
        ctx.mention(S(s.edom, mkpair(fst(e), snd(e))))
        ctx.ensure("every stable set is a feasible point: rows", z3.Implies(z3.And(0 <= i, i < t.m), sat(i)))
        ctx.ensure("every stable set is a feasible point: signs", z3.Implies(inj, S(X, j) >= 0))
    ctx.reach("formulated")
