"""C09: the residual digraph."""
from unit import *
import dgr, flow
from dgr import DSnap
from flow import *


@unit("DirectedGraph._compute_residual", "C09", "C07", "C08", shared=("C07", "C08", "C09"))
def u_cr(ctx):
    check_compute_residual(ctx)


@unit("DirectedGraph.create_residual", "C09")
def u_create(ctx):
    o = dgr.new_digraph(ctx)
    s = DSnap(ctx, o)
    fl = new_dict(ctx, "flow", Pair, RealS)
    dom, val = fl.dom, fl.val
    F = get0(dom, val)
    a = z3.Const("a_", Pair)
    bad = z3.Exists([a], z3.Or(z3.And(sel(dom, a), z3.Or(z3.Not(sel(s.edom, a)), sel(val, a) < 0)),
                               z3.And(sel(s.edom, a), z3.Or(sel(s.eval_, a) < 0, F(a) > sel(s.eval_, a)))))
    hold = {}

    def arcs(l):
        return typed(l["arcs"], Pair, RealS)

    def residual(l):
        return Res(ctx, l["residual"])

    def inv(l, row=None):
        d, r = arcs(l), residual(l)
        done = hold["l"].done if row is None else hold["l"].done
        x = (lambda e: sel_pair(e, 0)), (lambda e: sel_pair(e, 1))
        got = lambda e: z3.Or(z3.And(sel(done, x[0](e)), r.has(x[0](e), x[1](e))), *([z3.And(x[0](e) == row[0], sel(row[1], x[1](e)))] if row else []))
        return [("the arcs are the residual entries met so far", forall([Pair], lambda e: sel(d.dom, e) == got(e), lambda e: sel(d.dom, e))),
                ("with their values", forall([Pair], lambda e: z3.Implies(sel(d.dom, e), sel(d.val, e) == r.cap(x[0](e), x[1](e))), lambda e: sel(d.val, e)))]

    def inv0(l):
        hold["l"] = l
        return inv(l)

    def inv1(l):
        return inv(l, (hold["l"].x, l.done))

    q = DG + ".create_residual"
    loops = {(q, 0): LoopSpec(inv0, mods=lambda l: [arcs(l)], kind="for"), (q, 1): LoopSpec(inv1, mods=lambda l: [arcs(l)], kind="for")}
    it = Interp(ctx, ctx.program, loops, {**dgr.CONTRACTS, **flow.RESIDUAL, DG + ".__init__": NewFromArcs()})
    out = it.run(o, "create_residual", fl)
    ctx.ensure("the flow is not changed", z3.And(fl.dom == dom, fl.val == val))
    n = DSnap(ctx, o)
    ctx.ensure("the digraph is not changed", z3.And(*[getattr(n, k) == getattr(s, k) for k in ("gdom", "gval", "edom", "eval_", "vdom", "vval")],
                                                    forall([IntS], lambda r: z3.Implies(r < s.ptr, sel(n.store, r) == sel(s.store, r)))))
    if out.raised:
        ctx.ensure("only bad flows and capacities are rejected", bad)
        ctx.ensure("rejected with ValueError or ArithmeticError", out.exc.kind in ("ValueError", "ArithmeticError"))
        ctx.reach("rejected")
        return
    ctx.ensure("bad flows and capacities are rejected", z3.Not(bad))
    if not isinstance(out.value, Obj) or out.value is o:
        ctx.ensure("the residual is a new digraph", False)
        return
    m = DSnap(ctx, out.value)
    R = lambda u, v: rc(s, F, u, v)
    ctx.ensure("there is an arc exactly where capacity remains", forall([Name, Name], lambda u, v: sel(m.edom, mkpair(u, v)) == (R(u, v) > 0)))
    ctx.ensure("its weight is the remaining capacity", forall([Name, Name], lambda u, v: z3.Implies(sel(m.edom, mkpair(u, v)), sel(m.eval_, mkpair(u, v)) == R(u, v))))
    ctx.ensure("the residual digraph is well-formed", dgr.wf(m))
    ctx.reach("returns")
