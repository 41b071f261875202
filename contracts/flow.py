"""Flows and residuals: the abstract residual capacity and contracts of the helpers."""
from unit import *
import dgr
from dgr import DSnap, SETK

DG = "DirectedGraph"
ArrP = z3.ArraySort(Pair, RealS)
ArrN = z3.ArraySort(Name, RealS)
RK = ("dict", "Name", "Real")


def flow_of(d):
    """The dict flow as (domain, values)."""
    d = typed(d, Pair, RealS)
    return d.dom, d.val


class Res:
    """Snapshot of a residual: a dict of dicts."""

    def __init__(self, ctx, d):
        d = typed(d, Name, ("dict", Name, RealS))
        self.d, self.dom, self.val = d, d.dom, d.val
        self.sdom = ctx.store(RK + ("dom",), z3.ArraySort(Name, BoolS), True)
        self.sval = ctx.store(RK + ("val",), ArrN, True)
        self.ptr = ctx.ptr

    def idom(self, u, v):
        return sel(sel(self.sdom, sel(self.val, u)), v)

    def has(self, u, v):
        return z3.And(sel(self.dom, u), self.idom(u, v))

    def cap(self, u, v):
        return sel(sel(self.sval, sel(self.val, u)), v)


STORES = [("store", RK + ("dom",)), ("store", RK + ("val",))]


def part(s, F, done, u, v):
    """Residual capacity from u to v counting the arcs in done only."""
    a, b = mkpair(u, v), mkpair(v, u)
    return z3.If(sel(done, a), sel(s.eval_, a) - F(a), z3.RealVal(0)) + z3.If(sel(done, b), F(b), z3.RealVal(0))


def rc(s, F, u, v):
    return part(s, F, s.edom, u, v)


def consistent(s, F, r, done=None, base=None):
    """The residual r holds exactly the positive residual capacities, in sets of its own."""
    done = s.edom if done is None else done
    return [
        ("residual entries are exactly the positive residual capacities", forall([Name, Name], lambda u, v: r.has(u, v) == (part(s, F, done, u, v) > 0), lambda u, v: [r.idom(u, v), sel(done, mkpair(u, v)), sel(done, mkpair(v, u))])),
        ("residual values are the residual capacities", forall([Name, Name], lambda u, v: z3.Implies(r.has(u, v), r.cap(u, v) == part(s, F, done, u, v)), lambda u, v: [r.cap(u, v), r.idom(u, v)])),
        ("residual rows are its own", z3.And(
            forall([Name], lambda u: z3.Implies(sel(r.dom, u), z3.And(sel(r.val, u) < r.ptr, *([sel(r.val, u) >= base] if base is not None else []))), lambda u: sel(r.val, u)),
            forall([Name, Name], lambda u, v: z3.Implies(z3.And(sel(r.dom, u), sel(r.dom, v), sel(r.val, u) == sel(r.val, v)), u == v), lambda u, v: z3.MultiPattern(sel(r.val, u), sel(r.val, v))))),
    ]


def get0(dom, val):
    """A flow as a total function: arcs left out count as zero."""
    return lambda a: z3.If(sel(dom, a), sel(val, a), z3.RealVal(0))


class ComputeResidual:
    """_compute_residual(flow) for a flow that is not negative on arcs: refuses with ArithmeticError when some arc
    carries more than its capacity, otherwise a consistent residual."""

    def apply(self, interp, v):
        ctx, o = interp.ctx, v["self"]
        s = DSnap(ctx, o)
        dom, val = flow_of(v["flow"])
        F = get0(dom, val)
        ctx.ensure("the residual is computed of a flow that is not negative", forall([Pair], lambda a: z3.Implies(sel(s.edom, a), F(a) >= 0)))
        ctx.ensure("the residual is computed on a well-formed digraph", dgr.wf(s))
        ok = forall([Pair], lambda a: z3.Implies(sel(s.edom, a), F(a) <= sel(s.eval_, a)), lambda a: sel(s.edom, a))
        if not ctx.branch(ok):
            raise PyRaise("ArithmeticError", "_compute_residual")
        base = ctx.ptr
        r = new_dict(ctx, "residual", Name, ("dict", Name, RealS))
        old = Res(ctx, r)
        for k in STORES:
            interp.havoc_obj(k)
            ctx.set_store(k[1], ctx.stores[k[1]])
        p = ctx.fresh("heap_ptr", IntS)
        ctx.assume(p >= base)
        ctx.ptr = p
        n = Res(ctx, r)
        for _, f in consistent(s, F, n, base=base):
            ctx.assume(f)
        ctx.assume(forall([IntS], lambda q: z3.Implies(q < base, z3.And(sel(n.sdom, q) == sel(old.sdom, q), sel(n.sval, q) == sel(old.sval, q))), lambda q: sel(n.sdom, q)))
        ctx.ghost.setdefault("residuals", []).append((s, dom, val, n))
        return r


def check_compute_residual(ctx):
    o = dgr.new_digraph(ctx)
    s = DSnap(ctx, o)
    fl = new_dict(ctx, "flow", Pair, RealS)
    dom, val = fl.dom, fl.val
    F = get0(dom, val)
    ctx.assume(forall([Pair], lambda a: z3.Implies(sel(s.edom, a), F(a) >= 0), lambda a: sel(s.edom, a)))
    base = ctx.ptr
    old = Res(ctx, new_dict(ctx, "r0", Name, ("dict", Name, RealS)))

    def frame(r):
        return forall([IntS], lambda q: z3.Implies(q < base, z3.And(sel(r.sdom, q) == sel(old.sdom, q), sel(r.sval, q) == sel(old.sval, q))), lambda q: [sel(r.sdom, q), sel(r.sval, q)])

    def inv(l):
        r = Res(ctx, l["residual"])
        return consistent(s, F, r, l.done, base) + [
            ("no arc so far carries more than its capacity", forall([Pair], lambda a: z3.Implies(sel(l.done, a), F(a) <= sel(s.eval_, a)), lambda a: sel(l.done, a))),
            ("other rows stay", frame(r))]

    spec = LoopSpec(inv, mods=lambda l: [typed(l["residual"], Name, ("dict", Name, RealS))] + STORES, kind="for")
    it = Interp(ctx, ctx.program, {(DG + "._compute_residual", 0): spec}, {**dgr.CONTRACTS})
    out = it.run(o, "_compute_residual", fl)
    over = z3.Exists([z3.Const("a_", Pair)], z3.And(sel(s.edom, z3.Const("a_", Pair)), F(z3.Const("a_", Pair)) > sel(s.eval_, z3.Const("a_", Pair))))
    ctx.ensure("the flow is not changed", z3.And(fl.dom == dom, fl.val == val))
    n = DSnap(ctx, o)
    ctx.ensure("the digraph is not changed", n.same(s))
    if out.raised:
        ctx.ensure("only flows above capacity are refused, with ArithmeticError", z3.And(out.exc.kind == "ArithmeticError", over))
        ctx.reach("refused")
        return
    ctx.ensure("flows above capacity are refused", z3.Not(over))
    r = Res(ctx, out.value)
    for nm, f in consistent(s, F, r, base=base):
        ctx.ensure(nm, f)
    ctx.ensure("other rows stay", frame(r))
    ctx.reach("returns")


class NewFromArcs:
    """DirectedGraph(arcs=arcs): see C04. Refuses loops; the arcs are exactly those given with their weights."""

    def apply(self, interp, v):
        ctx, o = interp.ctx, v["self"]
        if v.get("graph") is not None or v.get("nodes") is not None:
            raise Unsupported("construction from something else than arcs")
        if v.get("arcs") is None:
            raise Unsupported("construction of an empty digraph")
        a = v["arcs"]
        if isinstance(a, LazyDict) and a.real is None:
            a.as_type(Pair, RealS)
        a = typed(a, Pair, RealS)
        x = z3.Const("x_", Name)
        if ctx.branch(z3.Exists([x], sel(a.dom, mkpair(x, x)))):
            raise PyRaise("ValueError", "__init__")
        store0, ptr0 = ctx.store(SETK, Name), ctx.ptr
        o.attrs["_graph"] = new_dict(ctx, "graph", Name, ("set", Name))
        o.attrs["_arcs"] = new_dict(ctx, "arcs", Pair, RealS)
        o.attrs["_nodes"] = new_dict(ctx, "nodes", Name, RealS)
        interp.havoc_obj(("store", SETK))
        ctx.set_store(SETK, ctx.stores[SETK])
        p = ctx.fresh("heap_ptr", IntS)
        ctx.assume(p >= ptr0)
        ctx.ptr = p
        n = DSnap(ctx, o)
        ctx.assume(dgr.wf(n))
        ctx.assume(n.edom == a.dom)
        ctx.assume(forall([Pair], lambda e: z3.Implies(sel(n.edom, e), sel(n.eval_, e) == sel(a.val, e)), lambda e: sel(n.eval_, e)))
        ctx.assume(forall([IntS], lambda r: z3.Implies(r < ptr0, sel(n.store, r) == sel(store0, r)), lambda r: sel(n.store, r)))
        return None


RESIDUAL = {DG + "._compute_residual": ComputeResidual()}
