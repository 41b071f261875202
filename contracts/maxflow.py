"""Maximum flows: net outflow as finite sums, contracts of pushing and of the path search."""
from unit import *
import dgr
from dgr import DSnap
from flow import *
from flow import RK
from reach import mark

ArrNN, ArrNI, SetN = z3.ArraySort(Name, Name), z3.ArraySort(Name, IntS), z3.ArraySort(Name, BoolS)
SUMS = "finite sums: changing one entry changes the sum by the difference; a sum of zeros is zero; a positive sum has a positive entry"


class Cuts:
    """The arcs leaving and entering single nodes, and the net outflow of a flow."""

    def __init__(self, ctx, s):
        self.ctx, self.s = ctx, s
        SP = z3.ArraySort(Pair, BoolS)
        ctx.fresh_n += 1
        self.out = z3.Function(f"out!{ctx.fresh_n}", Name, SP)
        self.inn = z3.Function(f"in!{ctx.fresh_n}", Name, SP)
        e, x = z3.Const("e_", Pair), z3.Const("x_", Name)
        ctx.assume(z3.ForAll([x, e], sel(self.out(x), e) == z3.And(sel(s.edom, e), fst(e) == x), patterns=[sel(self.out(x), e)]))
        ctx.assume(z3.ForAll([x, e], sel(self.inn(x), e) == z3.And(sel(s.edom, e), snd(e) == x), patterns=[sel(self.inn(x), e)]))

    def net(self, F, x):
        sm = sum_fn(Pair)
        return sm(self.out(x), F) - sm(self.inn(x), F)

    def pat(self, F, x):
        sm = sum_fn(Pair)
        return [sm(self.out(x), F), sm(self.inn(x), F)]

    def updated(self, F, G, keys):
        """G is F stored at the given (different) keys: the sums change accordingly."""
        ctx = self.ctx
        ctx.result.assumed.add(SUMS)
        sm = sum_fn(Pair)
        x = z3.Const("x_", Name)
        for fam in (self.out, self.inn):
            d = lambda k: z3.If(sel(fam(x), k), sel(G, k) - sel(F, k), z3.RealVal(0))
            ctx.assume(z3.ForAll([x], sm(fam(x), G) == sm(fam(x), F) + z3.Sum([d(k) for k in keys]), patterns=[sm(fam(x), G)]))

    def zero(self, F):
        """Nodes whose leaving (entering) arcs all carry zero have sum zero; sums without positive entries are not positive."""
        ctx = self.ctx
        ctx.result.assumed.add(SUMS)
        sm = sum_fn(Pair)
        x = z3.Const("x_", Name)
        for fam in (self.out, self.inn):
            ctx.fresh_n += 1
            w, w2 = z3.Function(f"nz!{ctx.fresh_n}", Name, Pair), z3.Function(f"neg!{ctx.fresh_n}", Name, Pair)
            w3 = z3.Function(f"pos!{ctx.fresh_n}", Name, Pair)
            ctx.assume(z3.ForAll([x], z3.Or(z3.And(sel(fam(x), w(x)), sel(F, w(x)) != 0), sm(fam(x), F) == 0), patterns=[sm(fam(x), F)]))
            ctx.assume(z3.ForAll([x], z3.Or(z3.And(sel(fam(x), w2(x)), sel(F, w2(x)) < 0), sm(fam(x), F) >= 0), patterns=[sm(fam(x), F)]))
            ctx.assume(z3.ForAll([x], z3.Or(z3.And(sel(fam(x), w3(x)), sel(F, w3(x)) > 0), sm(fam(x), F) <= 0), patterns=[sm(fam(x), F)]))


class CutOf:
    """cut / ncut of one node at call sites (see C05)."""

    def __init__(self, cuts, which):
        self.cuts, self.which = cuts, which

    def apply(self, interp, v):
        x = v["nodes"]
        if not interp.is_name(x):
            raise Unsupported("cut of several nodes at a call site")
        t = (self.cuts.out if self.which == "cut" else self.cuts.inn)(term(x))
        return HSet(interp.ctx, Pair, t, kind="set" if self.which == "cut" else "enum")


def bounds(s, dom, val):
    return [("the flow has one entry per arc", dom == s.edom),
            ("the flow lies between zero and the capacities", forall([Pair], lambda a: z3.Implies(sel(s.edom, a), z3.And(sel(val, a) >= 0, sel(val, a) <= sel(s.eval_, a))), lambda a: [sel(val, a), sel(s.edom, a)]))]


def fn(val, dom):
    return get0(dom, val)


def pushed(s, F, G, u, v, amount):
    """G is F with amount pushed from u to v: only the two opposite arcs change, the net amount is exact."""
    a, b = mkpair(u, v), mkpair(v, u)
    return z3.And(G(a) - G(b) == F(a) - F(b) + amount)


class Push:
    """_push_flow(flow, residual, u, v, amount)."""

    def __init__(self, cuts=None):
        self.cuts = cuts

    def pre(self, s, dom, val, r, u, v, amount):
        F = fn(val, dom)
        return bounds(s, dom, val) + consistent(s, F, r) + [
            ("the amount pushed is available", z3.And(u != v, amount > 0, amount <= rc(s, F, u, v)))]

    def apply(self, interp, v):
        ctx, o = interp.ctx, v["self"]
        s = DSnap(ctx, o)
        fl = typed(v["flow"], Pair, RealS)
        r = Res(ctx, v["residual"])
        dom, val = fl.dom, fl.val
        a, b, amount = term(v["u"]), term(v["v"]), real(v["amount"])
        for n, f in self.pre(s, dom, val, r, a, b, amount):
            ctx.ensure("pushing: " + n, f)
        base = r.ptr
        x, y = ctx.fresh("f", RealS), ctx.fresh("f", RealS)
        k1, k2 = mkpair(a, b), mkpair(b, a)
        nval = ctx.fresh("flow", ArrP)
        ctx.assume(nval == z3.Store(z3.Store(val, k1, x), k2, y))
        ctx.assume(k1 != k2)
        fl.put(dom, nval)
        interp.havoc_obj(r.d)
        for k in STORES:
            interp.havoc_obj(k)
            ctx.set_store(k[1], ctx.stores[k[1]])
        p = ctx.fresh("heap_ptr", IntS)
        ctx.assume(p >= ctx.ptr)
        ctx.ptr = p
        n = Res(ctx, v["residual"])
        F, G = fn(val, dom), fn(nval, dom)
        for _, f in bounds(s, dom, nval) + consistent(s, G, n):
            ctx.assume(f)
        ctx.assume(pushed(s, F, G, a, b, amount))
        if self.cuts:
            self.cuts.updated(val, nval, [k1, k2])
        return None


def check_push(ctx):
    o = dgr.new_digraph(ctx)
    s = DSnap(ctx, o)
    fl = new_dict(ctx, "flow", Pair, RealS)
    rd = new_dict(ctx, "residual", Name, ("dict", Name, RealS))
    u, v, amount = ctx.fresh("u", Name), ctx.fresh("v", Name), ctx.fresh("amount", RealS)
    r = Res(ctx, rd)
    dom, val = fl.dom, fl.val
    F = fn(val, dom)
    for n, f in Push().pre(s, dom, val, r, u, v, amount):
        ctx.assume(f)
    it = Interp(ctx, ctx.program, {}, {**dgr.CONTRACTS})
    out = it.run(o, "_push_flow", fl, rd, SV(u), SV(v), SV(amount))
    ctx.ensure("pushing does not fail", not out.raised)
    if out.raised:
        return
    ctx.ensure("the digraph is not changed", DSnap(ctx, o).same(s))
    G = fn(fl.val, fl.dom)
    for n, f in bounds(s, fl.dom, fl.val):
        ctx.ensure("after pushing " + n, f)
    k1, k2 = mkpair(u, v), mkpair(v, u)
    ctx.ensure("only the two opposite arcs change", forall([Pair], lambda e: z3.Implies(z3.And(sel(s.edom, e), e != k1, e != k2), sel(fl.val, e) == sel(val, e))))
    ctx.ensure("the net flow grows by the amount", pushed(s, F, G, u, v, amount))
    n = Res(ctx, rd)
    for nm, f in consistent(s, G, n):
        ctx.ensure("after pushing " + nm, f)
    ctx.reach("returns")


class BfsPath:
    """_bfs_path(source, target, graph): None and a set containing the source but not the target that no entry
    leaves; or the parents of a search tree: ranks grow from parent to child, every parent entry is an entry of the
    graph, the source has no parent."""

    def apply(self, interp, v):
        ctx = interp.ctx
        r = Res(ctx, v["graph"])
        s, t = term(v["source"]), term(v["target"])
        ctx.ensure("a path is searched between different nodes", s != t)
        g = ctx.ghost.setdefault("search", {})
        if ctx.choose(2) == 1:
            S = ctx.fresh("S", SetN)
            ctx.assume(no_path(r, s, t, S))
            g["S"] = S
            return None
        d = new_dict(ctx, "parent", Name, Name)
        rank = ctx.fresh("rank", ArrNI)
        ctx.assume(tree(r, s, t, d.dom, d.val, rank))
        g["rank"] = rank
        return d


def no_path(r, s, t, S):
    return z3.And(sel(S, s), z3.Not(sel(S, t)), forall([Name, Name], lambda u, v: z3.Implies(z3.And(sel(S, u), r.has(u, v)), sel(S, v)), lambda u, v: z3.MultiPattern(sel(S, u), r.idom(u, v))))


def tree(r, s, t, dom, par, rank):
    return z3.And(sel(dom, t), z3.Not(sel(dom, s)), forall([Name], lambda x: z3.Implies(sel(dom, x), z3.And(
        r.has(sel(par, x), x), sel(rank, sel(par, x)) < sel(rank, x), z3.Or(sel(par, x) == s, sel(dom, sel(par, x))))), lambda x: sel(par, x)))


def check_bfs(ctx):
    o = dgr.new_digraph(ctx)
    rd = new_dict(ctx, "residual", Name, ("dict", Name, RealS))
    r = Res(ctx, rd)
    s, t = ctx.fresh("s", Name), ctx.fresh("t", Name)
    ctx.assume(s != t)
    hold = {"rank": z3.K(Name, z3.IntVal(0)), "time": z3.IntVal(1)}

    def parts(l):
        q, seen, par = l["queue"], l["seen"], l["parent"]
        if not isinstance(q, Bag) or not isinstance(seen, HSet):
            raise Unsupported("the search does not have the expected state")
        q.fix(Name)
        seen.fix(Name)
        return q, seen, typed(par, Name, Name)

    def inv(l, row=None):
        q, seen, par = parts(l)
        rk = hold["rank"]
        hold["seen"] = lambda: seen.t
        S = lambda x: sel(seen.t, x)
        out = [
            ("the source is seen and has no parent", z3.And(S(s), z3.Not(sel(par.dom, s)), hold["time"] > sel(rk, s))),
            ("the target is not seen", z3.Not(S(t))),
            ("seen nodes have a parent", forall([Name], lambda x: sel(par.dom, x) == z3.And(S(x), x != s), lambda x: [sel(par.dom, x), S(x)])),
            ("parents", forall([Name], lambda x: z3.Implies(sel(par.dom, x), z3.And(r.has(sel(par.val, x), x), S(sel(par.val, x)), sel(rk, sel(par.val, x)) < sel(rk, x))), lambda x: [sel(par.val, x), sel(par.dom, x)])),
            ("ranks are in the past", forall([Name], lambda x: z3.Implies(S(x), sel(rk, x) < hold["time"]), lambda x: [S(x), sel(rk, x)])),
            ("waiting nodes are seen", forall([Name], lambda x: z3.Implies(sel(q.cnt, x) > 0, S(x)), lambda x: sel(q.cnt, x)))]
        if row is None:
            out.append(("ends of entries at expanded nodes are seen", forall([Name, Name], lambda x, y: z3.Implies(z3.And(S(x), sel(q.cnt, x) == 0, r.has(x, y)), S(y)), lambda x, y: z3.MultiPattern(S(x), r.idom(x, y)))))
        else:
            c, done = row
            out.append(("the node being expanded is seen", S(c)))
            out.append(("ends of entries at expanded nodes are seen", forall([Name, Name], lambda x, y: z3.Implies(z3.And(S(x), sel(q.cnt, x) == 0, x != c, r.has(x, y)), S(y)), lambda x, y: z3.MultiPattern(S(x), r.idom(x, y)))))
            out.append(("ends met so far are seen", forall([Name], lambda y: z3.Implies(sel(done, y), S(y)), lambda y: sel(done, y))))
        return out

    def mods(l):
        return list(parts(l))

    def havoc(l):
        hold["rank"], hold["time"] = ctx.fresh("rank", ArrNI), ctx.fresh("time", IntS)

    def begin(l):
        hold["par0"] = parts(l)[2].dom

    def discovered(l):
        """Ghost: an endpoint that has just got its parent gets the next rank."""
        par, par0, x = parts(l)[2], hold["par0"], l.x
        new = z3.And(sel(par.dom, x), z3.Not(sel(par0, x)))
        hold["rank"] = z3.If(new, z3.Store(hold["rank"], x, hold["time"]), hold["rank"])
        hold["time"] = z3.If(new, hold["time"] + 1, hold["time"])
        r2 = ctx.fresh("rank", ArrNI)
        ctx.assume(r2 == hold["rank"])
        hold["rank"] = r2

    def begin1(l):
        begin(l)
        hold["in"] = l

    def row(l):
        return term(l["current"]), l.done
    q = DG + "._bfs_path"
    loops = {(q, 0): LoopSpec(inv, mods=mods, havoc=havoc, kind="while"),
             (q, 1): LoopSpec(lambda l: inv(l, row(l)), mods=mods, havoc=havoc, begin=begin1, step=discovered, kind="for")}
    it = Interp(ctx, ctx.program, loops, {})
    out = it.run(o, "_bfs_path", SV(s), SV(t), rd)
    ctx.ensure("the search does not fail", not out.raised)
    if out.raised:
        return
    ctx.ensure("the search leaves the residual", z3.And(rd.dom == r.dom, rd.val == r.val))
    if out.value is None:
        # the set of seen nodes is the witness
        S = hold["seen"]()
        ctx.ensure("without a path no entry leaves the seen nodes", no_path(r, s, t, S))
        ctx.reach("no path")
        return
    p = typed(out.value, Name, Name)
    if "in" not in hold:
        raise Unsupported("parents are returned outside the search")
    discovered(hold["in"])
    ctx.ensure("a found path is a tree of entries from the source", tree(r, s, t, p.dom, p.val, hold["rank"]))
    ctx.reach("path")
