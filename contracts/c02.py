"""DisjointSet: parent forest with a ghost root function and ghost depths."""
from unit import *

MOD = "pytimize.utilities._disjoint"
ArrNN, ArrNI = z3.ArraySort(Name, Name), z3.ArraySort(Name, IntS)


def wf(dom, par, root, depth):
    """`root` is where the parent chain of every element ends; depths strictly decrease along the chain."""
    F = lambda body, pat: forall([Name], lambda x: z3.Implies(sel(dom, x), body(x)), pat)
    P, R = (lambda x: sel(par, x)), (lambda x: sel(root, x))
    return z3.And(
        F(lambda x: sel(dom, P(x)), P),
        F(lambda x: R(P(x)) == R(x), P),
        F(lambda x: z3.Implies(P(x) == x, R(x) == x), P),
        F(lambda x: z3.Implies(P(x) != x, z3.And(sel(depth, P(x)) < sel(depth, x), R(x) != x)), P),
        F(lambda x: sel(dom, R(x)), R),
        F(lambda x: z3.And(P(R(x)) == R(x), R(R(x)) == R(x)), R),
        F(lambda x: z3.Implies(R(x) != x, sel(depth, R(x)) < sel(depth, x)), R),
        F(lambda x: sel(depth, x) >= 0, lambda x: sel(depth, x)))


def state(ctx):
    """An arbitrary well-formed disjoint set."""
    o = Obj(ctx, cls(ctx, MOD, "DisjointSet"))
    s, r = new_dict(ctx, "set", Name, Name), new_dict(ctx, "rank", Name, RealS)
    o.attrs["_set"], o.attrs["_rank"] = s, r
    o.root, o.depth = ctx.fresh("root", ArrNN), ctx.fresh("depth", ArrNI)
    ctx.assume(wf(s.dom, s.val, o.root, o.depth))
    ctx.assume(r.dom == s.dom)
    return o


def parts(o):
    return typed(attr(o, "_set"), Name, Name), typed(attr(o, "_rank"), Name, RealS)


def apply_find(interp, v):
    """find(x): ValueError outside the set; otherwise the root of x, with the same members and the same roots."""
    ctx, o = interp.ctx, v["self"]
    s, r = parts(o)
    t = term(v["search"])
    if not ctx.branch(sel(s.dom, t)):
        raise PyRaise("ValueError", "find")
    if getattr(o, "find_depth", None) is not None:
        ctx.ensure("find: the recursion goes to a smaller depth", sel(o.depth, t) < o.find_depth)
    ctx.ensure("find is called on a well-formed set", z3.And(wf(s.dom, s.val, o.root, o.depth), r.dom == s.dom))
    par, depth = ctx.fresh("set", ArrNN), ctx.fresh("depth", ArrNI)
    ctx.assume(wf(s.dom, par, o.root, depth))
    # elements on other chains keep their parents; compression points straight at the root
    ctx.assume(forall([Name], lambda x: z3.Implies(sel(s.dom, x), sel(depth, x) <= sel(o.depth, x)), lambda x: sel(depth, x)))
    s.put(s.dom, par)
    o.depth = depth
    return from_term(sel(o.root, t))


FIND = {"DisjointSet.find": Contract(apply_find)}


@unit("DisjointSet.find", "C02")
def u_find(ctx):
    o = state(ctx)
    s, r = parts(o)
    x = ctx.fresh("x", Name)
    dom0, par0, depth0, rank0 = s.dom, s.val, o.depth, r.val
    o.find_depth = sel(depth0, x)
    it = Interp(ctx, ctx.program, {}, FIND)
    out = it.run(o, "find", SV(x))
    s, r = parts(o)
    if out.raised:
        ctx.ensure("find raises only ValueError and only for unknown items", z3.And(out.exc.kind == "ValueError", z3.Not(sel(dom0, x))))
        ctx.ensure("a refused find changes nothing", z3.And(s.dom == dom0, s.val == par0, r.val == rank0, r.dom == dom0))
        ctx.reach("find raises")
        return
    ctx.ensure("find accepts only members", sel(dom0, x))
    ctx.ensure("find returns the root", term(out.value) == sel(o.root, x))
    ctx.ensure("find keeps the members", z3.And(s.dom == dom0, r.dom == dom0))
    ctx.ensure("the representative is a member", sel(s.dom, term(out.value)))
    ctx.ensure("find keeps every root and the depths decreasing", wf(s.dom, s.val, o.root, o.depth))
    ctx.ensure("find never deepens an element", forall([Name], lambda y: z3.Implies(sel(dom0, y), sel(o.depth, y) <= sel(depth0, y))))
    ctx.reach("find returns")


@unit("DisjointSet.union", "C02")
def u_union(ctx):
    o = state(ctx)
    s, r = parts(o)
    a, b = ctx.fresh("a", Name), ctx.fresh("b", Name)
    dom0, root0, par0, rank0 = s.dom, o.root, s.val, r.val
    it = Interp(ctx, ctx.program, {}, FIND)
    out = it.run(o, "union", SV(a), SV(b))
    s, r = parts(o)
    if out.raised:
        ctx.ensure("union raises only ValueError and only for unknown items", z3.And(out.exc.kind == "ValueError", z3.Not(z3.And(sel(dom0, a), sel(dom0, b)))))
        ctx.ensure("a refused union keeps members and roots", z3.And(s.dom == dom0, r.dom == dom0, wf(s.dom, s.val, root0, o.depth)))
        ctx.reach("union raises")
        return
    ctx.ensure("union accepts only members", z3.And(sel(dom0, a), sel(dom0, b)))
    ra, rb = sel(root0, a), sel(root0, b)
    # the merged root is whichever of the two roots is still its own parent
    top = z3.If(sel(s.val, ra) == ra, ra, rb)
    low = z3.If(sel(s.val, ra) == ra, rb, ra)
    root1, depth1 = ctx.fresh("root", ArrNN), ctx.fresh("depth", ArrNI)
    q = z3.Const("q_", Name)
    inlow = z3.And(sel(root0, q) == low, low != top)
    ctx.assume(z3.ForAll([q], sel(root1, q) == z3.If(z3.Or(sel(root0, q) == ra, sel(root0, q) == rb), top, sel(root0, q)), patterns=[sel(root1, q)]))
    ctx.assume(z3.ForAll([q], sel(depth1, q) == sel(o.depth, q) + z3.If(inlow, 1 + sel(o.depth, top), z3.IntVal(0)), patterns=[sel(depth1, q)]))
    ctx.ensure("union keeps the members", z3.And(s.dom == dom0, r.dom == dom0))
    ctx.ensure("after union the chains end at the merged roots", wf(s.dom, s.val, root1, depth1))
    u, v = ctx.fresh("u", Name), ctx.fresh("v", Name)
    ctx.assume(z3.And(sel(dom0, u), sel(dom0, v)))
    R0 = lambda x, y: sel(root0, x) == sel(root0, y)
    ctx.ensure("union joins exactly the two classes",
               (sel(root1, u) == sel(root1, v)) == z3.Or(R0(u, v), z3.And(R0(u, a), R0(v, b)), z3.And(R0(u, b), R0(v, a))))
    ctx.reach("union returns")


@unit("DisjointSet.__init__", "C02")
def u_init(ctx):
    n = ctx.fresh("n", IntS)
    ctx.assume(n >= 0)
    items = SSeq(ctx, n, ctx.fresh("items", z3.ArraySort(IntS, Name)), Name)
    arr = items.arr
    i, j = z3.Ints("i_ j_")
    distinct = z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), sel(arr, i) != sel(arr, j)))

    def inv(l):
        s, r = parts(l["self"])
        d = [("members are the items so far", forall([IntS], lambda i: z3.Implies(z3.And(0 <= i, i < l.i), sel(s.dom, sel(arr, i))), lambda i: sel(arr, i)))]
        w = l.g["w"]
        d.append(("only items are members", forall([Name], lambda x: z3.Implies(sel(s.dom, x), z3.And(0 <= sel(w, x), sel(w, x) < l.i, sel(arr, sel(w, x)) == x, sel(s.val, x) == x)), lambda x: sel(s.dom, x))))
        d.append(("every member has a rank", r.dom == s.dom))
        return d

    def enter(l):
        l.g["w"] = ctx.fresh("w", ArrNI)
        parts(l["self"])

    def havoc(l):
        l.g["w"] = ctx.fresh("w", ArrNI)

    def begin(l):
        l.g["x"] = sel(arr, l.i)
        l.g["i"] = l.i
        l.g["had"] = sel(parts(l["self"])[0].dom, sel(arr, l.i))

    def step(l):
        l.g["w"] = z3.If(l.g["had"], l.g["w"], z3.Store(l.g["w"], l.g["x"], l.g["i"]))

    spec = LoopSpec(inv, enter, mods=lambda l: list(parts(l["self"])), havoc=havoc, begin=begin, step=step, kind="for")
    o = Obj(ctx, cls(ctx, MOD, "DisjointSet"))
    it = Interp(ctx, ctx.program, {("DisjointSet.__init__", 0): spec}, {})
    # a set of the items has as many elements as the list exactly when nothing repeats (finite cardinality)
    ctx.ghost["distinct_card"] = True
    out = it.run(o, "__init__", items)
    if out.raised:
        ctx.ensure("construction refuses only duplicates, with ValueError", z3.And(out.exc.kind == "ValueError", z3.Not(distinct)), hints=card_seq(ctx, arr, n))
        ctx.reach("init raises")
        return
    ctx.ensure("construction accepts only distinct items", distinct, hints=card_seq(ctx, arr, n))
    s, r = parts(o)
    zero = z3.K(Name, z3.IntVal(0))
    ident = ctx.fresh("id", ArrNN)
    ctx.assume(forall([Name], lambda x: sel(ident, x) == x, lambda x: sel(ident, x)))
    ctx.ensure("initially every item is alone", z3.And(wf(s.dom, s.val, ident, zero), r.dom == s.dom))
    ctx.ensure("the members are the items", forall([IntS], lambda i: z3.Implies(z3.And(0 <= i, i < n), sel(s.dom, sel(arr, i)))))
    ctx.ensure("nothing else is a member", forall([Name], lambda x: z3.Implies(sel(s.dom, x), z3.Exists([i], z3.And(0 <= i, i < n, sel(arr, i) == x)))))
    ctx.reach("init returns")


def card_seq(ctx, arr, n):
    """Library fact: the set of the n entries of a sequence has n elements exactly when they are distinct."""
    ctx.result.assumed.add("finite cardinality: the set of the entries of a list of length n has n elements exactly when the entries are distinct")
    out = []
    for ks, S in ctx.ghost.get("cards", []):
        i, j = z3.Ints("i_ j_")
        x = z3.Const("x_", Name)
        is_img = z3.And(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), sel(S, sel(arr, i))), patterns=[sel(arr, i)]),
                        z3.ForAll([x], z3.Implies(sel(S, x), z3.Exists([i], z3.And(0 <= i, i < n, sel(arr, i) == x)))))
        distinct = z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), sel(arr, i) != sel(arr, j)))
        if ctx.holds(is_img):
            out.append((I.card_fn(ks)(S) == n) == distinct)
    return out
