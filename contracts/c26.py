"""C26: the parsers of graphs and linear expressions.

A text is either written in one of the notations (then it is a sequence of tokens, whose parts are functions of the
token number) or in none of them; which texts a parser takes is decided on languages, what it returns on the tokens."""
from unit import *
from lp import S, SeqIter, grown, exc_is
import nd
import text
from text import Notation, Seg, Text, W, D, SPACE
from core import Triple
from nd import quantify

A_, B_, W_ = (z3.Function(f"token_{x}", IntS, Name) for x in ("from", "to", "weight"))
SG, CO, IX = (z3.Function(f"token_{x}", IntS, Name) for x in ("sign", "coefficient", "index"))
NUM, WHOLE = text.number_of, text.whole_of


def decimal(label):
    return [[Seg(D, True, label)], [Seg(D, True, label), Seg(".", False, label), Seg(D, True, label)]]


def graph_notations():
    two = [Seg(W, False, "a"), Seg(W, False, "b")]
    hyphen = [Seg(W, True, "a"), Seg("-"), Seg(W, True, "b")]
    out = []
    for name, ends in (("two characters", two), ("hyphenated", hyphen)):
        out.append(Notation(name, [ends], None, [Seg(SPACE)]))
    for name, ends in (("two characters, weighted", two), ("hyphenated, weighted", hyphen)):
        out.append(Notation(name, [ends + [Seg(":")] + d for d in decimal("w")], None, [Seg(SPACE)]))
    return out


def linear_notation():
    body = lambda sign: [sign + d + [Seg("x"), Seg("_"), Seg(D, True, "i")] for d in decimal("c")]
    return Notation("sum of terms", body([]) + body([Seg("-", False, "?s")]), body([Seg("+-", False, "?s")]))


def written(f, tag):
    def value(i):
        return SV(f(i), tag)
    return value


VALUES = {"a": written(A_, "word"), "b": written(B_, "word"), "w": written(W_, "decimal"),
          "?s": written(SG, "sign"), "c": written(CO, "decimal"), "i": written(IX, "digits")}


def facts(ctx):
    """What the parts of tokens are."""
    k = z3.Int("k_")
    for f in (A_, B_, W_, CO, IX):
        ctx.assume(z3.ForAll([k], z3.Not(name_empty(f(k))), patterns=[f(k)]))
    ctx.assume(z3.ForAll([k], z3.Or(SG(k) == lit("+"), SG(k) == lit("-"), SG(k) == lit("")), patterns=[SG(k)]))
    ctx.assume(z3.ForAll([k], WHOLE(IX(k)) >= 0, patterns=[IX(k)]))


def given(ctx, notations, which):
    """An arbitrary text written in notations[which] (a trailing line break allowed), or in none of them."""
    n = notations[which] if which < len(notations) else None
    t = Text(ctx, n, VALUES)
    nl = text.re_of_chars(frozenset("\n"))
    t.newline = False
    if n is not None:
        t.newline = ctx.choose(2) == 1
        t.learn(z3.InRe(t.z, text.cat(n.language(), nl) if t.newline else n.language()))
    else:
        for m in notations:
            t.learn(z3.Not(z3.InRe(t.z, text.cat(m.language(), z3.Option(nl)))))
    facts(ctx)
    return t


def never(ctx, name, t):
    """No text leads here: an obligation on the languages alone."""
    if ctx.replaying():
        return
    pc, ctx.pc = ctx.pc, list(t.facts)
    try:
        ctx.ensure(name, z3.BoolVal(False))
    finally:
        ctx.pc = pc
    if name in ctx.result.failed:
        ctx.result.failed[name] += f"; for the text {t.example()!r}"


def static(ctx, module, klass, name):
    f = func(ctx, module, klass, name)
    if cls(ctx, module, klass).kinds.get(name) != "staticmethod":
        raise Unsupported(f"{klass}.{name} is not static")
    return f


GRAPH, LINEAR = "pytimize.parsers._graph", "pytimize.parsers._linear"


def triples(ctx, r):
    if isinstance(r, SSeq) and r.sort == Triple:
        return r
    if isinstance(r, PList):
        raise Unsupported("a list of known length")
    raise Unsupported(f"the result is {r!r}")


def graph_loops(weighted):
    def inv(L):
        r = grown(L["result"], Triple)
        k = z3.Int("k_")
        at = S(r.arr, k)
        return [("one entry per edge so far", r.n == L.i),
                ("the entries are the edges", z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < L.i), at == edge(k, weighted)), patterns=[at]))]
    return {("GraphParser.parse", 0): LoopSpec(inv, mods=lambda L: [L["result"]], kind="for")}


def edge(k, weighted):
    return Triple.triple(A_(k), B_(k), NUM(W_(k)) if weighted else z3.RealVal(0))


def graph_unit(which):
    ns = graph_notations()
    name = ns[which].name if which < len(ns) else "none"

    @unit(f"GraphParser.parse of a text in notation: {name}", "C26", functions=["GraphParser.parse", "GraphParser.get_expression_type"])
    def u(ctx):
        t = given(ctx, ns, which)
        weighted = which in (2, 3)
        it = Interp(ctx, ctx.program, graph_loops(weighted))
        out = it.run(static(ctx, GRAPH, "GraphParser", "parse"), None, SV(t.name))
        if which == len(ns):
            if not out.raised:
                never(ctx, "a text in no notation is rejected", t)
            else:
                ctx.ensure("the rejection is a ValueError", exc_is(out, "ValueError"))
                ctx.reach("rejected")
            return
        if out.raised:
            if not t.newline:
                never(ctx, "a text in the notation is accepted", t)
            elif not exc_is(out, "ValueError"):
                never(ctx, "a rejection is a ValueError", t)
            return
        ctx.reach("accepted")
        r = triples(ctx, out.value)
        k = ctx.fresh("k", IntS)
        ctx.ensure("one entry per edge", r.n == t.n)
        ctx.assume(z3.And(0 <= k, k < t.n))
        ctx.ensure("every entry is the edge, in order", S(r.arr, k) == edge(k, weighted))


for _w in range(5):
    graph_unit(_w)


@unit("GraphParser.get_expression_type", "C26")
def u_type(ctx):
    ns = graph_notations()
    which = ctx.choose(5)
    t = given(ctx, ns, which)
    out = Interp(ctx, ctx.program).run(static(ctx, GRAPH, "GraphParser", "get_expression_type"), None, SV(t.name))
    name = f"a text in {f'notation {which + 1}' if which < 4 else 'no notation'} is told so"
    if out.raised or out.value != (which if which < 4 else -1):
        if not (t.newline and not out.raised and out.value == -1):
            never(ctx, name, t)
    else:
        ctx.ensure(name, True)


# ---------------------------------------------------------------- linear expressions
def index(k):
    return WHOLE(IX(k)) - 1


def value(k):
    return z3.If(SG(k) == lit("-"), -NUM(CO(k)), NUM(CO(k)))


def linear_loops():
    def data(L):
        d = L["data"]
        return typed(d, IntS, RealS) if not isinstance(d, PDict) else _bad(d)

    def _bad(d):
        raise Unsupported(f"data is {d!r}")

    def enter(L):
        data(L)
        L.g["src"] = L.ctx.fresh("src", z3.ArraySort(IntS, IntS))

    def havoc(L):
        L.g["src"] = L.ctx.fresh("src", z3.ArraySort(IntS, IntS))

    def inv(L):
        d, src, j, k = data(L), L.g["src"], z3.Int("j_"), z3.Int("k_")
        at = S(src, j)
        length = term(L["length"])
        L.ctx.ghost["linear"] = (d, src)
        return [("every index so far has its entry", z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < L.i), z3.And(index(k) >= 0, index(k) <= length, S(d.dom, index(k)), S(src, index(k)) == k)), patterns=[IX(k)])),
                ("every entry is of a term", z3.ForAll([j], z3.Implies(S(d.dom, j), z3.And(0 <= at, at < L.i, index(at) == j, S(d.val, j) == value(at))), patterns=[S(d.dom, j)])),
                ("the length so far is reached", z3.And(length >= 0, z3.If(L.i == 0, length == 0, S(d.dom, length))))]

    def step(L):
        L.g["src"] = z3.Store(L.g["src"], index(L.i - 1), L.i - 1)

    def head(L):
        L.ctx.mention(IX(L.i))

    def filled(L):
        r = L["result"]
        if not isinstance(r, nd.Nd) or r.nd != 2 or not hasattr(L, "S"):
            raise Unsupported("the result is filled in another way")
        d, j, f = data(L), z3.Int("j_"), r.real_fn()
        L.ctx.ghost["row"] = r
        cols = r.dims[1]
        return [("the entries so far are in place", quantify(L.ctx, r.dims, lambda p, j: f(p, j) == z3.If(S(L.done, j), S(d.val, j), z3.RealVal(0)))),
                ("the entries so far are within", z3.ForAll([j], z3.Implies(S(L.done, j), z3.And(0 <= j, j < cols)), patterns=[S(L.done, j)]))]
    return {("LinearParser.parse", 0): LoopSpec(inv, enter=enter, mods=lambda L: [data(L)], havoc=havoc, step=step, head=head, kind="for"),
            ("LinearParser.parse", 1): LoopSpec(filled, mods=lambda L: [L["result"]], kind="for")}


def fine(t, size, k):
    """The index of term k is one to the size, and of no other term."""
    q = z3.Int("q_")
    return z3.Implies(z3.And(0 <= k, k < t.n), z3.And(index(k) >= 0, *([index(k) < size] if size is not None else [])))


def distinct(t, k, q):
    return z3.Implies(z3.And(0 <= k, k < q, q < t.n), index(k) != index(q))


def linear_unit(sized, case):
    size_name = "given" if sized else "open"

    @unit(f"LinearParser.parse of {case}, size {size_name}", "C26", functions=["LinearParser.parse", "LinearParser.validate_expression"])
    def u(ctx):
        ns = [linear_notation()]
        t = given(ctx, ns, 1 if case == "other texts" else 0)
        size = ctx.fresh("size", IntS) if sized else None
        k, q = z3.Ints("k_ q_")
        if case == "a proper sum":
            ctx.assume(z3.ForAll([k], fine(t, size, k), patterns=[IX(k)]))
            ctx.assume(z3.ForAll([k, q], distinct(t, k, q), patterns=[z3.MultiPattern(IX(k), IX(q))]))
        it = Interp(ctx, ctx.program, linear_loops())
        out = it.run(static(ctx, LINEAR, "LinearParser", "parse"), None, SV(t.name), *([SV(size)] if sized else []))
        if case == "other texts":
            if not out.raised:
                never(ctx, "a text that is no sum of terms is rejected", t)
            ctx.ensure("a text that is no sum of terms is rejected", out.raised)
            ctx.reach("rejected")
            return
        if case == "any sum":
            if out.raised:
                return
            a, b = ctx.fresh("a", IntS), ctx.fresh("b", IntS)
            ctx.mention(IX(a))
            ctx.mention(IX(b))
            ctx.ensure("what is accepted has no zero index and none beyond the size", fine(t, size, a))
            ctx.ensure("what is accepted has no index twice", distinct(t, a, b))
            return
        if out.raised:
            if t.newline:
                return
            ctx.ensure("a proper sum is not rejected", False)
            return
        ctx.reach("accepted")
        r = out.value
        if not isinstance(r, nd.Nd) or r.nd != 2:
            raise Unsupported(f"the result is {r!r}")
        a, j = ctx.fresh("a", IntS), ctx.fresh("j", IntS)
        f = r.real_fn()
        ctx.mention(IX(a))
        ctx.ensure("the result is one row", r.dims[0] == 1)
        if sized:
            ctx.ensure("of the requested size", r.dims[1] == size)
        else:
            ctx.ensure("as long as the largest index", z3.Implies(z3.And(0 <= a, a < t.n), index(a) < r.dims[1]))
        ctx.ensure("every coefficient is at its index", z3.Implies(z3.And(0 <= a, a < t.n), f(z3.IntVal(0), index(a)) == value(a)))
        k0 = z3.Int("k_")
        ctx.assume(z3.And(0 <= j, j < r.dims[1]))
        ctx.assume(z3.ForAll([k0], z3.Implies(z3.And(0 <= k0, k0 < t.n), index(k0) != j), patterns=[IX(k0)]))
        ctx.ensure("zero everywhere else", f(z3.IntVal(0), j) == 0)
        if not sized:
            ctx.ensure("and no longer", j + 1 < r.dims[1])


for _s in (False, True):
    for _c in ("a proper sum", "any sum", "other texts"):
        linear_unit(_s, _c)


@unit("LinearParser.validate_expression", "C26")
def u_validate(ctx):
    ns = [linear_notation()]
    which = ctx.choose(2)
    t = given(ctx, ns, which)
    out = Interp(ctx, ctx.program).run(static(ctx, LINEAR, "LinearParser", "validate_expression"), None, SV(t.name))
    name = "a sum of terms is valid" if which == 0 else "nothing else is valid"
    if out.raised or out.value is not (which == 0):
        if not (t.newline and out.value is False):
            never(ctx, name, t)
    else:
        ctx.ensure(name, True)
