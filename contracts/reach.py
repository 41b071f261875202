"""Least sets closed under a relation: reachability, given by closure and by instances of minimality."""
from unit import *

SetN = z3.ArraySort(Name, BoolS)


class Least:
    """R: the least set with start in it, closed under edge(u, v). pat(u, v) is the term closure triggers on."""

    def __init__(self, ctx, hint, start, edge, pat=None, axioms=True):
        self.ctx, self.start, self.edge = ctx, start, edge
        self.R = ctx.fresh(hint, SetN)
        self.pat = pat or edge
        ctx.assume(sel(self.R, start))
        ctx.assume(forall([Name, Name], lambda u, v: z3.Implies(z3.And(sel(self.R, u), edge(u, v)), sel(self.R, v)),
                          lambda u, v: z3.MultiPattern(sel(self.R, u), self.pat(u, v))))

    def within(self, V):
        """Minimality for one set V (a predicate): if V holds of the start and is closed then it holds of all of R."""
        u, v, x = z3.Consts("u_ v_ x_", Name)
        ctx = self.ctx
        a, b = ctx.fresh("cu", Name), ctx.fresh("cv", Name)
        bad = z3.And(V(a), self.edge(a, b), z3.Not(V(b)))  # the counterexample to closure, if any
        ctx.assume(z3.Or(z3.Not(V(self.start)), bad, z3.ForAll([x], z3.Implies(sel(self.R, x), V(x)), patterns=[sel(self.R, x)])))


_mark = z3.Function("mark", Name, BoolS)


def mark(t):
    """Makes a term known to the instantiation of quantified facts; says nothing."""
    return _mark(t)


def card_full(ctx, S, T):
    """Finite sets: S within T of the same size is T."""
    ctx.result.assumed.add("finite cardinality: a subset with as many elements as the (finite) set is the set")
    c = I.card_fn(Name)
    k = z3.Const("k_", Name)
    w = ctx.fresh("w", Name)
    ctx.assume(z3.Or(z3.And(sel(S, w), z3.Not(sel(T, w))), z3.Implies(c(S) == c(T), S == T)))


def least_number(ctx, P, rank):
    """If some vertex satisfies P then one of least rank (ranks are not negative) does. Returns that vertex."""
    ctx.result.assumed.add("induction: a non-empty set of naturals has a least element")
    m = ctx.fresh("min", Name)
    x = z3.Const("x_", Name)
    ctx.assume(z3.Or(z3.And(P(m), z3.ForAll([x], z3.Implies(P(x), sel(rank, m) <= sel(rank, x)), patterns=[sel(rank, x)])),
                     z3.ForAll([x], z3.Not(P(x)), patterns=[sel(rank, x)])))
    return m
