"""Contracts of operations on an object with a representation invariant."""
from unit import *


class Param:
    """A parameter that is not a plain scalar: fresh(ctx, name) -> (program value, abstract), of(value) -> abstract."""

    def __init__(self, fresh, of):
        self.fresh, self.of = fresh, of


class Kit:
    """One kind of object: Snap(ctx, o) takes the abstract state, wf(s) is its invariant, new(ctx) an arbitrary
    well-formed object, havoc(interp, o) forgets its state."""

    def __init__(self, Snap, wf, new, havoc):
        self.Snap, self.wf, self.new, self.havoc = Snap, wf, new, havoc


class Op:
    """One operation: err(s, a) -> [(kind, condition)], post(s, n, a) -> formula; result(s, a) -> value or None."""

    def __init__(self, name, params, err, post=None, result=None, mutates=True, frame_refs=None, kit=None):
        self.name, self.params, self.err, self.post, self.result, self.mutates = name, params, err, post, result, mutates
        self.frame_refs, self.kit = frame_refs, kit

    def args(self, v):
        a = {}
        for p, ty in self.params.items():
            a[p] = ty.of(v[p]) if isinstance(ty, Param) else as_sort(v[p], ty)
        return a

    def frame(self, s, n, a):
        """Sets that do not belong to the named vertices keep their content."""
        own = self.frame_refs(s, a) if self.frame_refs else []
        return z3.And(
            forall([IntS], lambda r: z3.Implies(z3.And(r < s.ptr, *[z3.Not(z3.And(sel(s.gdom, x), r == sel(s.gval, x))) for x in own]), sel(n.store, r) == sel(s.store, r)), lambda r: sel(n.store, r)),
            forall([Name], lambda x: z3.Implies(sel(n.gdom, x), z3.Or(z3.And(sel(s.gdom, x), sel(n.gval, x) == sel(s.gval, x)), sel(n.gval, x) >= s.ptr)), lambda x: sel(n.gval, x)))

    def apply(self, interp, v):
        ctx, o = interp.ctx, v["self"]
        a = self.args(v)
        s = self.kit.Snap(ctx, o)
        if self.mutates:
            ctx.ensure(f"{self.name} is called on a well-formed graph", self.kit.wf(s))
        for kind, c in self.err(s, a):
            if ctx.branch(c):
                raise PyRaise(kind, self.name)
        if self.mutates:
            self.kit.havoc(interp, o)
            n = self.kit.Snap(ctx, o)
            ctx.assume(z3.And(self.kit.wf(n), self.post(s, n, a), self.frame(s, n, a)))
        return from_term(self.result(s, a)) if self.result else None

    def check(self, ctx, interp_contracts, defaults={}):
        o = self.kit.new(ctx)
        s = self.kit.Snap(ctx, o)
        a, vals = {}, []
        for p, ty in self.params.items():
            if p in defaults:
                a[p] = defaults[p]
                continue
            if isinstance(ty, Param):
                val, a[p] = ty.fresh(ctx, p)
                vals.append(val)
                continue
            x = ctx.fresh(p, ty)
            a[p] = x
            vals.append(from_term(x))
        attrs0 = dict(o.attrs)
        it = Interp(ctx, ctx.program, {}, interp_contracts)
        out = it.run(o, self.name, *vals)
        n = self.kit.Snap(ctx, o)
        errs = self.err(s, a)
        bad = z3.Or(*[c for _, c in errs]) if errs else z3.BoolVal(False)
        if out.raised:
            why = [c for k, c in errs if k == out.exc.kind]
            ctx.ensure(f"{self.name} refuses only what it must", bad)
            ctx.ensure(f"{self.name} refuses with the right error, of {sorted({k for k, _ in errs})}", z3.Or(*why) if why else z3.BoolVal(False))
            ctx.ensure(f"a refused {self.name} changes nothing", n.same(s))
            ctx.reach(f"{self.name} raises")
            return
        ctx.ensure(f"{self.name} accepts only what it may", z3.Not(bad))
        if self.mutates:
            ctx.ensure(f"{self.name} changes exactly what it names", self.post(s, n, a))
            ctx.ensure(f"{self.name} touches no other set", self.frame(s, n, a))
            ctx.ensure(f"{self.name} keeps the graph well-formed", self.kit.wf(n))
        else:
            ctx.ensure(f"{self.name} changes nothing", n.same(s))
        if self.result:
            ctx.ensure(f"{self.name} answers correctly", term(out.value) == self.result(s, a))
        ctx.reach(f"{self.name} returns")


def eq_except(a, b, *keys):
    """Maps or sets equal away from the given keys."""
    ks = a.domain()
    return forall([ks], lambda k: z3.Implies(z3.And(*[k != x for x in keys]) if keys else z3.BoolVal(True), sel(a, k) == sel(b, k)), lambda k: sel(a, k))


