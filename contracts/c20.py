"""C20: certificate checks."""
from lp import *
from c21 import FEASIBLE, c_is_feasible


def start(ctx, name, args, contracts=None):
    """Run one check on an arbitrary program; ArithmeticError exactly when it is not in standard equality form."""
    o = new_lp(ctx)
    s, k = P(ctx, o), Keep(ctx, o)
    keep = [(a, a.buf.fn) for a in args if isinstance(a, Nd)]
    show = ctx.choose(2) == 0
    out = run_lp(ctx, o, name, *args, show, contracts=contracts)
    k.ensure(ctx, name)
    ctx.ensure(f"{name} does not change its arguments", all(a.buf.fn is f for a, f in keep))
    if o.attrs["_is_sef"] is False:
        raised(ctx, out, "ArithmeticError", f"{name} refuses programs not in standard equality form")
        return o, s, None
    return o, s, out


def vec(ctx, a):
    n, f = vector_of(ctx, a)
    return n, nd.make(ctx, (n,), f).arr()


def wrong_size(ctx, out, name, fits):
    if out.raised:
        raised(ctx, out, "ValueError", f"{name} raises nothing else")
        ctx.ensure(f"{name} rejects only vectors of the wrong size", z3.Not(fits))
        return True
    ctx.ensure(f"{name} rejects vectors of the wrong size", fits)
    return False


def nonneg(ctx, n, f):
    return quantify(ctx, (n,), lambda j: f(j) >= 0)


def nearly_nonneg(ctx, n, f):
    return quantify(ctx, (n,), lambda j: f(j) > -TOL)


def arg3(ctx, name):
    """A vector: array of floats, of integers, or a list."""
    k = ctx.choose(3)
    n = ctx.fresh(name + "_len", IntS)
    ctx.assume(n >= 0)
    a = nd.fresh(ctx, name, [n], "int" if k == 2 else "float")
    return NumList(ctx, n, a.arr()) if k == 1 else a


@unit("LinearProgram.verify_infeasibility", "C20", "C11", functions=["LinearProgram.verify_infeasibility"])
def u_infeasibility(ctx):
    y = arg3(ctx, "y")
    o, s, out = start(ctx, "verify_infeasibility", [y])
    if out is None:
        return
    n, Y = vec(ctx, y)
    if wrong_size(ctx, out, "verify_infeasibility", n == s.m):
        return
    A, b, _ = s.arrs()
    T = tr(A)
    yA = lambda j: dot(S(T, j), Y)
    r = is_true(out.value)
    ctx.ensure("a certificate of infeasibility is accepted", z3.Implies(z3.And(nonneg(ctx, s.n, yA), dot(Y, b) <= -TOL), r))
    ctx.ensure("an accepted certificate of infeasibility has yA nonnegative up to tolerance", z3.Implies(r, nearly_nonneg(ctx, s.n, yA)))
    ctx.ensure("an accepted certificate of infeasibility has yb negative", z3.Implies(r, dot(Y, b) < 0))
    ctx.reach("verify_infeasibility returns")


@unit("LinearProgram.verify_optimality", "C20", "C11", functions=["LinearProgram.verify_optimality"])
def u_optimality(ctx):
    y = arg3(ctx, "y")
    o, s, out = start(ctx, "verify_optimality", [y])
    if out is None:
        return
    n, Y = vec(ctx, y)
    if wrong_size(ctx, out, "verify_optimality", n == s.m):
        return
    A, b, c = s.arrs()
    T = tr(A)
    slack = lambda j: dot(S(T, j), Y) - S(c, j)
    r = is_true(out.value)
    ctx.ensure("a certificate of optimality is accepted", z3.Implies(nonneg(ctx, s.n, slack), r))
    ctx.ensure("an accepted certificate of optimality has yA at least c up to tolerance", z3.Implies(r, nearly_nonneg(ctx, s.n, slack)))
    ctx.reach("verify_optimality returns")


@unit("LinearProgram.verify_unboundedness", "C20", "C11", functions=["LinearProgram.verify_unboundedness"], limit=100)
def u_unboundedness(ctx):
    x, d = arg3(ctx, "x"), arg3(ctx, "d")
    o, s, out = start(ctx, "verify_unboundedness", [x, d], contracts=FEASIBLE)
    if out is None:
        return
    (nx, X), (n, D) = vec(ctx, x), vec(ctx, d)
    A, b, c = s.arrs()
    if out.raised:
        raised(ctx, out, "ValueError", "verify_unboundedness raises nothing else")
        ctx.ensure("verify_unboundedness rejects only vectors of the wrong size", z3.Not(z3.And(nx == s.n, n == s.n)))
        return
    ctx.ensure("verify_unboundedness rejects points of the wrong size", nx == s.n)
    r = is_true(out.value)
    ctx.ensure("verify_unboundedness accepts no direction of the wrong size", z3.Implies(r, n == s.n))
    zero = quantify(ctx, (s.m,), lambda i: dot(S(A, i), D) == 0)
    small = quantify(ctx, (s.m,), lambda i: nd.close(dot(S(A, i), D), R0))
    ent = lambda j: S(D, j)
    ctx.ensure("a certificate of unboundedness is accepted", z3.Implies(z3.And(n == s.n, s.feasible(X), nonneg(ctx, s.n, ent), zero, dot(c, D) >= TOL), r))
    ctx.ensure("an accepted certificate has a feasible point up to tolerance", z3.Implies(r, s.feasible_near(X)))
    ctx.ensure("an accepted direction is nonnegative up to tolerance", z3.Implies(r, nearly_nonneg(ctx, s.n, ent)))
    ctx.ensure("an accepted direction is in the null space up to tolerance", z3.Implies(r, small))
    ctx.ensure("an accepted direction improves the objective", z3.Implies(r, dot(c, D) > 0))
    ctx.reach("verify_unboundedness returns")


@unit("certificates certify", "C20", note="lemma over the contracts")
def u_lemma(ctx):
    o = new_lp(ctx, sef=True)
    s = P(ctx, o)
    A, b, c = s.arrs()
    T = tr(A)
    x, y = nd.fresh(ctx, "x", [s.n]), nd.fresh(ctx, "y", [s.m])
    X, Y = x.arr(), y.arr()
    across(ctx, T, Y, X)
    ctx.ensure("yAx either way", dot(mv(T, Y), X) == dot(Y, mv(A, X)))
    p = z3.Int("p_")
    Ax = nd.of_term(ctx, mv(A, X), (s.m,), zero=True)
    yA = nd.of_term(ctx, mv(T, Y), (s.n,), zero=True)
    ctx.assume(z3.And(quantify(ctx, (s.m,), lambda i: dot(S(A, i), X) == S(b, i)), quantify(ctx, (s.n,), lambda j: S(X, j) >= 0)))
    same = mv(A, X) == b
    ctx.ensure("the point solves the equations", z3.ForAll([p], S(mv(A, X), p) == S(b, p)))
    ctx.assume(z3.Implies(z3.ForAll([p], S(mv(A, X), p) == S(b, p)), same))  # extensionality
    ctx.ensure("yb is yAx", dot(Y, b) == dot(mv(T, Y), X))
    if ctx.choose(2) == 0:
        ctx.assume(quantify(ctx, (s.n,), lambda j: dot(S(T, j), Y) >= 0))
        nonneg_product(ctx, mv(T, Y), X, s.n)
        ctx.ensure("a program with a feasible point has no certificate of infeasibility with exact margins", z3.Not(dot(Y, b) < 0))
        return
    ctx.assume(quantify(ctx, (s.n,), lambda j: dot(S(T, j), Y) >= S(c, j)))
    d = nd.pointwise(Interp(ctx, ctx.program, {}, {}), [yA, s.co], lambda a, e: a - e).arr()
    nonneg_product(ctx, d, X, s.n)
    ctx.ensure("an accepted dual vector bounds every feasible objective", dot(c, X) <= dot(Y, b))
