"""C15: bases and basic solutions."""
from lp import *

detq = lambda A, q, m: det(la.selc(A, q, m), m)


def shifted(interp, basis):
    """The positions 0.. behind a list of positions 1.. (the list the code's own comprehension gives)."""
    ctx = interp.ctx
    if isinstance(basis, Nd):
        if basis.nd != 1 or basis.dt != "int":
            raise Unsupported(f"basis {basis!r}")
        f, n = basis.frozen(), basis.dims[0]
    elif isinstance(basis, SSeq) and basis.sort == IntS:
        f, n = (lambda i: S(basis.arr, i)), basis.n
    elif isinstance(basis, PList) and all(is_int(x) for x in basis.items):
        b = nd.as_nd(ctx, basis)
        f, n = b.frozen() if basis.items else (lambda i: z3.IntVal(0)), b.dims[0]
    else:
        raise Unsupported(f"basis {basis!r}")
    r = interp.to_list(SeqIter(n, lambda i: SV(f(i) - 1)))
    return r


def basis_spec(ctx, s, q):
    """The list q of positions is a basis: one valid position per row, determinant clearly not zero."""
    A = s.Ao.arr()
    return z3.And(q.n == s.m, quantify(ctx, (q.n,), lambda k: z3.And(0 <= S(q.arr, k), S(q.arr, k) < s.n)), z3.Not(near0(detq(A, q.arr, s.m))))


def c_is_basis(interp, v):
    ctx, s = interp.ctx, P(interp.ctx, v["self"])
    q = shifted(interp, v["basis"])
    if not ctx.holds(s.m >= 1):
        raise Unsupported("is_basis of a program that may have no rows")
    ctx.mention(la.selc(s.Ao.arr(), q.arr, s.m))
    r = ctx.fresh("is_basis", BoolS)
    parts = basis_parts(ctx, s, q)
    ctx.assume(z3.Implies(r, z3.And(*parts)))
    ctx.assume(z3.Implies(z3.And(*parts), r))
    name_positions(ctx, q, s)
    return SV(r)


def basis_parts(ctx, s, q):
    A = s.Ao.arr()
    return [q.n == s.m, quantify(ctx, (q.n,), lambda k: z3.And(0 <= S(q.arr, k), S(q.arr, k) < s.n)), z3.Not(near0(detq(A, q.arr, s.m)))]


def name_positions(ctx, q, s):
    """The set of the positions; columns of a matrix with nonzero determinant are different columns (trusted law)."""
    if q.arr.get_id() in ctx.ghost.get("members", {}):
        return
    name_members(ctx, q, "basis")
    distinct_columns(ctx, s, q)


def distinct_columns(ctx, s, q):
    """Law: a matrix with two equal columns has determinant zero."""
    la.law(ctx, "columns", s.Ao.arr(), q.arr, s.m)


def member(ctx, q, j):
    return S(ctx.ghost["members"][q.arr.get_id()][0], j)


def basis_arg(ctx):
    n = ctx.fresh("basis_len", IntS)
    ctx.assume(n >= 0)
    a = ctx.fresh("basis", la.IVec)
    if ctx.choose(2) == 0:
        return SSeq(ctx, n, a, IntS)
    x = nd.fresh(ctx, "basis", [n], "int")
    return x


def basis_and_vector(ctx):
    """A basis list with every kind of vector, or a basis array with a vector of floats."""
    n, l = ctx.fresh("basis_len", IntS), ctx.fresh("x_len", IntS)
    ctx.assume(z3.And(n >= 0, l >= 0))
    if ctx.choose(2) == 1:
        return nd.fresh(ctx, "basis", [n], "int"), nd.fresh(ctx, "x", [l])
    return SSeq(ctx, n, ctx.fresh("basis", la.IVec), IntS), vec_arg(ctx, "x")


def kept(a):
    return (a, a.buf.fn if isinstance(a, Nd) else (a.arr, a.n))


def unchanged(k):
    a, v = k
    return a.buf.fn is v if isinstance(a, Nd) else a.arr.eq(v[0]) and a.n is v[1]


IS_BASIS = {"LinearProgram.is_basis": Contract(c_is_basis)}


@unit("LinearProgram.is_basis", "C15", "C11", functions=["LinearProgram.is_basis"])
def u_is_basis(ctx):
    o = new_lp(ctx)
    s, k = P(ctx, o), Keep(ctx, o)
    ctx.assume(s.m >= 1)
    B = basis_arg(ctx)
    kb = kept(B)
    it = Interp(ctx, ctx.program, {}, {})
    q = shifted(it, B)
    out = run_lp(ctx, o, "is_basis", B)
    k.ensure(ctx, "is_basis")
    ctx.ensure("is_basis does not change the list", unchanged(kb))
    ctx.ensure("is_basis does not raise", not out.raised)
    if out.raised:
        return
    r = is_true(out.value)
    ctx.ensure("a basis has one position per row", z3.Implies(r, q.n == s.m))
    ctx.ensure("the positions of a basis are columns", z3.Implies(r, quantify(ctx, (q.n,), lambda p: z3.And(0 <= S(q.arr, p), S(q.arr, p) < s.n))))
    ctx.ensure("the columns of a basis are independent", z3.Implies(r, z3.Not(near0(detq(s.Ao.arr(), q.arr, s.m)))))
    ctx.ensure("every basis is accepted", z3.Implies(basis_spec(ctx, s, q), r))
    ctx.reach("is_basis returns")


# ---------------------------------------------------------------- basic solutions
def c_basic(interp, v):
    """__compute_basic_solution for positions B whose columns have a nonzero determinant."""
    ctx, s, B = interp.ctx, P(interp.ctx, v["self"]), v["basis"]
    if isinstance(B, PList):
        B = interp.to_list(nd.as_nd(ctx, B).py_iter(interp))
    if not isinstance(B, SSeq):
        raise Unsupported(f"basis {B!r}")
    A, b, _ = s.arrs()
    q = B.arr
    name_positions(ctx, B, s)
    ok = z3.And(B.n == s.m, quantify(ctx, (B.n,), lambda k: z3.And(0 <= S(q, k), S(q, k) < s.n)), detq(A, q, s.m) != 0)
    ctx.ensure("the basic solution is asked for a basis", ok)
    x = nd.fresh(ctx, "basic", [s.n])
    X = x.arr()
    assume_basic(ctx, s, B, X)
    return x


def assume_basic(ctx, s, B, X):
    A, b, _ = s.arrs()
    q = B.arr
    i = z3.Int("i_")
    Ab = la.selc(A, q, s.m)
    ctx.assume(quantify(ctx, (s.m,), lambda p: dot(S(A, p), X) == S(b, p)))
    comp = mv(inv(Ab, s.m), b)
    ctx.mention(comp)
    ctx.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < s.m), S(X, S(q, i)) == S(comp, i)), patterns=[S(q, i)]))
    ctx.assume(z3.ForAll([i], z3.Implies(z3.Not(member(ctx, B, i)), S(X, i) == 0), patterns=[S(X, i)]))


Vec = la.Vec
BASIC = {"LinearProgram.__compute_basic_solution": Contract(c_basic)}


def scatter_law(ctx, X, q, m, v):
    """x holds v at the different positions q and zero elsewhere: products with x only see those positions."""
    la.apply(ctx, "scatter", "a product with a basic solution", X, q, m, v)


def solves_by_inverse(ctx, M, n, b):
    """M (M^-1 b) = b for an n by n matrix with nonzero determinant: instances of the laws, each discharged."""
    N = inv(M, n)
    la.apply(ctx, "square", "the chosen columns are square", M, n)
    one, prod, comp = la.eye(n), mm(M, N), mv(N, b)
    p = ctx.fresh("p", IntS)
    ctx.ensure("the inverse is an inverse", prod == one)
    ctx.ensure("multiplying with the inverse and back", mv(M, comp) == mv(prod, b))
    ctx.ensure("the identity changes nothing", z3.Implies(z3.And(0 <= p, p < n), S(mv(one, b), p) == S(b, p)))
    q = z3.Int("q_")
    ctx.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n), S(mv(M, comp), q) == S(b, q)), patterns=[S(mv(M, comp), q)]))  # generalises the three


def basic_loops():
    def inv_(L):
        g = L.ctx.ghost
        q, comp = g["q"], L["components"]
        x = L["solution"]
        i, k = z3.Ints("i_ k_")
        X = x.frozen()
        return [("components so far are in place", z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < L.i), X(S(q.arr, k)) == comp.at(k)), patterns=[S(q.arr, k)])),
                ("positions not met hold zero", z3.ForAll([i], z3.Implies(z3.Or(z3.Not(member(L.ctx, q, i)), S(g["pos"], i) >= L.i), X(i) == 0), patterns=[member(L.ctx, q, i)] + ([X(i)] if usable(X(i)) and B.contains_const(X(i), i) else [])))]
    return {("LinearProgram.__compute_basic_solution", 0): LoopSpec(inv_, mods=lambda L: [L["solution"]])}


@unit("LinearProgram.__compute_basic_solution", "C15", functions=["LinearProgram.__compute_basic_solution"])
def u_basic(ctx):
    o = new_lp(ctx)
    s, k = P(ctx, o), Keep(ctx, o)
    ctx.assume(s.m >= 1)
    q = SSeq(ctx, s.m, ctx.fresh("basis", la.IVec), IntS)
    A, b, _ = s.arrs()
    ctx.ghost["q"] = q
    name_positions(ctx, q, s)
    F = ctx.ghost["members"][q.arr.get_id()][0]
    pos = ctx.fresh("pos", la.IVec)
    i, j = z3.Ints("i_ j_")
    ctx.ghost["pos"] = pos
    ctx.assume(quantify(ctx, (s.m,), lambda p: z3.And(0 <= S(q.arr, p), S(q.arr, p) < s.n)))
    ctx.assume(detq(A, q.arr, s.m) != 0)
    # the position of a basis entry: well defined, the entries differ
    ctx.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < s.m), S(pos, S(q.arr, i)) == i), patterns=[S(q.arr, i)]))
    ctx.assume(z3.ForAll([j], z3.Implies(S(F, j), z3.And(0 <= S(pos, j), S(pos, j) < s.m, S(q.arr, S(pos, j)) == j)), patterns=[S(F, j)]))
    out = run_lp(ctx, o, "_LinearProgram__compute_basic_solution", q, loops=basic_loops())
    k.ensure(ctx, "compute_basic_solution")
    ctx.ensure("computing a basic solution does not raise", not out.raised)
    if out.raised:
        return
    x = out.value
    ctx.ensure("the basic solution has one component per variable", isinstance(x, Nd) and x.nd == 1 and z3.simplify(x.dims[0] == s.n))
    X = x.arr()
    Ab = la.selc(A, q.arr, s.m)
    comp = mv(inv(Ab, s.m), b)
    a, e = ctx.fresh("a", IntS), ctx.fresh("e", IntS)
    ctx.ensure("components stay with their columns", z3.Implies(z3.And(0 <= a, a < s.m), S(X, S(q.arr, a)) == S(comp, a)))
    ctx.ensure("zero outside the basis", z3.Implies(z3.Not(S(F, e)), S(X, e) == 0))
    scatter_law(ctx, X, q.arr, s.m, comp)
    solves_by_inverse(ctx, Ab, s.m, b)
    in_a = z3.And(0 <= a, a < s.m)
    ctx.ensure("a row of the equations sees only the basis", dot(S(A, a), X) == dot(S(Ab, a), comp))
    ctx.ensure("the basis part of the row gives the right-hand side", z3.Implies(in_a, dot(S(Ab, a), comp) == S(b, a)))
    ctx.ensure("the basic solution solves the equations", z3.Implies(z3.And(0 <= a, a < s.m), dot(S(A, a), X) == S(b, a)))
    ctx.reach("basic solution")


@unit("LinearProgram.compute_basic_solution", "C15", "C11", functions=["LinearProgram.compute_basic_solution"])
def u_compute(ctx):
    o = new_lp(ctx)
    s, k = P(ctx, o), Keep(ctx, o)
    ctx.assume(s.m >= 1)
    B = basis_arg(ctx)
    kb = kept(B)
    q = shifted(Interp(ctx, ctx.program, {}, {}), B)
    out = run_lp(ctx, o, "compute_basic_solution", B, contracts={**IS_BASIS, **BASIC})
    k.ensure(ctx, "compute_basic_solution")
    ctx.ensure("compute_basic_solution does not change the list", unchanged(kb))
    if out.raised:
        raised(ctx, out, "ArithmeticError", "compute_basic_solution raises nothing but ArithmeticError")
        ctx.ensure("no basis is refused", z3.Not(basis_spec(ctx, s, q)))
        return
    ctx.ensure("only bases have basic solutions", z3.And(*basis_parts(ctx, s, q)))
    basic_of(ctx, s, q, out.value, "the basic solution")
    ctx.reach("compute_basic_solution returns")


def basic_of(ctx, s, q, x, what):
    X = x.arr()
    A, b, _ = s.arrs()
    a, e = ctx.fresh("a", IntS), ctx.fresh("e", IntS)
    ctx.ensure(f"{what} has one component per variable", x.dims[0] == s.n)
    ctx.ensure(f"{what} solves the equations", z3.Implies(z3.And(0 <= a, a < s.m), dot(S(A, a), X) == S(b, a)))
    ctx.ensure(f"{what} is zero outside the basis", z3.Implies(z3.Not(member(ctx, q, e)), S(X, e) == 0))


def c_compute(interp, v):
    ctx, s = interp.ctx, P(interp.ctx, v["self"])
    r = c_is_basis(interp, v)
    if not ctx.branch(r.t):
        raise PyRaise("ArithmeticError", "compute_basic_solution")
    q = shifted(interp, v["basis"])
    x = nd.fresh(ctx, "basic", [s.n])
    assume_basic(ctx, s, q, x.arr())
    return x


@unit("LinearProgram.is_basis_feasible", "C15", "C11", functions=["LinearProgram.is_basis_feasible"])
def u_basis_feasible(ctx):
    o = new_lp(ctx)
    s, k = P(ctx, o), Keep(ctx, o)
    ctx.assume(s.m >= 1)
    B = basis_arg(ctx)
    kb = kept(B)
    it = Interp(ctx, ctx.program, {}, {})
    q = shifted(it, B)
    seen = {}

    def compute(interp, v):
        seen["x"] = c_compute(interp, v)
        return seen["x"]
    out = run_lp(ctx, o, "is_basis_feasible", B, contracts={**IS_BASIS, "LinearProgram.compute_basic_solution": Contract(compute)})
    k.ensure(ctx, "is_basis_feasible")
    ctx.ensure("is_basis_feasible does not change the list", unchanged(kb))
    ctx.ensure("is_basis_feasible does not raise", not out.raised)
    if out.raised:
        return
    r = is_true(out.value)
    ctx.ensure("only bases are feasible", z3.Implies(r, z3.And(*basis_parts(ctx, s, q))))
    if not ctx.branch(z3.And(*basis_parts(ctx, s, q))):
        return
    X = seen["x"].arr() if "x" in seen else None
    if X is None:
        X = nd.fresh(ctx, "basic", [s.n]).arr()
        name_positions(ctx, q, s)
        assume_basic(ctx, s, q, X)
    ctx.ensure("a basis with nonnegative basic solution is feasible", z3.Implies(quantify(ctx, (s.n,), lambda j: S(X, j) >= 0), r))
    ctx.ensure("a feasible basis has a basic solution nonnegative up to tolerance", z3.Implies(r, quantify(ctx, (s.n,), lambda j: S(X, j) > -TOL)))
    ctx.reach("is_basis_feasible returns")


def vanish(ctx, s, q, X, near):
    """X is zero (up to tolerance) outside the basis."""
    return quantify(ctx, (s.n,), lambda j: z3.Or(member(ctx, q, j), near0(S(X, j)) if near else S(X, j) == 0))


def is_basic_exact(ctx, s, q, X):
    A, b, _ = s.arrs()
    return z3.And(quantify(ctx, (s.m,), lambda i: dot(S(A, i), X) == S(b, i)), vanish(ctx, s, q, X, False))


def is_basic_near(ctx, s, q, X):
    A, b, _ = s.arrs()
    return [quantify(ctx, (s.m,), lambda i: nd.close(dot(S(A, i), X), S(b, i))), vanish(ctx, s, q, X, True)]


def c_basic_solution(interp, v):
    ctx, s = interp.ctx, P(interp.ctx, v["self"])
    if not ctx.branch(s.sef):
        raise PyRaise("ArithmeticError", "is_basic_solution")
    x = c_to_ndarray(interp, dict(source=v["x"]))
    if not isinstance(x, Nd) or x.nd != 1:
        raise PyRaise("ValueError", "is_basic_solution")
    ctx.need(x.dims[0] == s.n, "ValueError")
    b = c_is_basis(interp, v)
    if not ctx.branch(b.t):
        raise PyRaise("ValueError", "is_basic_solution")
    q = shifted(interp, v["basis"])
    X = x.arr()
    r = ctx.fresh("is_basic", BoolS)
    ctx.assume(z3.Implies(is_basic_exact(ctx, s, q, X), r))
    ctx.assume(z3.Implies(r, z3.And(*is_basic_near(ctx, s, q, X))))
    return SV(r)


def basic_solution_loops():
    def inv_(L):
        ctx = L.ctx
        s, q, X = ctx.ghost["prog"], ctx.ghost["q"], ctx.ghost["x"]
        f = is_true(L["result"])
        part = (L.i,)
        return [("nothing outside the basis so far, so it holds so far", z3.Implies(quantify(ctx, part, lambda j: z3.Or(member(ctx, q, j), S(X, j) == 0)), f)),
                ("it holds so far, so nothing outside the basis was missed", z3.Implies(f, quantify(ctx, part, lambda j: z3.Or(member(ctx, q, j), near0(S(X, j))))))]
    return {("LinearProgram.is_basic_solution", 0): LoopSpec(inv_)}


@unit("LinearProgram.is_basic_solution", "C15", "C11", functions=["LinearProgram.is_basic_solution"], limit=100)
def u_basic_solution(ctx):
    o = new_lp(ctx)
    s, k = P(ctx, o), Keep(ctx, o)
    ctx.assume(s.m >= 1)
    ctx.ghost["prog"] = s
    B, x = basis_and_vector(ctx)
    kb, xk = kept(B), x.buf.fn if isinstance(x, Nd) else None
    q = ctx.ghost["q"] = shifted(Interp(ctx, ctx.program, {}, {}), B)
    v = vector_of(ctx, x)
    if v is not None:
        X = ctx.ghost["x"] = nd.make(ctx, (v[0],), v[1]).arr()
    out = run_lp(ctx, o, "is_basic_solution", x, B, ctx.choose(2) == 0, loops=basic_solution_loops(), contracts=IS_BASIS)
    k.ensure(ctx, "is_basic_solution")
    ctx.ensure("is_basic_solution does not change its arguments", unchanged(kb) and (xk is None or x.buf.fn is xk))
    if o.attrs["_is_sef"] is False:
        raised(ctx, out, "ArithmeticError", "is_basic_solution refuses programs not in standard equality form")
        return
    if v is None:
        raised(ctx, out, "ValueError", "a matrix is rejected with ValueError")
        return
    if out.raised:
        raised(ctx, out, "ValueError", "is_basic_solution raises nothing else")
        ctx.ensure("is_basic_solution rejects only vectors of the wrong size and lists that are not bases", z3.Not(z3.And(v[0] == s.n, basis_spec(ctx, s, q))))
        return
    ctx.ensure("vectors of the wrong size are rejected", v[0] == s.n)
    ctx.ensure("lists that are not bases are rejected", z3.And(*basis_parts(ctx, s, q)))
    r = is_true(out.value)
    ctx.ensure("a basic solution is recognised", z3.Implies(is_basic_exact(ctx, s, q, X), r))
    for nm, f in zip(("solves the equations", "vanishes outside the basis"), is_basic_near(ctx, s, q, X)):
        ctx.ensure(f"what is recognised {nm} up to tolerance", z3.Implies(r, f))
    ctx.reach("is_basic_solution returns")


@unit("LinearProgram.is_feasible_basic_solution", "C15", "C11", functions=["LinearProgram.is_feasible_basic_solution"], limit=100)
def u_feasible_basic(ctx):
    o = new_lp(ctx)
    s, k = P(ctx, o), Keep(ctx, o)
    ctx.assume(s.m >= 1)
    B, x = basis_and_vector(ctx)
    kb, xk = kept(B), x.buf.fn if isinstance(x, Nd) else None
    q = shifted(Interp(ctx, ctx.program, {}, {}), B)
    v = vector_of(ctx, x)
    if v is not None:
        X = nd.make(ctx, (v[0],), v[1]).arr()
    out = run_lp(ctx, o, "is_feasible_basic_solution", x, B, contracts={"LinearProgram.is_basic_solution": Contract(c_basic_solution)})
    k.ensure(ctx, "is_feasible_basic_solution")
    ctx.ensure("is_feasible_basic_solution does not change its arguments", unchanged(kb) and (xk is None or x.buf.fn is xk))
    if v is None:
        raised(ctx, out, "ValueError", "a matrix is rejected with ValueError")
        return
    good = z3.And(v[0] == s.n, basis_spec(ctx, s, q))
    if out.raised:
        ctx.ensure("is_feasible_basic_solution raises ValueError or ArithmeticError", exc_is(out, "ValueError") or exc_is(out, "ArithmeticError"))
        ctx.ensure("is_feasible_basic_solution refuses only what is malformed", z3.Not(z3.And(s.sef, good)))
        return
    name_positions(ctx, q, s)
    ctx.ensure("vectors of the wrong size are rejected", v[0] == s.n)
    r = is_true(out.value)
    pos = quantify(ctx, (s.n,), lambda j: S(X, j) >= 0)
    ctx.ensure("a nonnegative basic solution is recognised", z3.Implies(z3.And(s.sef, good, is_basic_exact(ctx, s, q, X), pos), r))
    ctx.ensure("what is recognised is nonnegative up to tolerance", z3.Implies(r, quantify(ctx, (s.n,), lambda j: S(X, j) > -TOL)))
    for nm, f in zip(("solves the equations", "vanishes outside the basis"), is_basic_near(ctx, s, q, X)):
        ctx.ensure(f"what is recognised {nm} up to tolerance", z3.Implies(r, f))
    ctx.ensure("what is recognised belongs to a basis", z3.Implies(r, z3.And(*basis_parts(ctx, s, q))))
    ctx.reach("is_feasible_basic_solution returns")
