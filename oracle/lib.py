"""Shared ground truth for the replay oracles (runs under the project's own Python)."""
from fractions import Fraction as F
from itertools import combinations
import random


def wild(r, values, p=0.15):
    """The values, sometimes some or all of them scaled by a power of two (sums and differences stay exact)."""
    u = r.random()
    if u > p:
        return list(values)
    if u < p / 2:
        k = 2.0 ** r.choice([-20, -16, -10, 10, 16, 20])
        return [v * k for v in values]
    return [v * 2.0 ** r.choice([-18, -12, 0, 0, 0, 12, 18]) for v in values]


def fr(x):
    return F(x) if not isinstance(x, F) else x


def mat(A):
    return [[fr(v) for v in row] for row in A]


def rank(rows):
    M = [list(map(fr, r)) for r in rows]
    r = 0
    if not M:
        return 0
    for c in range(len(M[0])):
        p = next((i for i in range(r, len(M)) if M[i][c] != 0), None)
        if p is None:
            continue
        M[r], M[p] = M[p], M[r]
        for i in range(r + 1, len(M)):
            if M[i][c] != 0:
                f = M[i][c] / M[r][c]
                M[i] = [a - f * b for a, b in zip(M[i], M[r])]
        r += 1
        if r == len(M):
            break
    return r


def solve_square(M, b):
    """Exact solution of M x = b, or None when M is singular."""
    n = len(M)
    W = [list(map(fr, M[i])) + [fr(b[i])] for i in range(n)]
    for c in range(n):
        p = next((i for i in range(c, n) if W[i][c] != 0), None)
        if p is None:
            return None
        W[c], W[p] = W[p], W[c]
        pv = W[c][c]
        W[c] = [a / pv for a in W[c]]
        for i in range(n):
            if i != c and W[i][c] != 0:
                f = W[i][c]
                W[i] = [a - f * b_ for a, b_ in zip(W[i], W[c])]
    return [W[i][n] for i in range(n)]


def cols(A, B):
    return [[row[j] for j in B] for row in A]


def T(A):
    return [list(r) for r in zip(*A)]


def dot(a, b):
    return sum((x * y for x, y in zip(a, b)), F(0))


def basic(A, b, B):
    """Exact basic solution for column list B (0-based) or None."""
    xb = solve_square(cols(A, B), b)
    if xb is None:
        return None
    x = [F(0)] * len(A[0])
    for j, v in zip(B, xb):
        x[j] = v
    return x


def dual_of_basis(A, c, B):
    return solve_square(T(cols(A, B)), [c[j] for j in B])


def sef_status(A, b, c):
    """Exact status of max c x, A x = b, x >= 0 with independent rows: ('optimal', value, x) /
    ('infeasible',) / ('unbounded',)."""
    m, n = len(A), len(A[0])
    A, b, c = mat(A), [fr(v) for v in b], [fr(v) for v in c]
    feas = []
    for B in combinations(range(n), m):
        x = basic(A, b, B)
        if x is not None and all(v >= 0 for v in x):
            feas.append((B, x))
            y = dual_of_basis(A, c, B)
            if all(dot([row[j] for row in A], y) >= c[j] for j in range(n)):
                return ("optimal", dot(c, x), x)
    return ("infeasible",) if not feas else ("unbounded",)


def to_sef(A, b, c, rel, objective, free, neg):
    """Our own conversion (0-based free/neg). Returns A, b, c with c for maximisation."""
    m, n = len(A), len(c)
    sign = 1 if objective == "max" else -1
    oc, ocol = [], []
    for j in range(n):
        col = [fr(A[i][j]) for i in range(m)]
        cj = sign * fr(c[j])
        if j in neg:
            oc.append(-cj)
            ocol.append([-v for v in col])
        elif j in free:
            oc += [cj, -cj]
            ocol += [col, [-v for v in col]]
        else:
            oc.append(cj)
            ocol.append(col)
    for i in range(m):
        if rel[i] != "=":
            oc.append(F(0))
            ocol.append([F(1 if rel[i] == "<=" else -1) if k == i else F(0) for k in range(m)])
    return T(ocol), [fr(v) for v in b], oc


def general_status(A, b, c, z, rel, objective, free, neg):
    SA, Sb, Sc = to_sef(A, b, c, rel, objective, free, neg)
    r = sef_status(SA, Sb, Sc)
    if r[0] == "optimal":
        v = r[1] if objective == "max" else -r[1]
        return ("optimal", v + fr(z))
    return r


def max_flow_value(nodes, arcs, s, t):
    """Exact maximum flow value (Edmonds-Karp on Fractions). arcs: {(u, v): cap}."""
    R = {u: {} for u in nodes}
    for (u, v), w in arcs.items():
        R[u][v] = R[u].get(v, F(0)) + fr(w)
        R[v].setdefault(u, F(0))
    total = F(0)
    while True:
        par = {s: None}
        q = [s]
        for u in q:
            for v, w in R[u].items():
                if w > 0 and v not in par:
                    par[v] = u
                    q.append(v)
        if t not in par:
            return total
        path, v = [], t
        while par[v] is not None:
            path.append((par[v], v))
            v = par[v]
        d = min(R[u][v] for u, v in path)
        for u, v in path:
            R[u][v] -= d
            R[v][u] += d
        total += d


def rng_for(seed, tag):
    return random.Random(f"{tag}-{seed}")


def raises(kinds, fn, *a, **k):
    """None if fn raises one of kinds, else a description."""
    try:
        r = fn(*a, **k)
    except kinds:
        return None
    except Exception as e:
        return f"raised {type(e).__name__} instead of {kinds}: {e}"
    return f"was accepted (returned {r!r})"


def lpargs(d):
    return dict(A=d["A"], b=d["b"], c=d["c"], z=d.get("z", 0), objective=d.get("obj", "max"),
                inequalities=list(d["rel"]) if d.get("rel") is not None else None,
                free_variables=list(d["free"]) if d.get("free") is not None else None,
                negative_variables=list(d["neg"]) if d.get("neg") is not None else None)


def mklp(d, cls=None, arr=True):
    import numpy as np
    from pytimize.programs import LinearProgram
    cls = cls or LinearProgram
    k = lpargs(d)
    if arr:
        for f in ("A", "b", "c"):
            k[f] = np.array(k[f], dtype=float)
    return cls(k.pop("A"), k.pop("b"), k.pop("c"), **k)


def rand_lp(r, mmax=3, nmax=4, sef=False, indep=True, mag=5, zero=True, wild=0.15):
    """A random program with small integer data (free / neg are 1-based); now and then larger, or with one
    column or row of a very different magnitude (a power of two, so that the numbers stay exact)."""
    wide = r.random() < wild
    if wide and r.random() < .5:
        mmax, nmax = mmax + 2, nmax + 2
    while True:
        m = r.randint(1, mmax)
        n = r.randint(1 if not sef else m, nmax)
        A = [[r.choice([0, 0, 1, -1, 2, -2, r.randint(-mag, mag)]) for _ in range(n)] for _ in range(m)]
        if indep and rank(A) < m:
            continue
        b = [r.choice([0, 1, 2, r.randint(-mag, 2 * mag)]) for _ in range(m)]
        c = [r.randint(-mag, mag) for _ in range(n)]
        if wide and r.random() < .6:
            f = 2.0 ** r.choice([-10, -8, -7, 7])
            if r.random() < .7:
                i, j = r.randrange(m), r.randrange(n)
                if r.random() < .5:
                    A[i][j] = A[i][j] * f
                else:
                    for q in range(m):
                        A[q][j] = A[q][j] * f
            else:
                i = r.randrange(m)
                A[i] = [v * f for v in A[i]]
            if indep and rank(A) < m:
                continue
        z = r.choice([0, 0, 3, -2.5])
        if sef:
            return dict(A=A, b=b, c=c, z=z, obj="max", rel=None, free=None, neg=None)
        rel = [r.choice(["=", "<=", ">="]) for _ in range(m)]
        kind = [r.choice("pppfn") for _ in range(n)]
        free = [j + 1 for j in range(n) if kind[j] == "f"]
        neg = [j + 1 for j in range(n) if kind[j] == "n"]
        r.shuffle(free)
        r.shuffle(neg)
        return dict(A=A, b=b, c=c, z=z, obj=r.choice(["max", "min"]), rel=rel, free=free, neg=neg)


def snap(p):
    """Observable state of a linear program, through its public accessors."""
    return dict(A=p.A.tolist(), b=p.b.tolist(), c=p.c.tolist(), z=float(p.z), objective=p.objective,
                inequalities=list(p.inequalities), free=list(p.free_variables),
                neg=list(p.negative_variables), pos=list(p.positive_variables), sef=bool(p.is_sef))


def diff(a, b):
    return ", ".join(f"{k}: {a[k]} -> {b[k]}" for k in a if a[k] != b[k])
