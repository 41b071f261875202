from fractions import Fraction as F
from lib import rand_lp, mklp, basic, mat, solve_square, cols, dot, fr, raises


def cases(tier, r):
    while True:
        d = rand_lp(r, mmax=3, nmax=5, sef=True, indep=r.random() < 0.8)
        m, n = len(d["b"]), len(d["c"])
        u = r.random()
        if u < 0.7:
            B = r.sample(range(1, n + 1), m)
        elif u < 0.8:
            B = [r.randint(1, n) for _ in range(m)]
        elif u < 0.9:
            B = [r.choice([0, n + 1, -1, n + 2, r.randint(1, n)]) for _ in range(m)]
        else:
            B = r.sample(range(1, n + 1), r.choice([k for k in range(1, n + 1)]))
        if r.random() < 0.15:
            d = dict(d, rel=[r.choice(["<=", "="]) for _ in range(m)])
        yield dict(lp=d, B=B, pert=[r.choice([0, 0, 0, 0.5, -0.5, 0.01]) for _ in range(n)], arr=r.random() < .3)


def check(c):
    import numpy as np
    p = mklp(c["lp"])
    A, b = mat(c["lp"]["A"]), [fr(v) for v in c["lp"]["b"]]
    m, n = len(b), len(c["lp"]["c"])
    B = c["B"]
    L = lambda: list(B)
    ok = len(B) == m and all(1 <= j <= n for j in B)
    x = basic(A, b, [j - 1 for j in B]) if ok else None
    ok = ok and len(set(B)) == m and x is not None
    if bool(p.is_basis(L())) != ok:
        return f"is_basis({B}) is {p.is_basis(L())}"
    if not ok:
        m1 = raises(Exception, p.compute_basic_solution, L())
        if m1:
            return f"compute_basic_solution({B}) for a list that is not a basis {m1}"
        if p.is_basis_feasible(L()):
            return f"is_basis_feasible({B}) for a list that is not a basis"
        if p.is_sef:
            m1 = raises(Exception, p.is_basic_solution, np.zeros(n), L())
            if m1:
                return f"is_basic_solution for a list that is not a basis {m1}"
        return None
    got = p.compute_basic_solution(L())
    if got.shape != (n,) or any(abs(F(float(g)) - e) > F(1, 10 ** 7) for g, e in zip(got, x)):
        return f"the basic solution of {B} is {got}, expected {[float(v) for v in x]}"
    if any(got[j] != 0 for j in range(n) if j + 1 not in B):
        return "nonzero outside the basis"
    near = any(v < 0 and abs(v) < F(1, 1000) for v in x)
    if not near and bool(p.is_basis_feasible(L())) != all(v >= 0 for v in x):
        return f"is_basis_feasible({B}) is {p.is_basis_feasible(L())} with basic solution {[float(v) for v in x]}"
    if not p.is_sef:
        m1 = raises(Exception, p.is_basic_solution, got, L())
        return f"is_basic_solution for a program not in SEF {m1}" if m1 else None
    feas = all(v >= 0 for v in x)
    xf = np.array([float(v) for v in x])
    form = (lambda v: v) if c["arr"] else (lambda v: v.tolist())
    if not p.is_basic_solution(form(xf), L()):
        return f"the basic solution {xf} of {B} is not recognised"
    if not near and bool(p.is_feasible_basic_solution(form(xf), L())) != feas:
        return f"is_feasible_basic_solution({xf}, {B}) is not {feas}"
    y = [v + fr(q) for v, q in zip(x, c["pert"])]
    if max(abs(v) for v in y) > 50 or max(map(abs, b)) > 50:
        return None
    off = max([abs(dot(A[i], y) - b[i]) for i in range(m)])
    out = any(y[j] != 0 for j in range(n) if j + 1 not in B)
    if off > 0 and off < F(1, 200):
        return None
    exp = off == 0 and not out
    yf = np.array([float(v) for v in y])
    if bool(p.is_basic_solution(form(yf), L())) != exp:
        return f"is_basic_solution({yf}, {B}) is not {exp}"
    if all(v >= 0 for v in y) or any(v < -F(1, 1000) for v in y):
        if bool(p.is_feasible_basic_solution(form(yf), L())) != (exp and all(v >= 0 for v in y)):
            return f"is_feasible_basic_solution({yf}, {B}) is wrong"
    for bad in (np.zeros(n + 1), np.zeros(n - 1) if n > 1 else np.zeros((1, 1))):
        m1 = raises(Exception, p.is_basic_solution, bad, L()) or raises(Exception, p.is_feasible_basic_solution, bad, L())
        if m1:
            return f"a vector of the wrong size {m1}"
    return None
