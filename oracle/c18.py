from fractions import Fraction as F
from lib import rand_lp, mklp, dot, raises, sef_status
from simp import *


def cases(tier, r):
    while True:
        d = rand_lp(r, mmax=3, nmax=6, sef=True, mag=r.choice([2, 5]))
        if r.random() < 0.25:
            d["b"] = [r.choice([0, 0, v]) for v in d["b"]]
        if r.random() < 0.3:  # feasible by construction
            x = [r.choice([0, 0, 1, 2]) for _ in d["c"]]
            d["b"] = [sum(a * v for a, v in zip(row, x)) for row in d["A"]]
        elif r.random() < 0.2:
            d["b"] = [-abs(v) - 1 for v in d["b"]]
        yield d


def check(d):
    p = mklp(d)
    A, b, c = data(d)
    m, n = len(A), len(A[0])
    st = sef_status(A, b, c)
    x, basis, cert = p.two_phase_simplex()
    if basis is not None:
        if st[0] != "optimal":
            return f"the program is {st[0]}, two-phase reports the optimum {x}"
        w = check_optimal(A, b, c, x, basis, cert)
        if w:
            return w
        if abs(dot(c, vec(x, n)) - st[1]) > F(1, 10 ** 5) * max(1, abs(st[1])):
            return f"objective {float(dot(c, vec(x, n)))} is not the optimum {float(st[1])}"
    elif x is not None:
        return "a solution without a basis"
    elif isinstance(cert, (tuple, list)):
        if st[0] != "unbounded":
            return f"the program is {st[0]}, two-phase reports unboundedness"
        return check_unbounded(A, b, c, cert)
    else:
        if st[0] != "infeasible":
            return f"the program is {st[0]}, two-phase reports infeasibility"
        Y = vec(cert, m)
        if Y is None:
            return f"infeasibility certificate {cert} has the wrong shape"
        if any(dot([r[j] for r in A], Y) < -TOL * scale(Y) * 10 for j in range(n)) or dot(Y, b) >= -F(1, 10 ** 8):
            return f"{cert} is not an infeasibility certificate"
    if n and m:
        w = raises(ArithmeticError, mklp(dict(d, obj="min")).two_phase_simplex)
        if w:
            return f"a program not in SEF {w}"
    return None
