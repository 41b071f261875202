from fractions import Fraction as F
from lib import rand_lp, mklp, basic, dot, raises, dual_of_basis, T, solve_square, cols
from simp import *


def cases(tier, r):
    while True:
        d = rand_lp(r, mmax=3, nmax=6, sef=True)
        m, n = len(d["b"]), len(d["c"])
        if r.random() < 0.5:  # a slack-form program, often feasible
            k = r.randint(1, 3)
            d["A"] = [row[:k] + [1 if i == q else 0 for q in range(m)] for i, row in enumerate(d["A"])]
            d["A"] = [([0] * (k + m - len(row)) + row) for row in d["A"]]
            d["b"] = [abs(v) for v in d["b"]]
            d["c"] = [r.randint(-3, 5) for _ in range(k)] + [0] * m
            n = k + m
        B = r.sample(range(1, n + 1), m) if r.random() < .6 else list(range(n - m + 1, n + 1))
        yield dict(lp=d, B=B, place=r.random() < 0.3)


def check(c):
    d, B = c["lp"], c["B"]
    A, b, cc = data(d)
    m, n = len(A), len(A[0])
    x0 = basic(A, b, [j - 1 for j in B]) if len(set(B)) == m else None
    p = mklp(d)
    if x0 is None:
        w = raises(Exception, p.simplex, list(B)) or raises(Exception, p.simplex_iteration, list(B))
        return f"a list that is not a basis {w}" if w else None
    if m and n:
        q = mklp(dict(d, rel=["<="] * m))
        w = raises(ArithmeticError, q.simplex, list(B)) or raises(ArithmeticError, q.simplex_iteration, list(B))
        if w:
            return f"a program not in SEF {w}"
    feas0 = all(v >= 0 for v in x0)
    near0 = any(-F(1, 1000) < v < 0 for v in x0)
    if near0:
        return None
    try:
        x, nb, up = p.simplex_iteration(list(B), in_place=c["place"])
        if c["place"] and up is not p:
            return "simplex_iteration in place does not return the program"
        if x is not None:
            y = dual_of_basis(A, cc, [j - 1 for j in nb])
            if y is None or sorted(nb) != sorted(B):
                return f"an optimal iteration changed the basis {B} to {nb}"
            import numpy as np
            w = check_optimal(A, b, cc, x, nb, np.array([float(v) for v in y]))
            if w:
                return f"iteration from {B}: {w}"
        elif nb is not None:
            out, inn = set(B) - set(nb), set(nb) - set(B)
            if len(nb) != m or len(set(nb)) != m or len(out) != 1 or len(inn) != 1 or not all(1 <= j <= n for j in nb):
                return f"iteration took basis {B} to {nb}"
            x1 = basic(A, b, [j - 1 for j in nb])
            if x1 is None:
                return f"iteration took basis {B} to {nb}, which is not a basis"
            y = dual_of_basis(A, cc, [j - 1 for j in B])
            k = next(iter(inn)) - 1
            if cc[k] - dot(y, [r[k] for r in A]) <= 0:
                return f"iteration from {B} entered column {k + 1}, which does not improve"
            if feas0:
                if any(v < 0 for v in x1):
                    return f"iteration took the feasible basis {B} to the infeasible {nb}"
                if dot(cc, x1) < dot(cc, x0):
                    return f"iteration from {B} to {nb} lowered the objective"
        elif not feas0:
            return f"iteration from the infeasible basis {B} reports unboundedness"
        else:
            y = dual_of_basis(A, cc, [j - 1 for j in B])
            Ab = cols(A, [j - 1 for j in B])
            ok = False
            for j in range(n):
                col = [r[j] for r in A]
                if j + 1 not in B and cc[j] - dot(y, col) > 0 and all(v <= 0 for v in solve_square(Ab, col)):
                    ok = True
            if not ok:
                return f"iteration from {B} reports unboundedness without a ray"
    except ArithmeticError:
        if feas0:
            return f"iteration from the feasible basis {B} was refused"
    if not feas0:
        # termination is only promised from feasible bases: follow the iteration, at most 40 steps
        cur, q, steps = list(B), mklp(d), 0
        while steps < 40:
            steps += 1
            try:
                x, cur, up = q.simplex_iteration(cur)
            except ArithmeticError:
                break
            if x is not None or cur is None:
                break
        else:
            return None
    p = mklp(d)
    try:
        x, basis, cert = p.simplex(list(B))
    except ArithmeticError:
        return f"simplex refused the feasible basis {B}" if feas0 else None
    if basis is not None:
        return check_optimal(A, b, cc, x, basis, cert)
    if x is not None:
        return "an unbounded outcome with a solution"
    return check_unbounded(A, b, cc, cert)
