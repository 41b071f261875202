from fractions import Fraction as F
from lib import rand_lp, mklp, dot, raises, mat, fr


def cases(tier, r):
    while True:
        d = rand_lp(r, mmax=3, nmax=4, sef=True, indep=False, mag=r.choice([2, 4]))
        m, n = len(d["b"]), len(d["c"])
        y = [r.choice([0, 1, -1, 2, -2, 0.5, -1.5]) for _ in range(m)]
        x = [r.choice([0, 1, 2, 0, 1.5, -1]) if r.random() < .3 else r.choice([0, 1, 2]) for _ in range(n)]
        dd = [r.choice([0, 0, 1, 2, -1] if r.random() < .3 else [0, 1, 2]) for _ in range(n)]
        u = r.random()
        if u < 0.5:
            d["b"] = [sum(a * v for a, v in zip(row, x)) for row in d["A"]]
        if u < 0.4 and m == 1:
            pass
        if r.random() < 0.3:
            for row in d["A"]:
                k = next((j for j in range(n) if dd[j] == 1), None)
                if k is not None:
                    row[k] -= sum(a * v for a, v in zip(row, dd))
            d["b"] = [sum(a * v for a, v in zip(row, x)) for row in d["A"]]
        if r.random() < 0.3:  # make y tight on some columns
            d["c"] = [sum(y[i] * d["A"][i][j] for i in range(m)) - r.choice([0, 0, 1, 0.5, -0.25 if r.random() < .3 else 0]) for j in range(n)]
        if r.random() < 0.3:
            s = [1 if v >= 0 else -1 for v in y]
            d["A"] = [[abs(v) * s[i] for v in row] for i, row in enumerate(d["A"])]
            d["b"] = [-abs(v) * s[i] for i, v in enumerate(d["b"])]
        yield dict(lp=d, y=y, x=x, d=dd, arr=r.random() < 0.5)


def check(c):
    import numpy as np
    d = c["lp"]
    p = mklp(d)
    A, b, cc = mat(d["A"]), [fr(v) for v in d["b"]], [fr(v) for v in d["c"]]
    m, n = len(A), len(A[0])
    y, x, r = [fr(v) for v in c["y"]], [fr(v) for v in c["x"]], [fr(v) for v in c["d"]]
    f = (lambda v: np.array(v, float)) if c["arr"] else (lambda v: list(v))
    yA = [dot(y, [row[j] for row in A]) for j in range(n)]
    exp = all(v >= 0 for v in yA) and dot(y, b) < 0
    got = bool(p.verify_infeasibility(f(c["y"])))
    if got != exp:
        return f"verify_infeasibility({c['y']}) is {got}"
    exp = all(v >= q for v, q in zip(yA, cc))
    got = bool(p.verify_optimality(f(c["y"])))
    if got != exp:
        return f"verify_optimality({c['y']}) is {got}"
    fx = all(v >= 0 for v in x) and all(dot(row, x) == q for row, q in zip(A, b))
    exp = fx and all(v >= 0 for v in r) and all(dot(row, r) == 0 for row in A) and dot(cc, r) > 0
    got = bool(p.verify_unboundedness(f(c["x"]), f(c["d"])))
    if got != exp:
        return f"verify_unboundedness({c['x']}, {c['d']}) is {got}"
    for q in (mklp(dict(d, obj="min")), mklp(dict(d, rel=["<="] * m)), mklp(dict(d, free=[1]))):
        w = raises(ArithmeticError, q.verify_infeasibility, f(c["y"])) or raises(ArithmeticError, q.verify_optimality, f(c["y"])) or \
            raises(ArithmeticError, q.verify_unboundedness, f(c["x"]), f(c["d"]))
        if w:
            return f"a program not in SEF {w}"
    return None
