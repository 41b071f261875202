from fractions import Fraction as F
from lib import rand_lp, mklp, dot, raises, mat, fr


def cases(tier, r):
    while True:
        d = rand_lp(r, mmax=3, nmax=4, sef=r.random() < 0.35, indep=False)
        m, n = len(d["b"]), len(d["c"])
        neg, free = d["neg"] or [], d["free"] or []
        x = [r.choice([0, 1, 2, 0.5]) * (-1 if j + 1 in neg else r.choice([1, -1]) if j + 1 in free else 1) for j in range(n)]
        rel = d["rel"] or ["="] * m
        d["b"] = [sum(a * v for a, v in zip(row, x)) + {"=": 0, "<=": r.choice([0, 0, 1, 0.5]), ">=": -r.choice([0, 0, 1, 0.5])}[rel[i]] for i, row in enumerate(d["A"])]
        if r.random() < 0.4:
            i = r.randrange(m)
            d["b"][i] += r.choice([0.5, -0.5, 2, -2, 0.03125])
        if r.random() < 0.3:
            j = r.randrange(n)
            x[j] += r.choice([-0.5, 0.5, -3, 3, 0.03125, -0.03125])
        yield dict(lp=d, x=x, arr=r.choice([True, False, "int"]), ip=r.random() < 0.25)


def check(c):
    import numpy as np
    from pytimize.programs import IntegerProgram
    d = c["lp"]
    p = mklp(d, IntegerProgram if c["ip"] else None)
    m, n = len(d["b"]), len(d["c"])
    rel, free, neg = d["rel"] or ["="] * m, d["free"] or [], d["neg"] or []
    x = c["x"]
    if c["arr"] == "int" and any(v != int(v) for v in x):
        c = dict(c, arr=True)
    arg = np.array(x, dtype=int) if c["arr"] == "int" else np.array(x, dtype=float) if c["arr"] else list(x)
    X = [fr(v) for v in x]
    exp = True
    for i, row in enumerate(mat(d["A"])):
        v, b = dot(row, X), fr(d["b"][i])
        if v != b and abs(v - b) <= F(1, 10 ** 4) * (1 + abs(v) + abs(b)):
            return None  # inside the tolerance, or not clearly outside it
        exp = exp and {"=": v == b, "<=": v <= b, ">=": v >= b}[rel[i]]
    for j, v in enumerate(X, 1):
        if j in neg:
            exp = exp and v <= 0
        elif j not in free:
            exp = exp and v >= 0
    for steps in (True, False):
        got = bool(p.is_feasible(arg, show_steps=steps))
        if got != exp:
            return f"is_feasible({x}) is {got}"
    val = dot([fr(v) for v in d["c"]], X) + fr(d["z"])
    if abs(F(float(p.evaluate(arg))) - val) > F(1, 10 ** 9):
        return f"evaluate({x}) is {p.evaluate(arg)}, expected {float(val)}"
    if exp:
        if abs(F(float(p.value_of(arg))) - val) > F(1, 10 ** 9):
            return f"value_of({x}) is {p.value_of(arg)}, expected {float(val)}"
    else:
        w = raises(ValueError, p.value_of, arg)
        if w:
            return f"value_of an infeasible vector {w}"
    for k in (n + 1, n - 1, n + 2):
        if k < 1:
            continue
        for bad in ([1.0] * k, np.ones(k)):
            w = raises(ValueError, p.is_feasible, bad) or raises(ValueError, p.evaluate, bad) or raises(ValueError, p.value_of, bad)
            if w:
                return f"a vector of size {k} instead of {n} {w}"
    return None
