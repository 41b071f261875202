from fractions import Fraction as F
from itertools import product
from lib import rand_lp, mklp, snap, dot


def cases(tier, r):
    while True:
        d = rand_lp(r, mmax=3, nmax=3, indep=False, sef=r.random() < 0.15)
        d["pts"] = [[r.choice([0, 1, -1, 2, 5, -3]) for _ in range(3)] for _ in range(4)]
        yield d


def feas(s, x):
    for i, row in enumerate(s["A"]):
        v = dot(map(F, row), map(F, x))
        b = F(s["b"][i])
        if not {"=": v == b, "<=": v <= b, ">=": v >= b}[s["inequalities"][i]]:
            return False
    for j, v in enumerate(x, 1):
        if j in s["neg"] and v > 0 or j in s["pos"] and v < 0:
            return False
    return True


def check(c):
    p = mklp(c)
    s = snap(p)
    d = p.dual()
    t = snap(d)
    if snap(p) != s:
        return "dual changed the program"
    mx = s["objective"] == "max"
    rel = ["=" if j in s["free"] else (("<=" if mx else ">=") if j in s["neg"] else (">=" if mx else "<=")) for j in range(1, len(s["c"]) + 1)]
    free, neg, pos = [], [], []
    for i, r in enumerate(s["inequalities"], 1):
        (free if r == "=" else neg if (r == ">=") == mx else pos).append(i)
    exp = dict(A=[list(q) for q in zip(*s["A"])], b=s["c"], c=s["b"], z=0.0, objective="min" if mx else "max", inequalities=rel, free=free, neg=neg, pos=pos,
               sef=(not mx) and all(q == "=" for q in rel) and not free and not neg)
    if t != exp:
        return f"the dual is {t}, expected {exp}"
    dd = snap(d.dual())
    if dd != dict(s, z=0.0):
        return f"the dual of the dual is {dd}"
    m, n = len(s["b"]), len(s["c"])
    grid = list(product([-1, 0, 1, 2], repeat=n))
    X = [x for x in grid if feas(s, x)]
    Y = [y for y in product([-1, 0, 1, 2], repeat=m) if feas(t, y)]
    for x in X:
        for y in Y:
            a, b_ = dot(map(F, s["c"]), x), dot(map(F, s["b"]), y)
            if (a > b_) if mx else (a < b_):
                return f"feasible x={x} and dual y={y} have objectives {a} and {b_}"
    return None
