from fractions import Fraction as F
from lib import rand_lp, mklp, dot, general_status, fr, mat


def cases(tier, r):
    while True:
        d = rand_lp(r, mmax=3, nmax=4, sef=r.random() < 0.15)
        n, m = len(d["c"]), len(d["b"])
        if r.random() < 0.35 and d["rel"]:  # feasible by construction
            x = [(-1 if j + 1 in d["neg"] else r.choice([1, -1]) if j + 1 in d["free"] else 1) * r.choice([0, 1, 2]) for j in range(n)]
            for i in range(m):
                v = sum(a * q for a, q in zip(d["A"][i], x))
                d["b"][i] = v + {"=": 0, "<=": r.choice([0, 1, 3]), ">=": -r.choice([0, 1, 3])}[d["rel"][i]]
        yield d


def tol(*vs):
    return F(1, 10 ** 6) * max([1] + [abs(v) for v in vs])


def check(d):
    p = mklp(d)
    m, n = len(d["b"]), len(d["c"])
    rel, free, neg = d["rel"] or ["="] * m, d["free"] or [], d["neg"] or []
    st = general_status(mat(d["A"]), d["b"], d["c"], d["z"], rel, d["obj"], [j - 1 for j in free], [j - 1 for j in neg])
    x = p.solve()
    v = p.optimal_value()
    if x is None:
        if st[0] == "optimal":
            return f"no solution returned, the optimum is {float(st[1])}"
        return None if v is None else f"optimal_value is {v} without a solution"
    if st[0] != "optimal":
        return f"the program is {st[0]}, solve returned {x}"
    if getattr(x, "shape", None) != (n,):
        return f"the solution {x} has the wrong size"
    X = [F(float(q)) for q in x]
    t = tol(*X) * 10
    for i in range(m):
        a, b = dot(mat(d["A"])[i], X), fr(d["b"][i])
        if rel[i] != ">=" and a > b + t or rel[i] != "<=" and a < b - t:
            return f"the solution {x} violates row {i + 1}"
    for j in range(n):
        if j + 1 in neg and X[j] > t or j + 1 not in neg and j + 1 not in free and X[j] < -t:
            return f"the solution {x} violates the sign of variable {j + 1}"
    val = dot([fr(q) for q in d["c"]], X) + fr(d["z"])
    if abs(val - st[1]) > tol(val) * 50:
        return f"the solution {x} has objective {float(val)}, the optimum is {float(st[1])}"
    if v is None or abs(F(float(v)) - st[1]) > tol(val) * 50:
        return f"optimal_value is {v}, expected {float(st[1])}"
    return None
