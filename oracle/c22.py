from fractions import Fraction as F
from itertools import product
import math
from lib import rand_lp, mklp, dot, mat, fr, snap, diff, general_status, rank


def cases(tier, r):
    while True:
        n = r.randint(1, 3)
        d = rand_lp(r, mmax=2, nmax=3, indep=True, mag=r.choice([3, 5]), wild=0)
        n, m = len(d["c"]), len(d["b"])
        d["rel"] = [r.choice(["<=", "<=", ">=", "="]) for _ in d["rel"]]
        # a bounding box makes the relaxation bounded
        box = []
        for j in range(n):
            w = r.choice([1, 2, 3, 2.5])
            unit = [1 if k == j else 0 for k in range(n)]
            if j + 1 in d["free"]:
                d["A"] += [unit, unit]
                d["b"] += [w, -w]
                d["rel"] += ["<=", ">="]
                box.append((-w, w))
            elif j + 1 in d["neg"]:
                d["A"].append(unit)
                d["b"].append(-w)
                d["rel"].append(">=")
                box.append((-w, 0))
            else:
                d["A"].append(unit)
                d["b"].append(w)
                d["rel"].append("<=")
                box.append((0, w))
        integ = None if r.random() < 0.6 else sorted(r.sample(range(1, n + 1), r.randint(0, n)))
        if integ is not None and len(integ) < n - 1 and n > 2:
            integ = sorted(r.sample(range(1, n + 1), n - 1))
        yield dict(lp=d, box=box, integ=integ)


def truth(c):
    d = c["lp"]
    n, m = len(d["c"]), len(d["b"])
    A, b = mat(d["A"]), [fr(v) for v in d["b"]]
    I = [j for j in range(n) if c["integ"] is None or j + 1 in c["integ"]]
    R = [j for j in range(n) if j not in I]
    best = None
    for vals in product(*[range(math.ceil(c["box"][j][0]), math.floor(c["box"][j][1]) + 1) for j in I]):
        fx = dict(zip(I, vals))
        bb = [b[i] - sum(A[i][j] * v for j, v in fx.items()) for i in range(m)]
        const = sum(fr(d["c"][j]) * v for j, v in fx.items()) + fr(d["z"])
        if not R:
            ok = all({"=": q == 0, "<=": q >= 0, ">=": q <= 0}[s] for q, s in zip(bb, d["rel"]))
            if not ok:
                continue
            v = const
        else:
            # one continuous variable: an interval
            j = R[0]
            lo, hi = map(fr, c["box"][j])
            ok = True
            for i in range(m):
                a = A[i][j]
                if a == 0:
                    ok = ok and {"=": bb[i] == 0, "<=": bb[i] >= 0, ">=": bb[i] <= 0}[d["rel"][i]]
                else:
                    t = bb[i] / a
                    s = d["rel"][i]
                    if s == "=" or (s == "<=") == (a > 0):
                        hi = min(hi, t)
                    if s == "=" or (s == ">=") == (a > 0):
                        lo = max(lo, t)
            if not ok or lo > hi:
                continue
            e = [const + fr(d["c"][j]) * q for q in (lo, hi)]
            v = max(e) if d["obj"] == "max" else min(e)
        if best is None or (v > best if d["obj"] == "max" else v < best):
            best = v
    return best


def check(c):
    from pytimize.programs import IntegerProgram
    d = c["lp"]
    n, m = len(d["c"]), len(d["b"])
    if n - (n if c["integ"] is None else len(c["integ"])) > 1:
        return None
    from lib import lpargs
    import numpy as np
    k = lpargs(d)
    ip = IntegerProgram(np.array(k.pop("A"), float), np.array(k.pop("b"), float), np.array(k.pop("c"), float), **k, integral_variables=c["integ"])
    s = snap(ip)
    x = ip.branch_and_bound()
    if snap(ip) != s:
        return f"branch_and_bound changed the program: {diff(s, snap(ip))}"
    if snap(ip.relax()) != s:
        return f"the relaxation is another program: {diff(s, snap(ip.relax()))}"
    best = truth(c)
    if x is None:
        return None if best is None else f"nothing returned, the optimum is {float(best)}"
    if best is None:
        return f"the program is infeasible, {x} was returned"
    X = [F(float(v)) for v in x]
    t = F(1, 10 ** 6)
    if len(X) != n:
        return f"{x} has the wrong size"
    for i in range(m):
        v, b = dot(mat(d["A"])[i], X), fr(d["b"][i])
        if d["rel"][i] != ">=" and v > b + t or d["rel"][i] != "<=" and v < b - t:
            return f"{x} violates row {i + 1}"
    for j in range(n):
        if j + 1 in d["neg"] and X[j] > t or j + 1 not in d["neg"] and j + 1 not in d["free"] and X[j] < -t:
            return f"{x} violates the sign of variable {j + 1}"
        if (c["integ"] is None or j + 1 in c["integ"]) and abs(X[j] - round(X[j])) > F(1, 10 ** 9):
            return f"variable {j + 1} of {x} is not integral"
    val = dot([fr(v) for v in d["c"]], X) + fr(d["z"])
    if abs(val - best) > F(1, 10 ** 5):
        return f"{x} has objective {float(val)}, the integral optimum is {float(best)}"
    return None
