from fractions import Fraction as F
from lib import rand_lp, mklp, basic, mat, solve_square, cols, dot, fr, raises, T, snap, diff
EPS = F(1, 10 ** 6)


def cases(tier, r):
    while True:
        d = rand_lp(r, mmax=3, nmax=5, sef=True, indep=r.random() < 0.9)
        m, n = len(d["b"]), len(d["c"])
        B = r.sample(range(1, n + 1), m) if r.random() < 0.9 else [r.randint(0, n + 1) for _ in range(m)]
        if r.random() < 0.08:
            d = dict(d, rel=["<="] * m)
        if r.random() < 0.4:
            B.sort()
        yield dict(lp=d, B=B, place=r.random() < .4, steps=r.random() < .5)


def near(a, b):
    return abs(F(float(a)) - b) <= EPS * max(1, abs(b))


def check(c):
    import numpy as np
    d = c["lp"]
    p = mklp(d)
    A, b, cc, z = mat(d["A"]), [fr(v) for v in d["b"]], [fr(v) for v in d["c"]], fr(d["z"])
    m, n, B = len(b), len(cc), c["B"]
    ok = all(1 <= j <= n for j in B) and len(set(B)) == m and basic(A, b, [j - 1 for j in B]) is not None
    if not ok or not p.is_sef:
        s = snap(p)
        w = raises(Exception, p.to_canonical_form, list(B), in_place=True)
        if w:
            return f"to_canonical_form({B}) {w}"
        if snap(p) != s:
            return "a refused conversion changed the program"
        if not ok and p.is_canonical_form_for(list(B)):
            return f"is_canonical_form_for({B}) for a list that is not a basis"
        return None
    q = p.to_canonical_form(list(B), show_steps=c["steps"], in_place=c["place"])
    y = solve_square(T(cols(A, [j - 1 for j in B])), [cc[j - 1] for j in B])
    ec = [cc[j] - dot(y, [row[j] for row in A]) for j in range(n)]
    ez = z + dot(y, b)
    good = False
    for order in (B, sorted(B)):
        Ab = cols(A, [j - 1 for j in order])
        eA = T([solve_square(Ab, [row[j] for row in A]) for j in range(n)])
        eb = solve_square(Ab, b)
        if q.A.shape == (m, n) and q.b.shape == (m,) and all(near(q.A[i, j], eA[i][j]) for i in range(m) for j in range(n)) and all(near(q.b[i], eb[i]) for i in range(m)):
            good = True
    if not good:
        return f"canonical form for {B} is A={q.A.tolist()} b={q.b.tolist()}, expected A={[[float(v) for v in r] for r in eA]} b={[float(v) for v in eb]}"
    if not all(near(q.c[j], ec[j]) for j in range(n)):
        return f"canonical objective is {q.c.tolist()}, expected {[float(v) for v in ec]}"
    if not near(q.z, ez):
        return f"canonical constant is {q.z}, expected {float(ez)}"
    s = snap(q)
    if not s["sef"] or s["objective"] != "max" or s["free"] or s["neg"] or any(r != "=" for r in s["inequalities"]):
        return "the canonical form is not in standard equality form"
    Bs = sorted(B)
    q = mklp(d).to_canonical_form(list(Bs))
    if not q.is_canonical_form_for(list(Bs)):
        return f"the canonical form for {Bs} is not recognised"
    idn = all(A[i][j - 1] == (1 if i == k else 0) for k, j in enumerate(Bs) for i in range(m)) and all(cc[j - 1] == 0 for j in Bs)
    if bool(mklp(d).is_canonical_form_for(list(Bs))) != idn:
        return f"is_canonical_form_for({Bs}) is {not idn} for A={d['A']} c={d['c']}"
    # recognition with one entry disturbed
    j = Bs[0] - 1
    import copy
    for what in ("A", "c"):
        e = copy.deepcopy(d)
        e["A"], e["b"], e["c"] = q.A.tolist(), q.b.tolist(), q.c.tolist()
        if what == "A":
            e["A"][m - 1][j] += 0.5
        else:
            e["c"][j] += 0.5
        if mklp(e).is_canonical_form_for(list(Bs)):
            return f"is_canonical_form_for({Bs}) accepts a program whose {what} is not canonical there"
    return None
