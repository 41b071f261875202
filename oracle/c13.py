from lib import rand_lp, mklp, snap, to_sef


def cases(tier, r):
    while True:
        d = rand_lp(r, mmax=4, nmax=5, indep=False, sef=False)
        d["place"] = r.random() < 0.4
        d["steps"] = r.random() < 0.5
        d["pre"] = r.random() < 0.3
        yield d


def check(c):
    p = mklp(c)
    if c["pre"]:  # a program that grew
        n = len(c["c"])
        p = p.add_variable(2, [1] * len(c["b"]), True).add_variable(-1, [2] * len(c["b"]), False, True).add_constraint([1] * (n + 2), ">=", 4)
    s = snap(p)
    q = p.to_sef(show_steps=c["steps"], in_place=c["place"])
    A, b, cc = to_sef(s["A"], s["b"], s["c"], s["inequalities"], s["objective"], [j - 1 for j in s["free"]], [j - 1 for j in s["neg"]])
    t = snap(q)
    if t["objective"] != "max" or any(x != "=" for x in t["inequalities"]) or t["free"] or t["neg"] or not t["sef"]:
        return f"the result is not in standard equality form: {t}"
    if [list(map(float, row)) for row in A] != t["A"] or list(map(float, cc)) != t["c"] or s["b"] != t["b"] or s["z"] != t["z"]:
        return f"the standard equality form is {t}, expected A={[list(map(float, r)) for r in A]} b={s['b']} c={list(map(float, cc))} z={s['z']}"
    return None
