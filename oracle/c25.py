def cases(tier, r):
    while True:
        n = r.randint(1, 5)
        k = r.choice([1] * 8 + [2.0 ** -20, 2.0 ** 14])
        num = lambda: r.choice([1, -1, 2, 2.5, -3]) * (k if r.random() < 0.5 else 1)
        aff = lambda: dict(t={str(j): num() for j in r.sample(range(n), r.randint(1, n))}, z=r.choice([0, 0, 3, -1.5]))
        obj = aff() if r.random() < 0.85 else (dict(t={}, z=r.choice([0, 5])) if r.random() < .5 else dict(t={str(r.randrange(n)): 1}, z=0, bare=True))
        cons = [dict(aff(), rel=r.choice(["<=", ">=", "="]), rhs=r.choice([0, 1, 4, -2.5])) for _ in range(r.randint(1, 4))]
        used = max([int(k) for q in cons + [obj] for k in q["t"]]) + 1
        wh = []
        for _ in range(r.randint(0, 3)):
            u = r.random()
            if u < 0.12:
                wh.append([["all", r.choice([">=", "<="])]])
            elif u < 0.2:
                wh.append([["ALL", r.choice([">=", "<="])]])
            elif u < 0.35:
                wh.append("look")
            else:
                wh.append([[r.randrange(used), r.choice([">=", "<="])] for _ in range(r.randint(1, 2))])
        yield dict(n=n, sense=r.choice(["min", "max"]), obj=obj, cons=cons, where=wh)


def check(c):
    import numpy as np
    from pytimize.formulations.linear import maximize, minimize, variables, x
    V = variables(c["n"])

    def expr(q):
        e = None
        for k, a in q["t"].items():
            t = a * V[int(k)]
            e = t if e is None else e + t
        return q["z"] if e is None else e + q["z"]
    cons = []
    for q in c["cons"]:
        e = expr(q)
        cons.append(e <= q["rhs"] if q["rel"] == "<=" else e >= q["rhs"] if q["rel"] == ">=" else e == q["rhs"])
    o = V[int(next(iter(c["obj"]["t"])))] if c["obj"].get("bare") else expr(c["obj"])
    model = (minimize if c["sense"] == "min" else maximize)(o).subject_to(*cons)
    n = max([int(k) for q in c["cons"] + [c["obj"]] for k in q["t"]]) + 1
    row = lambda t: [float(t.get(str(j), 0)) for j in range(n)]
    A = [row(q["t"]) for q in c["cons"]]
    b = [float(q["rhs"] - q["z"]) for q in c["cons"]]
    pos, neg = [], []

    def bad():
        p = model.program
        got = dict(A=p.A.tolist(), b=p.b.tolist(), c=p.c.tolist(), z=float(p.z), obj=p.objective, rel=list(p.inequalities), free=list(p.free_variables),
                   neg=list(p.negative_variables), pos=list(p.positive_variables))
        exp = dict(A=A, b=b, c=row(c["obj"]["t"]), z=float(c["obj"]["z"]), obj=c["sense"], rel=[q["rel"] for q in c["cons"]],
                   free=[j for j in range(1, n + 1) if j not in pos and j not in neg], neg=sorted(neg), pos=sorted(pos))
        if got != exp:
            return ", ".join(f"{k} is {got[k]}, written was {exp[k]}" for k in exp if got[k] != exp[k])
    if not c["where"]:
        return bad()
    for w in c["where"]:
        if w == "look":
            m = bad()
            if m:
                return m
            continue
        np_, nn = list(pos), list(neg)
        if w[0][0] == "ALL":
            ok = not pos and not neg
            (np_ if w[0][1] == ">=" else nn).extend(range(1, n + 1))
            f = lambda: model.whereAllPositive() if w[0][1] == ">=" else model.whereAllNegative()
        else:
            args = []
            for v, rel in w:
                (np_ if rel == ">=" else nn).extend(range(1, n + 1) if v == "all" else [v + 1])
                q = x if v == "all" else V[v]
                args.append(q >= 0 if rel == ">=" else q <= 0)
            ok = len(set(np_)) == len(np_) and len(set(nn)) == len(nn) and not set(np_) & set(nn)
            f = lambda: model.where(*args)
        try:
            r = f()
        except ValueError:
            return f"restriction {w} after {c['where']} was refused" if ok else None
        if not ok:
            return f"contradictory or repeated restriction {w} was accepted"
        if r is not model:
            if not hasattr(r, "program"):
                return "where does not return the model"
            model = r
        pos, neg = np_, nn
        m = bad() if c["n"] % 2 else None
        if m:
            return m
    return bad()
