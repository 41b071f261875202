from lib import rand_lp, mklp, snap, diff


def cases(tier, r):
    while True:
        d = rand_lp(r, sef=r.random() < 0.4, indep=False)
        m, n = len(d["b"]), len(d["c"])
        ops = []
        for _ in range(r.randint(1, 4)):
            u = r.random()
            num = lambda: r.choice([0, 1, -2, 3.5])
            if u < 0.35:
                ops.append(["con", [num() for _ in range(n)], r.choice(["=", "<=", ">="]), num(), r.random() < .5, r.random() < .5])
                m += 1
            elif u < 0.75:
                k = r.choice("ppfn")
                ops.append(["var", num(), [num() for _ in range(m)] if r.random() < .8 else None, k == "f", k == "n", r.random() < .5, r.random() < .5])
                n += 1
            else:
                k = r.choice(["conlen", "condim", "conrel", "context", "varlen", "both"])
                if k == "conlen":
                    ops.append(["con", [1] * r.choice([n - 1, n + 1, n + 2]), r.choice(["=", "<=", ">="]), 1, True, r.random() < .5, "bad"])
                elif k == "condim":
                    ops.append(["con", [[1] * n] * r.choice([1, n]), r.choice(["=", "<="]), 1, True, r.random() < .5, "bad"])
                elif k == "conrel":
                    ops.append(["con", [1] * n, r.choice(["<", ">", "==", "", "=<", "><"]), 1, True, r.random() < .5, "bad"])
                elif k == "context":
                    ops.append(["con", ["x"] * n, r.choice(["=", ">="]), 1, True, False, "bad"])
                elif k == "varlen":
                    ops.append(["var", 1, [1] * r.choice([m + 1, m + 2]), *r.choice([[True, False], [False, True], [False, False]]), True, r.random() < .5, "bad"])
                else:
                    ops.append(["var", 1, [1] * m, True, True, True, r.random() < .5, "bad"])
        yield dict(lp=d, ops=ops)


def check(c):
    import numpy as np
    p = mklp(c["lp"])
    e = snap(p)
    for op in c["ops"]:
        bad = op[-1] == "bad"
        wrap = (lambda v: np.array(v)) if op[5 if op[0] == "con" else 6] else (lambda v: v)
        before = snap(p)
        try:
            if op[0] == "con":
                q = p.add_constraint(wrap(op[1]), op[2], op[3], in_place=op[4])
            else:
                q = p.add_variable(op[1], wrap(op[2]) if op[2] is not None else None, op[3], op[4], in_place=op[5])
        except ValueError:
            if not bad:
                return f"{op} refused"
            if snap(p) != before:
                return f"refused {op} but changed the program: {diff(before, snap(p))}"
            continue
        if bad:
            return f"malformed addition {op} accepted"
        if op[0] == "con":
            e["A"] = e["A"] + [[float(v) for v in op[1]]]
            e["b"] = e["b"] + [float(op[3])]
            e["inequalities"] = e["inequalities"] + [op[2]]
            e["sef"] = e["sef"] and op[2] == "="
            ip = op[4]
        else:
            n = len(e["c"])
            col = op[2] if op[2] is not None else [0] * len(e["b"])
            e["A"] = [row + [float(v)] for row, v in zip(e["A"], col)]
            e["c"] = e["c"] + [float(op[1])]
            e["free" if op[3] else "neg" if op[4] else "pos"] = e["free" if op[3] else "neg" if op[4] else "pos"] + [n + 1]
            e["sef"] = e["sef"] and not op[3] and not op[4]
            ip = op[5]
        if ip and q is not p:
            return "in place did not return the program"
        if not ip and snap(p) != before:
            return f"{op} changed the original"
        if snap(q) != e:
            return f"{op}: {diff(e, snap(q))}"
        p = q
    return None
