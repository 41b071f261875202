import copy

def cases(tier, r):
    good = dict(A=[[1, 2], [3, 4]], b=[1, 2], c=[5, 6])
    yield dict(good)
    for f, v in [("A", [1, 2]), ("A", [[1, 2], [3]]), ("A", [[1, 2], 3]), ("A", [[1, "2"], [3, 4]]), ("A", [[[1, 2]], [[3, 4]]]), ("A", "x"), ("A", 3),
                 ("A", None), ("b", [[1], [2]]), ("b", [1, 2, 3]), ("b", [1]), ("b", ["1", "2"]), ("b", [1, None]), ("c", [1]), ("c", [[1, 2]]), ("c", "ab"), ("c", [1, "x"]),
                 ("obj", "Max"), ("obj", ""), ("obj", "maximize"), ("obj", None), ("rel", ["="]), ("rel", ["=", "=", "="]), ("rel", ["=", "<"]), ("rel", ["==", "="]), ("rel", ["=", ">"]),
                 ("rel", ["", "="]), ("rel", []), ("free", [0]), ("free", [3]), ("free", [1, 1]), ("free", [-1]), ("neg", [0]), ("neg", [3]), ("neg", [2, 2]), ("neg", [-1])]:
        yield dict(good, **{f: v}, bad=True)
        if f in "Abc":
            yield dict(good, **{f: v}, bad=True, np=True)
    yield dict(good, free=[1], neg=[1], bad=True)
    yield dict(good, free=[2, 1], neg=[2], bad=True)
    while True:
        m, n = r.randint(1, 4), r.randint(1, 5)
        num = lambda: r.choice([0, 1, -2, 3.5, r.randint(-9, 9), r.uniform(-5, 5)])
        d = dict(A=[[num() for _ in range(n)] for _ in range(m)], b=[num() for _ in range(m)], c=[num() for _ in range(n)], z=num(), obj=r.choice(["max", "min"]), np=r.choice([False, True, "int"]))
        kinds = [r.choice("pppfn") for _ in range(n)] if r.random() < .8 else ["p"] * n
        if r.random() < 0.75:
            d["free"] = [j + 1 for j in range(n) if kinds[j] == "f"]
            d["neg"] = [j + 1 for j in range(n) if kinds[j] == "n"]
            r.shuffle(d["free"])
            r.shuffle(d["neg"])
        if r.random() < 0.7:
            d["rel"] = [r.choice(["=", "=", "<=", ">="]) for _ in range(m)]
        if d["np"] == "int":
            for f in ("b", "c"):
                d[f] = [int(v) for v in d[f]]
            d["A"] = [[int(v) for v in row] for row in d["A"]]
        u = r.random()
        if u < 0.4:
            d["bad"] = True
            k = r.choice(["dupfree", "dupneg", "range", "overlap", "rel", "rel", "rellen", "obj", "b", "c", "rag"])
            if k == "dupfree":
                d["free"] = [1, n, 1] if n > 1 else [1, 1]
                d["neg"] = []
            elif k == "dupneg":
                d["neg"] = [n, n]
                d["free"] = []
            elif k == "range":
                f = r.choice(["free", "neg"])
                d[f] = list(d.get(f) or []) + [r.choice([0, n + 1, n + 2, -1])]
            elif k == "overlap":
                j = r.randint(1, n)
                d["free"] = sorted(set(d.get("free") or []) | {j})
                d["neg"] = sorted(set(d.get("neg") or []) | {j})
            elif k == "rel":
                d["rel"] = [r.choice(["=", "<=", ">="]) for _ in range(m)]
                d["rel"][r.randrange(m)] = r.choice(["<", ">", "==", "=<", "=>", "", "≤"])
            elif k == "rellen":
                d["rel"] = ["<="] * r.choice([m - 1, m + 1, m + 2])
            elif k == "obj":
                d["obj"] = r.choice(["MAX", "mn", "", "maximise", "minmax"])
            elif k == "b":
                d["b"] = [1] * r.choice([m - 1, m + 1]) if m > 1 else [1, 1]
            elif k == "c":
                d["c"] = [1] * (n + r.choice([1, 2]))
            elif k == "rag":
                d["np"] = False
                if m > 1:
                    d["A"][r.randrange(m)] = [1] * (n + 1)
                else:
                    d["A"] = [1] * n
        yield d


def check(c):
    import numpy as np
    from pytimize.programs import LinearProgram, IntegerProgram
    for cls in (LinearProgram, IntegerProgram):
        arg = {f: copy.deepcopy(c[f]) for f in ("A", "b", "c")}
        if c.get("np"):
            try:
                arg = {f: np.array(v, dtype=int if c["np"] == "int" else None) for f, v in arg.items()}
            except ValueError:
                return None
            if c.get("bad") and arg["A"].dtype == object:
                pass
        kw = {}
        for f, k in (("z", "z"), ("obj", "objective"), ("rel", "inequalities"), ("free", "free_variables"), ("neg", "negative_variables")):
            if f in c:
                kw[k] = copy.deepcopy(c[f])
        keep = copy.deepcopy((arg, kw))
        try:
            p = cls(arg["A"], arg["b"], arg["c"], **kw)
        except ValueError as e:
            if c.get("bad"):
                continue
            return f"a well-formed program was refused: {e}"
        if c.get("bad"):
            return "a malformed program was accepted"
        if kw != keep[1] or any(not np.array_equal(arg[f], keep[0][f]) for f in arg):
            return "the constructor changed its arguments"
        n = len(c["c"])
        free, neg = sorted(c.get("free") or []), sorted(c.get("neg") or [])
        pos = [j for j in range(1, n + 1) if j not in free and j not in neg]
        rel = c.get("rel") if c.get("rel") is not None else ["="] * len(c["b"])
        obj = c.get("obj", "max")
        if not (np.array_equal(p.A, np.array(c["A"], float)) and np.array_equal(p.b, np.array(c["b"], float)) and np.array_equal(p.c, np.array(c["c"], float)) and p.z == c.get("z", 0)):
            return "the reported data differ from the data given"
        if p.A.ndim != 2 or p.b.ndim != 1 or p.c.ndim != 1:
            return "the reported data have other dimensions"
        got = (list(p.inequalities), p.objective, list(p.free_variables), list(p.negative_variables), list(p.positive_variables))
        exp = (rel, obj, free, neg, pos)
        if got != exp:
            return f"(relations, objective, free, negative, positive) are {got}, expected {exp}"
        sef = obj == "max" and all(q == "=" for q in rel) and not free and not neg
        if bool(p.is_sef) != sef:
            return f"is_sef is {p.is_sef}"
    return None
