from itertools import product


def cases(tier, r):
    names = ["a", "b", "c", "d"]
    yield dict(items=["a", "a"], ops=[])
    yield dict(items=["a", "b", "", "a"], ops=[])
    for n in (1, 2, 3):
        alph = [("u", a, b) for a in names[:n] for b in names[:n]]
        for L in range(0, 4 if n < 3 else 3):
            for ops in product(alph, repeat=L):
                yield dict(items=names[:n], ops=list(ops))
    for n in (40, 300, 1500):
        yield dict(items=[f"n{i}" for i in range(n)], ops=[("u", f"n{i}", f"n{i + 1}") for i in range(n - 1)])
        yield dict(items=[f"n{i}" for i in range(n)], ops=[("u", f"n{i + 1}", f"n{i}") for i in range(n - 1)])
        yield dict(items=[f"n{i}" for i in range(n)], ops=[("u", f"n{i}", f"n{i + 1}") for i in reversed(range(n - 1))])
    while True:
        n = r.randint(2, 12)
        items = [r.choice(["", "x", "node", "N"]) + str(i) if i else r.choice(["", "z"]) for i in range(n)]
        ops = []
        for _ in range(r.randint(1, 3 * n)):
            u = r.random()
            if u < 0.65:
                ops.append(("u", r.choice(items), r.choice(items)))
            elif u < 0.93:
                ops.append(("f", r.choice(items)))
            elif u < 0.96:
                ops.append(("f", "unknown"))
            else:
                ops.append(("u", *r.sample([r.choice(items), "unknown"], 2)))
        yield dict(items=items, ops=ops)


def check(c):
    from pytimize.utilities import DisjointSet
    items = list(c["items"])
    if len(set(items)) != len(items):
        try:
            DisjointSet(items)
        except ValueError:
            return None
        return "duplicates accepted"
    d = DisjointSet(items)
    if items != c["items"]:
        return "the item list was changed"
    cls = {i: {i} for i in items}

    def bad(sample):
        rep = {}
        for i in sample:
            rep[i] = d.find(i)
            if rep[i] not in cls[i]:
                return f"the representative of {i!r} is {rep[i]!r}, which is not in its set {sorted(cls[i])}"
        for i in sample:
            if rep[i] != d.find(i):
                return f"the representative of {i!r} changed without a union"
        groups = {}
        for i in sample:
            groups.setdefault(id(cls[i]), set()).add(rep[i])
        flat = [x for g in groups.values() for x in g]
        if any(len(g) > 1 for g in groups.values()):
            return f"items of one set have several representatives: {rep}"
        if len(set(flat)) != len(flat):
            return f"items of different sets share a representative: {rep}"
    for k, op in enumerate(c["ops"]):
        known = all(x in cls for x in op[1:])
        try:
            if op[0] == "u":
                d.union(op[1], op[2])
            else:
                d.find(op[1])
            if not known:
                return f"unknown item accepted by {op}"
        except ValueError:
            if known:
                return f"{op} refused"
        if op[0] == "u" and known and cls[op[1]] is not cls[op[2]]:
            m = cls[op[1]] | cls[op[2]]
            for i in m:
                cls[i] = m
        if len(items) <= 12 and (k % 3 == 2 or not known):
            m = bad(items)
            if m:
                return f"after {c['ops'][:k + 1]}: {m}"
    return bad(items)
