def cases(tier, r):
    big = 1

    def tree(depth):
        u = r.random()
        if depth == 0 or u < 0.18:
            return ["v", r.randint(0, 3)] if r.random() < .7 else ["x", r.randint(1, 4)]
        if u < 0.3:
            return ["n", r.choice([0, 1, -2, 3, 2.5, -0.5]) * (big if r.random() < 0.5 else 1)]
        if u < 0.62:
            return [r.choice(["+", "-", "+=", "-="]), tree(depth - 1), tree(depth - 1)]
        if u < 0.74:
            return [r.choice(["neg", "pos"]), tree(depth - 1)]
        if u < 0.92:
            return [r.choice(["*", "r*", "*="]), tree(depth - 1), r.choice([0, 1, -1, 2, 2.5, -3]) * (big if r.random() < 0.5 else 1)]
        return ["sum", [tree(depth - 1) for _ in range(r.randint(1, 3))]]
    leafs = [["v", 0], ["v", 2], ["x", 1], ["x", 3], ["n", 0], ["n", 3], ["n", -1.5], ["+", ["v", 1], ["n", 2]], ["*", ["v", 1], 3]]
    for a in leafs:
        for b in leafs:
            for op in ("+", "-", "+=", "-="):
                yield dict(t=[op, a, b], rel=None)
            for rel in ("<=", ">=", "=="):
                yield dict(t=a, o=b, rel=rel)
        for k in (0, 1, -2, 2.5):
            for op in ("*", "r*", "*="):
                yield dict(t=[op, a, k], rel=None)
    while True:
        big = r.choice([1] * 8 + [2.0 ** -10, 1024])  # products of four such numbers are exact
        if r.random() < 0.5:
            yield dict(t=tree(r.randint(1, 4)), rel=None)
        else:
            yield dict(t=tree(r.randint(0, 3)), o=tree(r.randint(0, 3)), rel=r.choice(["<=", ">=", "=="]))


class Skip(Exception):
    pass


def check(c):
    from pytimize.formulations.linear import variables, x
    V = variables(4)
    made = []  # (object, terms, constant)

    def num(o):
        return isinstance(o, (int, float)) and not isinstance(o, bool)

    def note(o, m):
        if not num(o):
            made.append((o, dict(m[0]), m[1]))
        return o, m

    def ev(t):
        k = t[0]
        if k == "v":
            return note(V[t[1]], ({t[1]: 1}, 0))
        if k == "x":
            return note(x[t[1]], ({t[1] - 1: 1}, 0))
        if k == "n":
            return t[1], ({}, t[1])
        if k in ("neg", "pos"):
            o, m = ev(t[1])
            s = -1 if k == "neg" else 1
            return note(-o if k == "neg" else +o, ({a: s * b for a, b in m[0].items()}, s * m[1]))
        if k in ("*", "r*", "*="):
            o, m = ev(t[1])
            f = t[2]
            if k == "*":
                q = o * f
            elif k == "r*":
                q = f * o
            else:
                q = o
                q *= f
            return note(q, ({a: b * f for a, b in m[0].items()}, m[1] * f))
        if k == "sum":
            parts = [ev(q) for q in t[1]]
            d, z = {}, 0
            for _, m in parts:
                for a, b in m[0].items():
                    d[a] = d.get(a, 0) + b
                z += m[1]
            return note(sum(o for o, _ in parts), (d, z))
        s = -1 if k[0] == "-" else 1
        (o, m), (p, n) = ev(t[1]), ev(t[2])
        if k == "+":
            q = o + p
        elif k == "-":
            q = o - p
        elif k == "+=":
            q = o
            q += p
        else:
            q = o
            q -= p
        d = dict(m[0])
        for a, b in n[0].items():
            d[a] = d.get(a, 0) + s * b
        return note(q, (d, m[1] + s * n[1]))

    def dense(d):
        return {a: b for a, b in d.items() if b != 0}

    def bad(o, d, z):
        if hasattr(o, "key"):
            o = o.equation
        if not hasattr(o, "coefficients") or not hasattr(o, "constant"):
            return f"{o!r} is not an expression"
        co = o.coefficients
        got = {} if co is None else {i: float(v) for i, v in enumerate(co) if v != 0}
        if set(got) != set(dense(d)) or any(abs(got[a] - d[a]) > 1e-9 * (1e-4 + abs(d[a])) for a in got) or abs(o.constant - z) > 1e-9 * (1e-4 + abs(z)):
            return f"denotes {got} + {o.constant}, written was {dense(d)} + {z}"

    def all_ok():
        for o, d, z in made:
            w = bad(o, d, z)
            if w:
                return w

    o, m = ev(c["t"])
    w = all_ok()
    if w:
        return f"{c['t']}: {w}"
    if c["rel"] is None:
        return None
    p, n = ev(c["o"])
    if num(o) and num(p):
        return None
    from pytimize.formulations.linear._constraint import LinearConstraint, VariableConstraint
    try:
        q = o <= p if c["rel"] == "<=" else o >= p if c["rel"] == ">=" else o == p
    except ValueError:
        return f"{c['t']} {c['rel']} {c['o']} was refused" if m[0] or n[0] else None
    if not m[0] and not n[0]:
        return "a comparison without variables was accepted"
    rel = {"==": "="}.get(c["rel"], c["rel"])
    if num(o):
        rel = {"<=": ">=", ">=": "<=", "=": "="}[rel]
        o, p, m, n = p, o, n, m
    d = dict(m[0])
    for a, b in n[0].items():
        d[a] = d.get(a, 0) - b
    z = n[1] - m[1]
    if isinstance(q, VariableConstraint):
        if not (hasattr(o, "key") and num(p) and p == 0 and rel != "="):
            return f"{c['t']} {rel} {c['o']} became a sign restriction"
        got = (q.positive_variables, q.negative_variables)
        exp = ([o.key + 1], None) if rel == ">=" else (None, [o.key + 1])
        if got != exp:
            return f"{c['t']} {rel} 0 restricts {got}"
        return None
    got = {i: float(v) for i, v in enumerate(q.coefficients) if v != 0}
    if q.inequality != rel:
        return f"relation {q.inequality}, written was {rel}"
    if set(got) != set(dense(d)) or any(abs(got[a] - d[a]) > 1e-9 * (1e-4 + abs(d[a])) for a in got) or abs(q.constant - z) > 1e-9 * (1e-4 + abs(z)):
        return f"{c['t']} {c['rel']} {c['o']} is the constraint {got} {q.inequality} {q.constant}, expected {dense(d)} {rel} {z}"
    return all_ok()
