from fractions import Fraction as F
import math

TOL = F(1e-10)
BASE = [0.0, -0.0, 1e-11, -1e-11, 9.9e-11, -9.9e-11, 1.01e-10, -1.01e-10, 1e-9, -1e-9, 1e-5, -1e-5, 0.3, -0.3, 0.5, -0.5,
        0.7, 1, -1, 1.0, 1 - 1e-11, 1 + 1e-11, 1 - 1e-9, 1 + 1e-9, 1 - 1e-7, 1 + 1e-7, 1 + 1e-6, 1 + 1e-3, 2, -2, 2.5, 3 - 1e-12,
        -3 + 1e-12, -7.0000001, 10, 99.9999, 100, 100.0005, 100.01, 1e6, 1e6 + 1, 1e6 + 100, -1e6, 12345.5, 1e15, 1e15 + 1,
        -1e15, 0.1, 0.1 + 0.2, 7.999999999999, -0.9999999999999, 5, 0]
TESTS = [0, 0.0, 1, -1, 0.3, 2.5, 100, -1e6, 1e-11, -1e-9, 1e-3, 5]
OPS = [">=", ">", "<=", "<"]


def cases(tier, r):
    for v in BASE:
        yield dict(k="one", v=v)
    for t in TESTS:
        for v in BASE:
            yield dict(k="cmp", v=v, t=t)
    for op in ["=", "==", "", "=<", "!="]:
        yield dict(k="badop", op=op)
    while True:
        u = r.random()
        if u < 0.1:  # just inside or outside the tolerance of the test
            t = r.choice([r.choice(TESTS[2:]), r.uniform(-10, 10), r.uniform(-1e4, 1e4)])
            e = (1e-8 + 1e-5 * abs(t)) * (1 + r.choice([-1, 1]) * 10 ** r.uniform(-6, -1))
            yield dict(k="cmp", v=t + r.choice([-1, 1]) * e, t=t)
        elif u < 0.3:
            t = r.choice([0, r.choice(TESTS), r.uniform(-10, 10), r.uniform(-1e4, 1e4)])
            e = 10 ** r.uniform(-13, 1)
            yield dict(k="cmp", v=t + r.choice([-1, 1]) * e * r.choice([1, max(1, abs(t))]), t=t)
        elif u < 0.5:
            yield dict(k="one", v=r.choice([r.uniform(-5, 5), r.randint(-9, 9) + r.choice([-1, 1]) * 10 ** r.uniform(-14, -1)]))
        elif u < 0.8:
            yield dict(k="arr", v=[r.choice(BASE) for _ in range(r.randint(1, 4))], t=r.choice(TESTS))
        elif u < 0.9:
            yield dict(k="iarr", v=[r.choice([r.randint(-5, 5), r.randint(-3, 3) + 1e-12, r.choice(BASE)]) for _ in range(r.randint(1, 4))])
        else:
            s = r.choice([-1, 1])
            yield dict(k="arr", v=[s * abs(r.choice(BASE)) for _ in range(r.randint(1, 5))], t=0)


def close(v, t):
    if t == 0:
        return abs(F(v)) < TOL
    import numpy as np
    return bool(np.isclose(v, t))


def want(v, op, t):
    c = close(v, t)
    return {">=": c or v >= t, ">": not c and v > t, "<=": c or v <= t, "<": not c and v < t}[op]


def isint(v):
    f = F(v)
    d = f - math.floor(f)
    return min(d, 1 - d) < TOL


def check(c):
    import numpy as np
    from pytimize.utilities import Comparator as C
    k = c["k"]
    if k == "badop":
        try:
            C.is_close_compare(1.0, c["op"], 0)
        except ValueError:
            return None
        return f"operator {c['op']!r} accepted"
    v = c["v"]
    forms = [v] if isinstance(v, list) else [v, np.float64(v)]
    for x in forms:
        if k == "one":
            if bool(C.is_integer(x)) != isint(v):
                return f"is_integer({x!r}) is {C.is_integer(x)}"
            z = abs(F(v)) < TOL
            got = (bool(C.is_positive(x)), bool(C.is_negative(x)), bool(C.is_close_to_zero(x)))
            exp = (not z and v > 0, not z and v < 0, z)
            if got != exp:
                return f"(positive, negative, zero) of {x!r} is {got}, expected {exp}"
        elif k == "cmp":
            got = {op: bool(C.is_close_compare(x, op, c["t"])) for op in OPS}
            exp = {op: want(v, op, c["t"]) for op in OPS}
            if got != exp:
                return f"comparisons of {x!r} with {c['t']!r}: {got}, expected {exp}"
        elif k == "arr":
            a = np.array(v, dtype=float)
            keep = a.copy()
            for shape in [(len(v),)] + ([(2, len(v) // 2)] if len(v) % 2 == 0 else []):
                aa = a.reshape(shape)
                for op in OPS:
                    exp = all(want(y, op, c["t"]) for y in v)
                    if bool(C.is_close_compare(aa, op, c["t"])) != exp:
                        return f"array {v} {op} {c['t']} is not {exp}"
            if c["t"] == 0:
                for f, op in ((C.is_positive, ">"), (C.is_negative, "<")):
                    exp = all(want(y, op, 0) for y in v)
                    if bool(f(a)) != exp:
                        return f"{f.__name__}({v}) is not {exp}"
                z = C.is_close_to_zero(a)
                if [bool(q) for q in z] != [abs(F(y)) < TOL for y in v]:
                    return f"is_close_to_zero({v}) is {z}"
            if not np.array_equal(a, keep):
                return "the array was changed"
        elif k == "iarr":
            exp = all(isint(y) for y in v)
            if bool(C.is_integer(np.array(v, dtype=float))) != exp:
                return f"is_integer({v}) is not {exp}"
    return None
