import copy
from lib import rand_lp, mklp, snap, diff, lpargs


def cases(tier, r):
    while True:
        d = rand_lp(r, sef=r.random() < 0.5, indep=True)
        n, m = len(d["c"]), len(d["b"])
        d = dict(lp=d, x=[r.randint(0, 3) for _ in range(n)], y=[r.randint(-2, 2) for _ in range(m)], basis=r.sample(range(1, n + 1), min(m, n)),
                 row=[r.randint(-2, 2) for _ in range(n)], col=[r.randint(-2, 2) for _ in range(m)], rel=r.choice(["=", "<=", ">="]), kind=r.choice("pfn"))
        yield d


def mangle(p):
    """Change everything reachable from a program in place."""
    p.A[:] += 1000
    p.b[:] += 1000
    p.c[:] += 1000
    for l in (p.inequalities, p.free_variables, p.negative_variables, p.positive_variables):
        l.append("zz")
    for f in ("_A", "_b", "_c"):
        v = getattr(p, f, None)
        if v is not None:
            v += 7
    for f in ("_free_variables", "_negative_variables"):
        v = getattr(p, f, None)
        if isinstance(v, list):
            v.append(99)
    v = getattr(p, "_inequality_indices", None)
    if isinstance(v, dict):
        v[77] = "<="
        v.pop(0, None)


import signal


def quietly(fn):
    """Call fn; errors are allowed here, only their side effects matter. Slow calls are cut off."""
    try:
        return fn()
    except Exception:
        return None


def check(c):
    import numpy as np
    from pytimize.programs import LinearProgram, IntegerProgram
    d = c["lp"]
    x, y, B = c["x"], c["y"], c["basis"]
    calls = [
        ("is_basis", lambda p: p.is_basis(list(B))), ("is_canonical_form_for", lambda p: p.is_canonical_form_for(list(B))),
        ("optimal_value", lambda p: p.optimal_value()), ("is_basic_solution", lambda p: p.is_basic_solution(np.array(x, float), list(B))),
        ("is_feasible_basic_solution", lambda p: p.is_feasible_basic_solution(list(x), list(B))), ("is_basis_feasible", lambda p: p.is_basis_feasible(list(B))),
        ("compute_basic_solution", lambda p: p.compute_basic_solution(list(B))), ("to_canonical_form", lambda p: p.to_canonical_form(list(B))),
        ("dual", lambda p: p.dual()), ("auxiliary", lambda p: p.auxiliary()), ("solve", lambda p: p.solve()), ("two_phase_simplex", lambda p: p.two_phase_simplex()),
        ("simplex", lambda p: p.simplex(list(B)) if p.is_basis_feasible(list(B)) else None), ("simplex_iteration", lambda p: p.simplex_iteration(list(B))),
        ("verify_infeasibility", lambda p: p.verify_infeasibility(list(y))), ("verify_unboundedness", lambda p: p.verify_unboundedness(list(x), list(x))),
        ("verify_optimality", lambda p: p.verify_optimality(list(y))), ("is_feasible", lambda p: p.is_feasible(np.array(x, float))), ("evaluate", lambda p: p.evaluate(list(x))),
        ("value_of", lambda p: p.value_of(list(x))), ("copy", lambda p: p.copy()), ("to_sef", lambda p: p.to_sef()), ("clear_steps", lambda p: p.clear_steps()),
        ("add_constraint", lambda p: p.add_constraint(list(c["row"]), c["rel"], 3)), ("add_variable", lambda p: p.add_variable(2, list(c["col"]), c["kind"] == "f", c["kind"] == "n")),
        ("repr", lambda p: repr(p)), ("cs_conditions", lambda p: p.cs_conditions()),
        ("bad add_constraint", lambda p: p.add_constraint([1] * 9, "=", 0)), ("bad add_variable", lambda p: p.add_variable(1, [1] * 9)), ("bad basis", lambda p: p.to_canonical_form([1] * len(d["b"]))),
        ("bad simplex", lambda p: p.simplex_iteration([1] * len(d["b"]))),
    ]
    p = mklp(d)
    s0 = snap(p)
    for name, f in calls:
        r = quietly(lambda: f(p))
        if snap(p) != s0:
            return f"{name} changed the program: {diff(s0, snap(p))}"
        derived = [q for q in (r if isinstance(r, tuple) else (r,)) if isinstance(q, LinearProgram)]
        for q in derived:
            if q is p:
                return f"{name} returned the program itself without being asked to work in place"
            mangle(q)
            if snap(p) != s0:
                return f"changing the result of {name} changed the program: {diff(s0, snap(p))}"
        arrays = [q for q in (r if isinstance(r, tuple) else (r,)) if isinstance(q, np.ndarray)]
        for q in arrays:
            q += 5
            if snap(p) != s0:
                return f"changing the array returned by {name} changed the program"
    # copies and derived programs are not affected by the original
    for name in ("copy", "dual", "to_sef", "auxiliary", "to_canonical_form", "add_constraint", "add_variable", "clear_steps", "simplex_iteration"):
        p = mklp(d)
        f = dict(calls)[name]
        r = quietly(lambda: f(p))
        q = r[2] if isinstance(r, tuple) else r
        if isinstance(q, LinearProgram):
            if name in ("copy", "clear_steps"):
                if snap(q) != s0 or not (q == p) or not (p == q):
                    return f"{name} is not equal to the original"
                steps = list(q.steps)
                quietly(lambda: p.is_feasible(list(x)))
                if list(q.steps) != steps:
                    return f"the steps of the result of {name} grew with the original's"
            s1 = snap(q)
            mangle(p)
            if snap(q) != s1:
                return f"changing the program changed the result of {name}: {diff(s1, snap(q))}"
    # in-place variants
    bas = list(B)
    for name, f, g in [
        ("to_sef", lambda p: p.to_sef(in_place=True), lambda p: p.to_sef()),
        ("to_canonical_form", lambda p: p.to_canonical_form(list(bas), in_place=True), lambda p: p.to_canonical_form(list(bas))),
        ("add_constraint", lambda p: p.add_constraint(list(c["row"]), c["rel"], 3, in_place=True), lambda p: p.add_constraint(list(c["row"]), c["rel"], 3)),
        ("add_variable", lambda p: p.add_variable(2, list(c["col"]), c["kind"] == "f", c["kind"] == "n", in_place=True), lambda p: p.add_variable(2, list(c["col"]), c["kind"] == "f", c["kind"] == "n")),
        ("clear_steps", lambda p: p.clear_steps(in_place=True), lambda p: p.clear_steps()),
        ("simplex_iteration", lambda p: p.simplex_iteration(list(bas), in_place=True)[2], lambda p: p.simplex_iteration(list(bas))[2])]:
        p = mklp(d)
        p.is_feasible(list(x))
        try:
            q = g(p)
        except Exception as e:
            try:
                f(mklp(d))
                return f"{name} in place succeeded, the copying variant raised {e!r}"
            except Exception as e2:
                if type(e) is not type(e2):
                    return f"{name} raises differently in place"
                continue
        r = f(p)
        if r is not p:
            return f"{name} in place did not return the program itself"
        if snap(p) != snap(q) or not (p == q):
            return f"{name} in place differs from the copying variant: {diff(snap(q), snap(p))}"
    # arguments
    for arr in (True, False):
        k = copy.deepcopy(lpargs(d))
        if arr:
            for f in ("A", "b", "c"):
                k[f] = np.array(k[f], dtype=float)
        keep = copy.deepcopy(k)
        kk = dict(k)
        for cls in (LinearProgram, IntegerProgram):
            kw = dict(kk)
            p = cls(kw.pop("A"), kw.pop("b"), kw.pop("c"), **kw)
            quietly(lambda: p.to_sef(in_place=True))
            mangle(p)
            if any(not np.array_equal(np.array(k[f], dtype=object), np.array(keep[f], dtype=object)) for f in k):
                return "changing a program changed the arrays or lists it was built from"
        kw = dict(kk)
        p = LinearProgram(kw.pop("A"), kw.pop("b"), kw.pop("c"), **kw)
        s = snap(p)
        for f in ("A", "b", "c"):
            if arr:
                k[f] += 9
            else:
                k[f].clear() if f != "A" else [row.clear() for row in k[f]]
        for f in ("inequalities", "free_variables", "negative_variables"):
            if k[f] is not None:
                k[f].append("zz")
        if snap(p) != s:
            return f"changing the arguments afterwards changed the program: {diff(s, snap(p))}"
    # relaxation
    ip = mklp(d, IntegerProgram)
    s = snap(ip)
    q = ip.relax()
    if snap(q) != s:
        return f"the relaxation differs from the program: {diff(s, snap(q))}"
    mangle(q)
    if snap(ip) != s:
        return "changing the relaxation changed the integer program"
    q = ip.relax()
    mangle(ip)
    if snap(q) != s:
        return "changing the integer program changed its relaxation"
    # equality
    p, q = mklp(d), mklp(d)
    if not (p == q):
        return "equal programs compare unequal"
    q = q.add_constraint(list(c["row"]), c["rel"], 3)
    if p == q:
        return "different programs compare equal"
    return None
