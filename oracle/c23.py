import math


def cases(tier, r):
    while True:
        n = r.randint(1, 3)
        kind = r.choice(["quad", "quad", "quartic", "logcosh"])
        M = [[r.uniform(-1, 1) for _ in range(n)] for _ in range(n)]
        yield dict(n=n, kind=kind, M=M, q=[r.uniform(-2, 2) for _ in range(n)], x=[r.choice([r.randint(-4, 4), r.uniform(-3, 3)]) for _ in range(n)],
                   obj=r.choice(["min", "max"]), alpha=r.choice([1, 0.5, 2, 4]), c=r.choice([0.7, 0.1, 0.5]), p=r.choice([0.5, 0.8, 0.3]),
                   tol=r.choice([1e-4, 1e-2, 0.5, 1e-6]), method=r.choice(["sd", "sd", "newton"]), ints=r.random() < 0.2)


def check(c):
    import numpy as np
    from pytimize.programs import UnconstrainedProgram
    n = c["n"]
    M, q = np.array(c["M"]), np.array(c["q"])
    H = M.T @ M + 0.5 * np.eye(n)
    s = 1 if c["obj"] == "min" else -1
    if c["kind"] == "quad":
        f, g, h = (lambda x: s * (0.5 * x @ H @ x + q @ x)), (lambda x: s * (H @ x + q)), (lambda x: s * H)
    elif c["kind"] == "quartic":
        f = lambda x: s * (0.25 * np.sum(x ** 4) + 0.5 * x @ H @ x + q @ x)
        g = lambda x: s * (x ** 3 + H @ x + q)
        h = lambda x: s * (3 * np.diag(x ** 2) + H)
    else:
        f = lambda x: s * (np.sum(np.log(np.cosh(x))) + 0.5 * x @ H @ x + q @ x)
        g = lambda x: s * (np.tanh(x) + H @ x + q)
        h = lambda x: s * (np.diag(1 / np.cosh(x) ** 2) + H)
    x0 = np.array([int(v) for v in c["x"]]) if c["ints"] else np.array(c["x"], float)
    keep = x0.copy()
    p = UnconstrainedProgram(f, c["obj"]) if c["obj"] == "max" else UnconstrainedProgram(f)
    if c["method"] == "sd":
        run = lambda k: p.steepest_descent(x0, g, alpha=c["alpha"], c=c["c"], p=c["p"], tolerance=c["tol"], max_iteration=k)
    else:
        run = lambda k: p.newton_method(x0, g, h, tolerance=c["tol"], max_iteration=k)
    pts = [np.array(run(k), float) for k in range(0, 7)]
    if not np.array_equal(keep, x0):
        return "the starting point was changed"
    if not np.allclose(pts[0], x0):
        return f"no iterations gave {pts[0]} from {x0}"
    done = False
    for k in range(6):
        a, b = pts[k], pts[k + 1]
        if not (np.all(np.isfinite(b)) and b.shape == (n,)):
            return f"iterate {b}"
        if done:
            if not np.allclose(a, b, rtol=1e-12, atol=0):
                return f"went on after reaching gradient norm {np.linalg.norm(g(a))} <= {c['tol']}"
            continue
        ga = g(a)
        d = b - a
        if c["method"] == "sd":
            gn = float(ga @ ga)
            if gn > 1e-16:
                step = s * -float(d @ ga) / gn
                if np.linalg.norm(d + s * step * ga) > 1e-7 * (1 + np.linalg.norm(d)):
                    return f"step {d} is not along the descent direction {-s * ga}"
                if np.linalg.norm(d) <= 0:
                    return f"no step was taken at {a} with gradient norm {gn ** .5} > {c['tol']}"
                # values in the minimised form s * f
                if s * f(b) > s * f(a) - c["c"] * step * gn + 1e-9 * (1 + abs(f(a))):
                    return f"the step from {a} to {b} fails the sufficient decrease test"
                e = math.log(step / c["alpha"]) / math.log(c["p"])
                if step <= 0 or abs(e - round(e)) > 1e-5 or e < -1e-5:
                    return f"step size {step} is not {c['alpha']} * {c['p']}^k"
                if e > 0.5:
                    big = step / c["p"]
                    nb = a - s * big * ga
                    if s * f(nb) <= s * f(a) - c["c"] * big * gn - 1e-9 * (1 + abs(f(a))):
                        return f"the step size {step} was shrunk although {big} passes the test"
        else:
            if np.linalg.norm(h(a) @ d + ga) > 1e-6 * (1 + np.linalg.norm(ga)):
                return f"the Newton step {d} at {a} does not solve the Hessian system"
        done = np.linalg.norm(g(b)) <= c["tol"]
        if abs(np.linalg.norm(g(b)) - c["tol"]) < 1e-9:
            return None
    lim = 3000 if c["kind"] == "quad" or c["method"] == "newton" else 3000
    end = np.array(run(lim), float)
    if c["tol"] >= 1e-4 and np.linalg.norm(g(end)) > c["tol"] * (1 + 1e-9):
        again = np.array(run(lim + 1), float)
        if np.allclose(again, end, rtol=1e-13, atol=0) and not np.allclose(run(lim - 1), end, rtol=1e-13, atol=0):
            return f"stopped at {end} with gradient norm {np.linalg.norm(g(end))} > {c['tol']}"
        if np.linalg.norm(g(end)) > 10 * c["tol"]:
            return f"{lim} iterations end at {end} with gradient norm {np.linalg.norm(g(end))}"
    if c["method"] == "sd" and s * f(end) > s * f(x0) + 1e-9 * (1 + abs(f(x0))):
        return f"the result {end} is worse than the start {x0}: {f(end)} against {f(x0)}"
    if not np.array_equal(keep, x0):
        return "the starting point was changed"
    return None
