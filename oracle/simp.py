from fractions import Fraction as F
from lib import mat, fr, dot, basic, dual_of_basis, T
TOL = F(1, 10 ** 6)


def data(d):
    return mat(d["A"]), [fr(v) for v in d["b"]], [fr(v) for v in d["c"]]


def vec(x, n):
    if getattr(x, "shape", None) != (n,):
        return None
    return [F(float(v)) for v in x]


def scale(*vs):
    return max([F(1)] + [abs(v) for w in vs for v in w])


def feasible_point(A, b, x):
    s = scale(x, b)
    if any(v < -TOL * s for v in x):
        return "has a negative entry"
    if any(abs(dot(r, x) - q) > TOL * s * 10 for r, q in zip(A, b)):
        return "violates the equations"


def check_optimal(A, b, c, x, basis, y):
    m, n = len(A), len(A[0])
    X, Y = vec(x, n), vec(y, m)
    if X is None or Y is None:
        return f"the outcome has the wrong shape: {x}, {y}"
    w = feasible_point(A, b, X)
    if w:
        return f"the optimal solution {x} {w}"
    if len(basis) != m or len(set(basis)) != m or not all(1 <= j <= n for j in basis) or basic(A, b, [j - 1 for j in basis]) is None:
        return f"{basis} is not a basis"
    s = scale(X, Y)
    if any(abs(X[j]) > TOL * s for j in range(n) if j + 1 not in basis):
        return f"the solution {x} is not basic for {basis}"
    if any(dot([r[j] for r in A], Y) < c[j] - TOL * s * 10 for j in range(n)):
        return f"the certificate {y} is not dual feasible"
    if abs(dot(Y, b) - dot(c, X)) > TOL * s * 50:
        return f"the certificate {y} has objective {float(dot(Y, b))}, the solution {float(dot(c, X))}"


def check_unbounded(A, b, c, cert):
    m, n = len(A), len(A[0])
    if not isinstance(cert, (tuple, list)) or len(cert) != 2:
        return f"unboundedness certificate is {cert}"
    X, D = vec(cert[0], n), vec(cert[1], n)
    if X is None or D is None:
        return f"unboundedness certificate has the wrong shape: {cert}"
    w = feasible_point(A, b, X)
    if w:
        return f"the point {cert[0]} of the unboundedness certificate {w}"
    s = scale(D)
    if any(v < -TOL * s for v in D) or any(abs(dot(r, D)) > TOL * s * 10 for r in A) or dot(c, D) <= F(1, 10 ** 8):
        return f"{cert[1]} is not an improving ray"
