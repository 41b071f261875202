from itertools import combinations, product
from fractions import Fraction as F
from lib import dot, fr, wild

NAMES = ["a", "b", "c", "d", "ab", "e"]


def cases(tier, r):
    for n in (1, 2, 3):
        prs = list(combinations(NAMES[:n], 2))
        for bits in range(2 ** len(prs)):
            yield dict(v=[[x, i * 1.5 + 1] for i, x in enumerate(NAMES[:n])], e=[list(p) for i, p in enumerate(prs) if bits >> i & 1])
    while True:
        N = r.sample(NAMES, r.randint(2, 5))
        prs = [list(p) for p in combinations(N, 2)]
        e = r.sample(prs, r.randint(0, len(prs)))
        yield dict(v=[[x, w] for x, w in zip(N, wild(r, [r.choice([0, 1, 2, 3.5, 7]) for _ in N]))], e=e, drop=r.sample(e, r.randint(0, len(e) // 3)))


def check(c):
    from pytimize.graphs import UndirectedGraph
    from pytimize.programs import IntegerProgram
    g = UndirectedGraph()
    for v, w in c["v"]:
        g.add_vertex(v, w)
    for i, e in enumerate(c["e"]):
        g.add_edge(tuple(e), i + 2)
    E = [tuple(e) for e in c["e"]]
    for e in c.get("drop") or []:
        g.remove_edge(tuple(e))
        E.remove(tuple(e))
    before = (g.graph, g.edges, g.vertices)
    ip, m = g.formulate_max_stable_set()
    if before != (g.graph, g.edges, g.vertices):
        return "the graph was changed"
    n = len(c["v"])
    if not isinstance(ip, IntegerProgram):
        return "the formulation is not an integer program"
    if set(m) != {v for v, _ in c["v"]} or sorted(m.values()) != list(range(n)) or ip.A.shape[1] != n:
        return f"the mapping {m} is not a bijection onto the {ip.A.shape[1]} columns"
    if ip.objective != "max":
        return f"the objective is {ip.objective}"
    integ = getattr(ip, "_integral_variables", None)
    if integ is not None and set(integ) != set(range(1, n + 1)):
        return "some variable is not integral"
    W = dict(map(tuple, c["v"]))
    A = [[fr(q) for q in row] for row in ip.A.tolist()]
    b, rel, pos, neg = ip.b.tolist(), ip.inequalities, ip.positive_variables, ip.negative_variables
    for x in product([-1, 0, 1, 2], repeat=n):
        feas = all({"=": dot(row, x) == fr(q), "<=": dot(row, x) <= fr(q), ">=": dot(row, x) >= fr(q)}[s] for row, q, s in zip(A, b, rel)) \
            and all(v >= 0 for j, v in enumerate(x, 1) if j in pos) and all(v <= 0 for j, v in enumerate(x, 1) if j in neg)
        exp = all(v in (0, 1) for v in x) and all(not (x[m[a]] == 1 and x[m[q]] == 1) for a, q in E)
        if feas != exp:
            return f"the point {x} under {m} is {'feasible' if feas else 'infeasible'} for edges {E}"
        if exp:
            val = dot([fr(q) for q in ip.c.tolist()], x) + fr(ip.z)
            if val != sum((fr(W[v]) for v in W if x[m[v]] == 1), F(0)):
                return f"the objective of {x} is {val}"
    return None
