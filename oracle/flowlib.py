from fractions import Fraction as F
from itertools import product
from dg import state
from lib import max_flow_value, wild

NAMES = ["s", "t", "a", "b", "ab", "ba", "st", "c"]


def flow_cases(tier, r):
    yield dict(arcs=[], nodes=["s", "t"], s="s", t="t")
    yield dict(arcs=[[["s", "t"], 1]], nodes=[], s="s", t="nowhere")
    yield dict(arcs=[[["s", "t"], 1]], nodes=[], s="nowhere", t="t")
    yield dict(arcs=[[["s", "t"], 1]], nodes=[], s="s", t="s")
    prs = [("s", "t"), ("t", "s"), ("s", "a"), ("a", "s"), ("a", "t"), ("t", "a")]
    for caps in product([None, 1, 2], repeat=6):
        yield dict(arcs=[[list(p), c] for p, c in zip(prs, caps) if c is not None], nodes=["s", "a", "t"], s="s", t="t")
    while True:
        n = r.randint(3, 7 if tier == "quick" else 9)
        N = r.sample(NAMES, min(n, len(NAMES)))
        prs = [[a, b] for a in N for b in N if a != b]
        k = r.randint(1, min(len(prs), 3 * n))
        big = r.choice([[0, 1, 2, 3], [0, 1, 5, 10, 0.5], [1, 2, 0.25, 7.75, 100], [1], [0, 3, 4]])
        ps = r.sample(prs, k)
        arcs = [[p, w] for p, w in zip(ps, wild(r, [r.choice(big) for _ in ps]))]
        s, t = r.sample(N, 2)
        yield dict(arcs=arcs, nodes=N, s=s, t=t)


def build(c):
    from pytimize.graphs import DirectedGraph
    g = DirectedGraph(arcs={tuple(a): w for a, w in c["arcs"]})
    for n in c["nodes"]:
        if not g.has_node(n):
            g.add_node(n)
    return g


def check_flow(c, method):
    g = build(c)
    before = state(g)
    s, t = c["s"], c["t"]
    nodes = set(g.nodes)
    if s == t or s not in nodes or t not in nodes:
        try:
            getattr(g, method)(s, t)
        except ValueError:
            return None if state(g) == before else "the digraph was changed"
        return "unknown or equal source and sink accepted"
    value, flow = getattr(g, method)(s, t)
    if state(g) != before:
        return "the digraph was changed"
    caps = {tuple(a): F(w) for a, w in c["arcs"]}
    if set(flow) != set(caps):
        return f"flow entries {sorted(flow)} are not the arcs"
    tol = min([w for w in caps.values() if w > 0] + [F(1)]) / 10 ** 6
    net = {n: F(0) for n in nodes}
    for (u, v), f in flow.items():
        f = F(f)
        if f < -tol or f > caps[(u, v)] + tol:
            return f"flow {float(f)} on {(u, v)} is outside [0, {float(caps[(u, v)])}]"
        net[u] += f
        net[v] -= f
    for n in nodes:
        if n not in (s, t) and abs(net[n]) > tol:
            return f"flow is not conserved at {n!r}: net outflow {float(net[n])}"
    if abs(net[s] - F(value)) > tol:
        return f"the returned value {value} is not the net outflow {float(net[s])} of the source"
    best = max_flow_value(nodes, caps, s, t)
    if abs(best - F(value)) > tol:
        return f"the returned value {value} is not the maximum {float(best)}"
    return None
