from itertools import product
from dg import state
from lib import wild
NAMES = ["a", "b", "ab", "c"]


def cases(tier, r):
    prs = [("a", "b"), ("b", "a")]
    for caps in product([None, 0, 1, 2.5], repeat=2):
        arcs = [(p, w) for p, w in zip(prs, caps) if w is not None]
        for fl in product([None, 0, 0.5, 1, 2.5, 3, -1], repeat=len(arcs)):
            yield dict(arcs=[[list(p), w] for p, w in arcs], flow=[[list(p), f] for (p, _), f in zip(arcs, fl) if f is not None])
    yield dict(arcs=[[["a", "b"], -1]], flow=[])
    yield dict(arcs=[[["a", "b"], -1]], flow=[[["a", "b"], -1]])
    yield dict(arcs=[[["a", "b"], 1]], flow=[[["b", "a"], 0]])
    yield dict(arcs=[[["a", "b"], 1]], flow=[[["b", "a"], 1]])
    while True:
        N = r.sample(NAMES, r.randint(2, 4))
        prs = [[a, b] for a in N for b in N if a != b]
        ps = r.sample(prs, r.randint(1, len(prs)))
        arcs = [[p, w] for p, w in zip(ps, wild(r, [r.choice([0, 1, 2.5, 4]) for _ in ps]))]
        bad = r.random()
        flow = []
        for p, w in arcs:
            if r.random() < 0.7:
                flow.append([p, r.choice([0, w, w / 2, w / 4])])
        if bad < 0.1 and flow:
            flow[r.randrange(len(flow))][1] = -0.5
        elif bad < 0.2 and flow:
            i = r.randrange(len(flow))
            flow[i][1] = dict((tuple(p), w) for p, w in arcs)[tuple(flow[i][0])] + r.choice([0.5, 1])
        elif bad < 0.3:
            miss = [p for p in prs if p not in [a for a, _ in arcs]]
            if miss:
                flow.append([r.choice(miss), r.choice([0, 1])])
        elif bad < 0.4:
            arcs[r.randrange(len(arcs))][1] = -1
        yield dict(arcs=arcs, flow=flow)


def check(c):
    from pytimize.graphs import DirectedGraph
    arcs = {tuple(a): w for a, w in c["arcs"]}
    flow = {tuple(a): w for a, w in c["flow"]}
    g = DirectedGraph(arcs=arcs)
    before, keep = state(g), dict(flow)
    ok = all(a in arcs and 0 <= f <= arcs[a] for a, f in flow.items()) and all(w >= 0 for w in arcs.values())
    try:
        res = g.create_residual(flow)
        got = True
    except Exception as e:
        got = False
    if state(g) != before:
        return "the digraph was changed"
    if flow != keep:
        return "the flow was changed"
    if got != ok:
        return f"flow {flow} over {arcs} was {'accepted' if got else 'rejected'}"
    if not ok:
        return None
    exp = {}
    for (u, v), w in arcs.items():
        f = flow.get((u, v), 0)
        exp[(u, v)] = exp.get((u, v), 0) + w - f
        exp[(v, u)] = exp.get((v, u), 0) + f
    exp = {a: w for a, w in exp.items() if w > 0}
    if sorted(res.arcs) != sorted(exp):
        return f"residual arcs are {sorted(res.arcs)}, expected {exp}"
    d = getattr(res, "_arcs", None)
    if isinstance(d, dict) and (set(d) != set(exp) or any(abs(d[a] - exp[a]) > 1e-9 * exp[a] for a in exp)):
        return f"residual weights are {d}, expected {exp}"
    return None
