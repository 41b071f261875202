from itertools import combinations, product
from dg import state

NAMES = ["a", "b", "ab", "ba", "c", "abc"]


def cases(tier, r):
    for n in (1, 2, 3):
        N = NAMES[:n]
        prs = [(a, b) for a in N for b in N if a != b]
        for bits in product([0, 1], repeat=len(prs)):
            yield dict(nodes=N, arcs=[list(p) for p, q in zip(prs, bits) if q])
    while True:
        N = r.sample(NAMES, r.randint(2, 6))
        prs = [[a, b] for a in N for b in N if a != b]
        arcs = r.sample(prs, r.randint(0, min(len(prs), 12)))
        yield dict(nodes=N, arcs=arcs, drop=r.sample(arcs, r.randint(0, len(arcs) // 3)))


def check(c):
    from pytimize.graphs import DirectedGraph, UndirectedGraph
    N, arcs = c["nodes"], [tuple(a) for a in c["arcs"]]
    g, u = DirectedGraph(), UndirectedGraph()
    for n in N:
        g.add_node(n)
        u.add_vertex(n)
    edges = set()
    for i, a in enumerate(arcs):
        g.add_arc(a, i + 1)
        e = tuple(sorted(a))
        if e not in edges:
            u.add_edge(a, 1)
            edges.add(e)
    for a in map(tuple, c.get("drop") or []):
        g.remove_arc(a)
        arcs.remove(a)
        e = tuple(sorted(a))
        if e in edges:
            u.remove_edge(a)
            edges.discard(e)
    s0, u0 = state(g), (u.graph, u.edges, u.vertices)
    known = list(NAMES)
    subsets = [set(s) for k in range(len(known) + 1) for s in combinations(known, k)] if len(arcs) < 7 else \
        [set(s) for k in (1, 2, 3) for s in combinations(known, k)]
    for name in known:
        subsets.append(name)
    for s in subsets:
        inside = {s} if isinstance(s, str) else set(s)
        out = {a for a in arcs if a[0] in inside and a[1] not in inside}
        inn = {a for a in arcs if a[1] in inside and a[0] not in inside}
        cr = {e for e in edges if (e[0] in inside) != (e[1] in inside)}
        forms = [s] if isinstance(s, str) else [set(s), sorted(s), tuple(s), frozenset(s)]
        for f in forms:
            keep = f.copy() if isinstance(f, set) else f
            got = list(g.cut(f))
            if set(got) != out or len(got) != len(out):
                return f"cut({f!r}) is {got}, expected {out}"
            got = list(g.ncut(f))
            if set(got) != inn or len(got) != len(inn):
                return f"ncut({f!r}) is {got}, expected {inn}"
            got = list(u.cut(f))
            if set(got) != cr or len(got) != len(cr):
                return f"undirected cut({f!r}) is {got}, expected {cr}"
            nums = (g.outdegree(f), g.indegree(f), g.connections(f), u.degree(f))
            if nums != (len(out), len(inn), len(out) + len(inn), len(cr)):
                return f"(outdegree, indegree, connections, degree) of {f!r} are {nums}"
            if f != keep:
                return "the argument was changed"
    if state(g) != s0 or u0 != (u.graph, u.edges, u.vertices):
        return "asking changed the graph"
    return None
