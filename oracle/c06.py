from itertools import combinations

NAMES = ["a", "b", "c", "d", "e", "f", "ab", "x1"]


def cases(tier, r):
    yield dict(v=[], e=[])
    for n in (1, 2, 3, 4):
        prs = list(combinations(NAMES[:n], 2))
        for bits in range(2 ** len(prs)):
            yield dict(v=NAMES[:n], e=[list(p) for i, p in enumerate(prs) if bits >> i & 1])
    while True:
        n = r.randint(3, 8)
        N = r.sample(NAMES, n)
        prs = [list(p) for p in combinations(N, 2)]
        k = r.choice([r.randint(0, n), r.randint(0, len(prs)), n - 1])
        e = r.sample(prs, k)
        if r.random() < 0.3:  # a random tree / forest
            e = [[N[i], r.choice(N[:i])] for i in range(1, n) if r.random() < 0.9]
        yield dict(v=N, e=e, drop=r.sample(e, r.randint(0, len(e) // 3)))


def comps(V, E):
    adj = {v: set() for v in V}
    for a, b in E:
        adj[a].add(b)
        adj[b].add(a)
    out, seen = [], set()
    for v in V:
        if v in seen:
            continue
        c, q = {v}, [v]
        for x in q:
            for y in adj[x]:
                if y not in c:
                    c.add(y)
                    q.append(y)
        seen |= c
        out.append(c)
    return out


def check(c):
    from pytimize.graphs import UndirectedGraph
    g = UndirectedGraph()
    wv = {}
    for i, v in enumerate(c["v"]):
        g.add_vertex(v, i + 1)
        wv[v] = i + 1
    E = {}
    for i, e in enumerate(c["e"]):
        g.add_edge(tuple(e), i + 0.5)
        E[tuple(sorted(e))] = i + 0.5
    for e in c.get("drop") or []:
        g.remove_edge(tuple(e))
        del E[tuple(sorted(e))]
    before = (g.graph, g.edges, g.vertices)
    cs = comps(c["v"], E)
    connected = len(cs) == 1
    cyclic = len(E) > len(c["v"]) - len(cs)
    for name, got, exp in (("is_connected", g.is_connected(), connected), ("has_spanning_tree", g.has_spanning_tree(), connected),
                           ("is_cyclic", g.is_cyclic(), cyclic), ("is_tree", g.is_tree(), connected and not cyclic)):
        if bool(got) != exp:
            return f"{name} is {got} for vertices {c['v']} and edges {sorted(E)}"
    for v in c["v"]:
        comp = next(x for x in cs if v in x)
        for name, f in (("traverse", lambda: list(g.traverse(v))), ("bfs", lambda: list(g.bfs(v))), ("dfs", lambda: list(g.dfs(v))),
                        ("traverse dfs", lambda: list(g.traverse(v, "dfs"))),
                        ("traverse order", lambda: list(g.traverse(v, "bfs", lambda s: [-ord(q) for q in s])))):
            got = f()
            if not got or got[0] != v or len(set(got)) != len(got) or set(got) != comp:
                return f"{name} from {v!r} yields {got}, reachable are {sorted(comp)}"
        got = list(g.traverse(v, "rng"))
        if sorted(got) != sorted(c["v"]):
            return f"random traversal yields {got}"
    for m in ("bfs", "dfs", "rng"):
        try:
            got = list(g.traverse("nowhere", m))
            return f"unknown start accepted: {got}"
        except ValueError:
            pass
    for f in (g.bfs, g.dfs):
        try:
            f("nowhere")
            return "unknown start accepted"
        except ValueError:
            pass
    parts = g.partition()
    if len(parts) != len(cs):
        return f"partition has {len(parts)} parts, expected {len(cs)}"
    left = list(cs)
    for p in parts:
        comp = set(p.vertices)
        if comp not in left:
            return f"part {sorted(comp)} is not a component"
        left.remove(comp)
        ev = {v: wv[v] for v in comp}
        ee = {e: w for e, w in E.items() if e[0] in comp}
        eg = {v: {x for e in E if v in e for x in e if x != v} for v in comp}
        if p.vertices != ev or p.edges != ee or p.graph != eg:
            return f"part of {sorted(comp)} is wrong: {p.vertices} {p.edges} {p.graph}"
    if before != (g.graph, g.edges, g.vertices):
        return "the graph was changed"
    return None
