from itertools import combinations

NAMES = ["a", "b", "c", "ab", "d", "B", "z1"]


def rand_ops(r, n):
    ops = []
    for _ in range(n):
        u = r.random()
        e = [r.choice(NAMES), r.choice(NAMES)]
        w = r.choice([0, 1, 2.5, 7, -1, r.choice([1e-9, 3e7])])
        if u < 0.32:
            if r.random() < 0.06:
                e[r.randint(0, 1)] = ""
            ops.append(["add_edge", e, w] if r.random() < 0.8 else ["add_edge", e])
        elif u < 0.52:
            ops.append(["remove_edge", e])
        elif u < 0.64:
            ops.append(["add_vertex", e[0], w] if r.random() < 0.8 else ["add_vertex", e[0]])
        elif u < 0.74:
            ops.append(["set_edge_weight", e, abs(w)])
        elif u < 0.84:
            ops.append(["set_vertex_weight", e[0], abs(w)])
        elif u < 0.92:
            ops.append(["copy_then", e, r.choice(NAMES)])
        else:
            ops.append(["views", e])
    return ops


def cases(tier, r):
    for k in range(4):
        for pairs in combinations([("a", "b"), ("b", "c"), ("c", "a"), ("ab", "a")], k):
            yield dict(edges=[[list(p), i + 1] for i, p in enumerate(pairs)], ops=[])
            for p in pairs:
                yield dict(edges=[[list(q), 1] for q in pairs], ops=[["remove_edge", list(p)[::-1]], ["add_edge", list(p), 3]])
    yield dict(graph=[["a", ["a"]]], ops=[])
    yield dict(edges=[[["", "a"], 1]], ops=[])
    yield dict(graph=[["a", []], ["b", []]], vertices=[["a", 2], ["c", 5]], ops=[["add_vertex", "a", 1]])
    while True:
        d = dict(ops=rand_ops(r, r.randint(1, 14)))
        if r.random() < 0.5:
            d["graph"] = [[v, sorted({r.choice(NAMES) for _ in range(r.randint(0, 3))} - {v})] for v in r.sample(NAMES, r.randint(0, 4))]
        if r.random() < 0.5:
            prs = [list(p) if r.random() < .5 else list(p)[::-1] for p in combinations(NAMES, 2)]
            d["edges"] = [[p, r.choice([0, 1, 4.5])] for p in r.sample(prs, r.randint(0, 5))]
        if r.random() < 0.4:
            d["vertices"] = [[v, r.choice([0, 2, 3.5])] for v in r.sample(NAMES, r.randint(0, 4))]
        yield d


class Model:
    def __init__(self):
        self.e, self.v = {}, {}

    def key(self, e):
        return tuple(sorted(e))

    def do(self, op):
        k = op[0]
        if k == "add_edge":
            e, w = op[1], op[2] if len(op) > 2 else 0
            if w < 0 or e[0] == e[1] or not e[0] or not e[1] or self.key(e) in self.e:
                return False
            self.e[self.key(e)] = w
            for x in e:
                self.v.setdefault(x, 0)
        elif k == "remove_edge":
            if self.key(op[1]) not in self.e:
                return False
            del self.e[self.key(op[1])]
        elif k == "add_vertex":
            w = op[2] if len(op) > 2 else 0
            if w < 0 or op[1] in self.v:
                return False
            self.v[op[1]] = w
        elif k == "set_edge_weight":
            if self.key(op[1]) not in self.e:
                return False
            self.e[self.key(op[1])] = op[2]
        elif k == "set_vertex_weight":
            if op[1] not in self.v:
                return False
            self.v[op[1]] = op[2]
        return True


def same(g, m):
    if g.edges != m.e:
        return f"edges are {g.edges}, expected {m.e}"
    if g.vertices != m.v:
        return f"vertices are {g.vertices}, expected {m.v}"
    adj = {v: set() for v in m.v}
    for a, b in m.e:
        adj[a].add(b)
        adj[b].add(a)
    if g.graph != adj:
        return f"adjacency is {g.graph}, expected {adj}"
    for v in NAMES:
        if bool(g.has_vertex(v)) != (v in m.v):
            return f"has_vertex({v!r}) is wrong"
        try:
            w = g.get_vertex_weight(v)
            if v not in m.v or w != m.v[v]:
                return f"get_vertex_weight({v!r}) is {w}"
        except ValueError:
            if v in m.v:
                return f"get_vertex_weight({v!r}) refused"
        for u in NAMES:
            if u == v:
                continue
            there = tuple(sorted((u, v))) in m.e
            if bool(g.has_edge((u, v))) != there:
                return f"has_edge({u!r}, {v!r}) is {not there}"
            try:
                w = g.get_edge_weight((u, v))
                if not there or w != m.e[tuple(sorted((u, v)))]:
                    return f"get_edge_weight({u!r}, {v!r}) is {w}"
            except ValueError:
                if there:
                    return f"get_edge_weight({u!r}, {v!r}) refused"
    return None


def check(c):
    from pytimize.graphs import UndirectedGraph
    m = Model()
    ok = True
    for v, ends in c.get("graph") or []:
        if not ends:
            m.v.setdefault(v, 0)
        for e in ends:
            if m.key((v, e)) not in m.e:
                ok = ok and m.do(["add_edge", (v, e)])
    for e, w in c.get("edges") or []:
        if m.key(e) not in m.e:
            ok = ok and m.do(["add_edge", e])
        m.e[m.key(e)] = w
    for v, w in c.get("vertices") or []:
        m.v[v] = w
    gd = {v: set(e) for v, e in c["graph"]} if "graph" in c else None
    ed = {tuple(e): w for e, w in c["edges"]} if "edges" in c else None
    vd = dict(map(tuple, c["vertices"])) if "vertices" in c else None
    import copy
    keep = copy.deepcopy((gd, ed, vd))
    try:
        g = UndirectedGraph(gd, ed, vd)
    except ValueError:
        return None if not ok else "constructor refused a valid graph"
    if not ok:
        return "constructor accepted an invalid edge"
    if (gd, ed, vd) != keep:
        return "constructor changed its arguments"
    w = same(g, m)
    if w:
        return "after construction: " + w
    for x in (gd, ed, vd):
        if x is not None:
            for q in list(x):
                if isinstance(x[q], set):
                    x[q].add("ZZ")
            x.clear()
    w = same(g, m)
    if w:
        return "shares state with the constructor's arguments: " + w
    for k, op in enumerate(c["ops"]):
        if op[0] == "copy_then":
            h = g.copy()
            if not (h == g) or not (g == h):
                return "a copy is not equal to the original"
            mm = Model()
            mm.e, mm.v = dict(m.e), dict(m.v)
            for o in (["remove_edge", op[1]], ["add_edge", op[1], 2], ["set_vertex_weight", op[2], 9], ["add_vertex", op[2], 1], ["add_edge", [op[2], "new"], 1]):
                try:
                    getattr(h, o[0])(*[tuple(q) if isinstance(q, list) else q for q in o[1:]])
                except ValueError:
                    pass
                mm.do(o)
            for e in list(mm.e):
                h.set_edge_weight(e, 77)
                mm.e[e] = 77
            w = same(g, m)
            if w:
                return f"changing a copy changed the original: {w}"
            w = same(h, mm)
            if w:
                return f"the copy is wrong: {w}"
            if (h == g) != (mm.e == m.e and mm.v == m.v):
                return "equality is wrong"
            continue
        if op[0] == "views":
            a, b, d = g.graph, g.edges, g.vertices
            for q in a.values():
                q.add("ZZ")
            a.clear(), b.clear(), d.clear()
            w = same(g, m)
            if w:
                return f"the mappings handed out share state with the graph: {w}"
            continue
        import copy as cp
        before = cp.deepcopy((g.graph, g.edges, g.vertices))
        exp = m.do(op)
        try:
            getattr(g, op[0])(*[tuple(q) if isinstance(q, list) else q for q in op[1:]])
            got = True
        except ValueError:
            got = False
        if got != exp:
            return f"{op} was {'accepted' if got else 'refused'} after {c['ops'][:k]}"
        if not got and before != (g.graph, g.edges, g.vertices):
            return f"refused {op} but changed the graph"
        w = same(g, m)
        if w:
            return f"after {c['ops'][:k + 1]}: {w}"
    return None
