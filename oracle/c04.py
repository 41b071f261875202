import copy
from dg import state, agrees

NAMES = ["a", "b", "c", "ab", "d"]


def rand_ops(r, n):
    ops = []
    for _ in range(n):
        u = r.random()
        e = [r.choice(NAMES), r.choice(NAMES)]
        w = r.choice([0, 1, 2.5, 7, r.choice([1e-9, 3e7])])
        if u < 0.4:
            ops.append(["add_arc", e, w, r.choice([None, None, [3, 4.5], [1, 0], [0, 2], 5, 0])])
        elif u < 0.65:
            ops.append(["remove_arc", e, r.random() < 0.5])
        elif u < 0.78:
            ops.append(["add_node", e[0], r.choice([0, 2, -1])])
        elif u < 0.9:
            ops.append(["set_arc_weight", e, w])
        else:
            ops.append(["set_node_weight", e[0], w])
    return ops


def cases(tier, r):
    for dem in (None, 5, [3, 4], [0, 4], [3, 0], 0):
        for pre in ([], ["a"], ["b"], ["a", "b"]):
            yield dict(nodes=[[n, 9] for n in pre], ops=[["add_arc", ["a", "b"], 2, dem], ["add_arc", ["b", "a"], 1, dem], ["remove_arc", ["a", "b"], True], ["remove_arc", ["b", "a"], True]])
    yield dict(graph=[["a", ["a"]]], ops=[])
    yield dict(arcs=[[["a", "a"], 2]], ops=[])
    while True:
        d = dict(ops=rand_ops(r, r.randint(1, 12)))
        if r.random() < 0.5:
            d["graph"] = [[v, sorted({r.choice(NAMES) for _ in range(r.randint(0, 3))} - ({v} if r.random() < .95 else set()))] for v in r.sample(NAMES, r.randint(0, 4))]
        if r.random() < 0.5:
            prs = [[a, b] for a in NAMES for b in NAMES if a != b]
            d["arcs"] = [[p, r.choice([0, 1, 4.5])] for p in r.sample(prs, r.randint(0, 6))]
        if r.random() < 0.4:
            d["nodes"] = [[v, r.choice([0, 2, -3.5])] for v in r.sample(NAMES, r.randint(0, 4))]
        yield d


class Model:
    def __init__(self):
        self.a, self.n = {}, {}

    def do(self, op):
        k = op[0]
        if k == "add_arc":
            e, w, dem = tuple(op[1]), op[2], op[3]
            if e in self.a or e[0] == e[1]:
                return False
            new = [x not in self.n for x in e]
            if all(new):
                if dem and not isinstance(dem, (tuple, list)):
                    return False
                d = dem if dem else (0, 0)
            else:
                d = dem if isinstance(dem, (tuple, list)) else (dem, dem)
            for i in range(2):
                if new[i]:
                    self.n[e[i]] = d[i] or 0
            self.a[e] = w
        elif k == "remove_arc":
            e = tuple(op[1])
            if e not in self.a:
                return False
            del self.a[e]
            if op[2]:
                for x in e:
                    if not any(x in q for q in self.a):
                        del self.n[x]
        elif k == "add_node":
            if op[1] in self.n:
                return False
            self.n[op[1]] = op[2]
        elif k == "set_arc_weight":
            if tuple(op[1]) not in self.a:
                return False
            self.a[tuple(op[1])] = op[2]
        elif k == "set_node_weight":
            if op[1] not in self.n:
                return False
            self.n[op[1]] = op[2]
        return True


def check(c):
    from pytimize.graphs import DirectedGraph
    m = Model()
    ok = True
    for v, ends in c.get("graph") or []:
        if not ends:
            m.n.setdefault(v, 0)
        for e in ends:
            if (v, e) not in m.a:
                ok = ok and m.do(["add_arc", (v, e), 0, None])
    for e, w in c.get("arcs") or []:
        if tuple(e) not in m.a:
            ok = ok and m.do(["add_arc", e, w, None])
        m.a[tuple(e)] = w
    for v, w in c.get("nodes") or []:
        m.n[v] = w
    gd = {v: set(e) for v, e in c["graph"]} if "graph" in c else None
    ed = {tuple(e): w for e, w in c["arcs"]} if "arcs" in c else None
    vd = dict(map(tuple, c["nodes"])) if "nodes" in c else None
    keep = copy.deepcopy((gd, ed, vd))
    try:
        g = DirectedGraph(gd, ed, vd)
    except Exception:
        return None if not ok else "constructor refused a valid digraph"
    if not ok:
        return "constructor accepted an invalid arc"
    if (gd, ed, vd) != keep:
        return "constructor changed its arguments"
    for x in (gd, ed, vd):
        if x is not None:
            for q in list(x):
                if isinstance(x[q], set):
                    x[q].add("ZZ")
            x.clear()
    w = agrees(g, m.a, m.n)
    if w:
        return "after construction: " + w
    for k, op in enumerate(c["ops"]):
        before = state(g)
        exp = m.do(op)
        args = [tuple(q) if isinstance(q, list) else q for q in op[1:]]
        try:
            getattr(g, op[0])(*args)
            got = True
        except Exception:
            got = False
        if got != exp:
            return f"{op} was {'accepted' if got else 'refused'} after {c['ops'][:k]}"
        if not got and before != state(g):
            return f"refused {op} but changed the digraph to {state(g)}"
        w = agrees(g, m.a, m.n)
        if w:
            return f"after {c['ops'][:k + 1]}: {w}"
        for e in [(a, b) for a in NAMES for b in NAMES]:
            if bool(g.has_arc(e)) != (e in m.a):
                return f"has_arc({e}) is wrong after {c['ops'][:k + 1]}"
        for v in NAMES:
            if bool(g.has_node(v)) != (v in m.n):
                return f"has_node({v}) is wrong"
    return None
