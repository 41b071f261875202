"""Observation of directed graphs."""


def state(g):
    s = dict(arcs=sorted(g.arcs), nodes=sorted(g.nodes))
    for n in ("_arcs", "_nodes"):
        d = getattr(g, n, None)
        if isinstance(d, dict):
            s[n] = dict(d)
    d = getattr(g, "_graph", None)
    if isinstance(d, dict):
        s["_graph"] = {k: sorted(v) for k, v in d.items()}
    return s


def agrees(g, arcs, nodes):
    if len(g.arcs) != len(set(g.arcs)) or set(g.arcs) != set(arcs):
        return f"arcs are {sorted(g.arcs)}, expected {sorted(arcs)}"
    if len(g.nodes) != len(set(g.nodes)) or set(g.nodes) != set(nodes):
        return f"nodes are {sorted(g.nodes)}, expected {sorted(nodes)}"
    s = state(g)
    if "_arcs" in s and s["_arcs"] != arcs:
        return f"arc weights are {s['_arcs']}, expected {arcs}"
    if "_nodes" in s and s["_nodes"] != nodes:
        return f"node demands are {s['_nodes']}, expected {nodes}"
    if "_graph" in s:
        succ = {n: sorted(v for (u, v) in arcs if u == n) for n in nodes}
        if s["_graph"] != succ:
            return f"successors are {s['_graph']}, expected {succ}"
    return None
