"""C24: graph algorithms of mandala.utils on every directed graph of n nodes."""
from symex.registry import harness
from mandala.utils import (find_strongly_connected_components, create_super_graph, topological_sort,
                           almost_topological_sort, get_edges_in_paths)

NAMES = ["a", "b", "c", "d", "e"]


def sym_graph(nd, n, loops=True, order=None):
    g = {}
    for u in NAMES[:n]:
        s = set()
        for v in NAMES[:n]:
            if (loops or u != v) and nd.bool("e_" + u + v):
                s.add(v)
        g[u] = s
    return g


def closure(g):
    """reference reachability (paths of length >= 0)"""
    r = {u: {u} | g[u] for u in g}
    for w in g:
        for u in g:
            if w in r[u]:
                r[u] = r[u] | r[w]
    return r


@harness("C24", quick=[dict(n=4)], thorough=[], bounds="every directed graph with n nodes (self loops included)")
def scc(nd, n):
    """SCCs partition the nodes; two nodes share one iff they reach each other"""
    g = sym_graph(nd, n)
    r = closure(g)
    out = find_strongly_connected_components(g)
    nd.obs("scc", len(out))
    for u in g:
        nd.check(len([c for c in out if u in c]) == 1, "every node in exactly one component")
    for u in g:
        for v in g:
            together = any(u in c and v in c for c in out)
            nd.check(together == (v in r[u] and u in r[v]), "same component iff mutually reachable")
    nd.cover(len(out) == 1, "one component")
    nd.cover(len(out) == n, "all singletons")


@harness("C24", quick=[dict(n=3)], thorough=[dict(n=4)], bounds="every directed graph with n nodes, any partition given by the real SCC routine")
def super_graph(nd, n):
    """the condensation has exactly the edges between different components"""
    g = sym_graph(nd, n)
    sccs = find_strongly_connected_components(g)
    sg = create_super_graph(g, sccs)
    nd.obs("sg", len(sg))
    nd.check(set(sg.keys()) == set(range(len(sccs))), "one super node per component")
    for i in sg:
        for j in range(n):
            want = j < len(sccs) and i != j and any((v in g[u]) for u in sccs[i] for v in (sccs[j] if j < len(sccs) else ()))
            nd.check((j in sg[i]) == want, "super edge iff an edge joins the components")
    nd.cover(len(sccs) == n, "acyclic")


@harness("C24", quick=[dict(n=3), dict(n=4)], thorough=[dict(n=5)], bounds="every acyclic graph with n nodes under every naming (the acyclicity assumption is the closure being irreflexive)")
def topo(nd, n):
    """every node once, every edge forward"""
    g = sym_graph(nd, n, loops=False)
    r = closure(g)
    for u in g:
        for v in g:
            if u != v:
                nd.assume(not (v in r[u] and u in r[v]))
    out = topological_sort(g)
    nd.obs("topo", len(out))
    nd.check(len(out) == n and set(out) == set(g), "a permutation of the nodes")
    for u in g:
        for v in g:
            if v in g[u]:
                nd.check(out.index(u) < out.index(v), "edges go forward")
    nd.cover(out[0] == NAMES[n - 1], "last name first")


@harness("C24", quick=[dict(n=3)], thorough=[dict(n=4)], bounds="every directed graph with n nodes")
def almost_topo(nd, n):
    """every node once; u before v whenever u reaches v but not conversely; components contiguous"""
    g = sym_graph(nd, n)
    r = closure(g)
    out = almost_topological_sort(g)
    nd.obs("at", len(out))
    nd.check(len(out) == n and set(out) == set(g), "a permutation of the nodes")
    for u in g:
        for v in g:
            if v in r[u] and u not in r[v]:
                nd.check(out.index(u) < out.index(v), "order between components is topological")
    for i in range(n - 2):
        a, b, c = out[i], out[i + 1], out[i + 2]
        same_ac = c in r[a] and a in r[c]
        nd.check(not same_ac or (b in r[a] and a in r[b]), "components are contiguous")
    nd.cover(out[0] == "c", "nontrivial order")


def simple_path_edges(g, start, end):
    """reference: edges on some simple path from start to end"""
    found = set()

    def go(path):
        if path[-1] == end:
            for x, y in zip(path, path[1:]):
                found.add((x, y))
            return
        for v in g:
            if v not in path and v in g[path[-1]]:
                go(path + [v])
    go([start])
    return found


@harness("C24", quick=[dict(n=3)], thorough=[dict(n=4)], bounds="every directed graph with n nodes, every pair of distinct end points")
def path_edges(nd, n):
    """the call terminates, every edge of a simple path is returned, and every
    returned edge lies on some walk from start to end (edges of cycles hanging
    on such a path may be included)"""
    g = sym_graph(nd, n)
    start = nd.choice("start", NAMES[:n])
    end = nd.choice("end", NAMES[:n])
    nd.assume(start != end)
    out = get_edges_in_paths(g, start, end)
    nd.obs("pe", len(out))
    r = closure(g)
    for s in NAMES[:n]:
        for e in NAMES[:n]:
            if s != e and s == start and e == end:
                for u, v in simple_path_edges(g, s, e):
                    nd.check((u, v) in out, "edges of simple paths are found")
                for u in g:
                    for v in g:
                        if (u, v) in out:
                            nd.check(v in g[u] and u in r[s] and e in r[v], "only edges on walks from start to end")
    nd.cover(len(out) >= n, "several paths")
