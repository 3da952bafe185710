"""C08: the dependency graph under every history of edits, against plain sets."""
import itertools
from mc.core import Space
from Patro.Common.Graph import DirectedAcyclicGraph as M

PROPERTY = 'C08'
ASSUMPTIONS = ['the iteration order of the sets of nodes, which decides the traversal order, is enumerated by giving the nodes every permutation of small hash values']

Graph = M.DirectedAcyclicGraph
Node = M.DirectedAcyclicGraphNode

def order(perm):
    """the nodes hash (hence are iterated) in this order"""
    if perm is None:
        if '__hash__' in Node.__dict__:
            del Node.__hash__
    else:
        Node.__hash__ = lambda self: perm.get(self.node_id, 7)

def reach(edges, nodes, start):
    dist = {start: 0}
    cur = [start]
    while cur:
        nxt = []
        for a in cur:
            for x, y in edges:
                if x == a and y not in dist:
                    dist[y] = dist[a] + 1
                    nxt.append(y)
        cur = nxt
    return dist

def is_cyclic(edges, nodes):
    left = set(nodes)
    e = set(edges)
    while left:
        free = [n for n in left if not any(y == n for x, y in e)]
        if not free:
            return True
        for n in free:
            left.discard(n)
            e = {(x, y) for x, y in e if x != n}
    return False

def ids(it):
    return [n.node_id for n in it]

def ancestors_of(n):
    for name in ('ancestors', 'ancestor'):
        try:
            return getattr(n, name)
        except AttributeError:
            pass
    raise AttributeError('ancestors')

def compare(ctx, g, nodes, edges, data=None):
    got = ids(g)
    ctx.check(sorted(got) == sorted(nodes), 'nodes: {} expected {}', got, nodes)
    for n in nodes:
        node = g[n]
        ctx.check(node.node_id == n, 'lookup of {}', n)
        if data is not None:
            ctx.check(node.data == data[n], 'data of {}', n)
        d = sorted(ids(node.descendants)); a = sorted(ids(ancestors_of(node)))
        ctx.check(d == sorted(y for x, y in edges if x == n), 'descendants of {}: {}', n, d)
        ctx.check(a == sorted(x for x, y in edges if y == n), 'ancestors of {}: {}', n, a)
        ctx.check(bool(node.is_root) == (not a) and bool(node.is_leaf) == (not d), 'is_root, is_leaf of {}', n)
    ctx.check(sorted(ids(g.roots())) == sorted(n for n in nodes if not any(y == n for x, y in edges)), 'roots')
    ctx.check(sorted(ids(g.leafs())) == sorted(n for n in nodes if not any(x == n for x, y in edges)), 'leafs')
    for missing in ('zz', None, -1):
        ctx.raises(KeyError, lambda: g[missing], 'lookup of a missing node')
    ctx.state((sorted(nodes), sorted(edges)))

def traversals(ctx, g, nodes, edges):
    cyclic = is_cyclic(edges, nodes)
    if cyclic:
        ctx.raises((NameError, ValueError), g.topological_sort, 'topological sort of a cyclic graph')
        ctx.outcome('cycle')
    else:
        s = ids(g.topological_sort())
        ctx.check(sorted(s) == sorted(nodes), 'the sort {} does not list every node once', s)
        pos = {n: i for i, n in enumerate(s)}
        for x, y in edges:
            ctx.check(pos[x] < pos[y], '{} is not before {} in {}', x, y, s)
        ctx.outcome(s)
    for n in nodes:
        b = ids(g[n].breadth_first_search())
        dist = reach(edges, nodes, n)
        ctx.check(sorted(b) == sorted(dist), 'search from {}: {}, expected {}', n, b, sorted(dist))
        d = [dist[x] for x in b]
        ctx.check(d == sorted(d), 'search from {} in {}: distances {}', n, b, d)

def graph(case, ctx):
    n, edges, perm = case
    order(dict(enumerate(perm)) if perm is not None else None)
    edges = [tuple(e) for e in edges]
    g = Graph()
    nodes = list(range(n))
    for i in nodes:
        node = g.add_node(i, data='d%d' % i)
        ctx.check(node.node_id == i and g[i] is node, 'add_node')
    for x, y in edges:
        g.add_edge(g[x], g[y])
    compare(ctx, g, nodes, edges, {i: 'd%d' % i for i in nodes})
    traversals(ctx, g, nodes, edges)
    compare(ctx, g, nodes, edges)

def history(case, ctx):
    ops, names, perm = case
    order({names[i]: p for i, p in enumerate(perm)})
    g = Graph()
    nodes = []
    edges = set()
    for op in ops:
        ctx.step()
        if op[0] == 'n':
            name = names[op[1]]
            if name in nodes:
                before = g[name]
                ctx.raises(NameError, lambda: g.add_node(name), 'duplicate node')
                ctx.check(g[name] is before, 'a refused node replaced the first one')
            else:
                g.add_node(name)
                nodes.append(name)
        else:
            x, y = names[op[1]], names[op[2]]
            if x not in nodes or y not in nodes:
                ctx.raises(KeyError, lambda: g.add_edge(g[x], g[y]), 'edge between missing nodes')
            elif op[0] == 'e':
                g.add_edge(g[x], g[y])
                edges.add((x, y))
            elif op[0] == 'c':
                g[y].connect_ancestor(g[x])
                edges.add((x, y))
            else:
                if (x, y) in edges:
                    g[y].disconnect_ancestor(g[x])
                    edges.discard((x, y))
                else:
                    ctx.raises(KeyError, lambda: g[y].disconnect_ancestor(g[x]), 'disconnection of an edge that does not exist')
    compare(ctx, g, nodes, edges)
    traversals(ctx, g, nodes, edges)

def shape(case, ctx):
    kind, n = case
    order(None)
    g = Graph()
    nodes = list(range(n))
    for i in nodes:
        g.add_node(i)
    if kind == 'chain':
        edges = [(i, i+1) for i in range(n-1)]
    elif kind == 'reverse':
        edges = [(i+1, i) for i in range(n-1)]
    elif kind == 'ring':
        edges = [(i, (i+1) % n) for i in range(n)]
    elif kind == 'star':
        edges = [(0, i) for i in range(1, n)]
    else:
        edges = [(i, j) for i in range(n) for j in range(i+1, n)]
    for x, y in edges:
        g.add_edge(g[x], g[y])
    ctx.state(case)
    if kind == 'ring':
        ctx.raises((NameError, ValueError), g.topological_sort, 'topological sort of a cyclic graph')
        ctx.eq(len(list(g[0].breadth_first_search())), n, 'search')
        return
    pos = {m: i for i, m in enumerate(ids(g.topological_sort()))}
    ctx.check(len(pos) == n and all(pos[x] < pos[y] for x, y in edges), 'topological sort')
    ctx.check(len(list(g[0].breadth_first_search())) == (1 if kind == 'reverse' else n), 'search')

def spaces(tier):
    T = tier == 'thorough'
    def graphs():
        for n in range(4):
            pairs = [(a, b) for a in range(n) for b in range(n)]
            for k in range(len(pairs)+1):
                for e in itertools.combinations(pairs, k):
                    for perm in itertools.permutations(range(n)):
                        yield [n, list(e), list(perm)]
    def graphs4():
        pairs = [(a, b) for a in range(4) for b in range(4)]
        for k in range(len(pairs)+1):
            for e in itertools.combinations(pairs, k):
                yield [4, list(e), [2, 0, 3, 1]]
    def dags(n, perms):
        pairs = [(a, b) for a in range(n) for b in range(a+1, n)]
        for k in range(len(pairs)+1):
            for e in itertools.combinations(pairs, k):
                for perm in perms(range(n)):
                    yield [n, list(e), list(perm)]
    ops = [['n', i] for i in range(3)] + [[k, a, b] for k in 'ed' for a in range(3) for b in range(3)]
    few = [['n', 0], ['n', 1], ['e', 0, 1], ['c', 1, 0], ['d', 0, 1], ['d', 1, 0], ['e', 0, 0], ['d', 0, 0]]
    base = [['n', 2], ['n', 0], ['n', 1]]
    hist = lambda: ([base + list(h), ['a', 'b', 'c'], p] for k in range(5 if T else 4) for h in itertools.product(ops[3:], repeat=k) for p in ([0, 1, 2], [2, 1, 0]))
    hist2 = lambda: ([list(h), ['a', '1', ''], [3, 0, 5]] for k in range(6 if T else 5) for h in itertools.product(few, repeat=k))
    hist3 = lambda: ([list(h), ['a', 'b', 'c'], [1, 2, 0]] for k in range(5 if T else 4) for h in itertools.product(ops, repeat=k))
    return [
        Space('graphs', graphs, graph, 'every directed graph, with self loops, of 0-3 nodes x every iteration order'),
        Space('graphs-4', graphs4, graph, 'every directed graph, with self loops, of 4 nodes'),
        Space('dags-4', lambda: dags(4, itertools.permutations), graph, 'every acyclic graph of 4 ordered nodes x every iteration order'),
        Space('dags-5', lambda: dags(5, itertools.permutations if T else (lambda r: [(3, 0, 4, 1, 2), (0, 1, 2, 3, 4), (4, 3, 2, 1, 0)])), graph, 'every acyclic graph of 5 ordered nodes'),
        Space('edit-histories', hist, history, '3 nodes, every sequence of connections and disconnections up to 3 (thorough 4)'),
        Space('node-histories', hist2, history, 'every sequence of 8 operations up to 4 (thorough 5) with duplicate and missing nodes'),
        Space('histories', hist3, history, 'every sequence of 21 operations up to 3 (thorough 4) from the empty graph'),
        Space('shapes', [[k, n] for k in ('chain', 'reverse', 'ring', 'star') for n in (2, 3, 10, 500, 3000)] + [['full', n] for n in (2, 10, 60)], shape, 'long chains, rings, stars, complete graphs'),
    ]
