"""The graph library against a plain set of edges after random operation histories (multi-edges, self-loops, removals)."""
import mdp
from mdp import graph
from lib.harness import sub, check, st, raises
from lib import gen

I = st.integers(0, 30)
TREE = st.recursive(st.integers(0, 9), lambda c: st.tuples(st.integers(0, 9), st.lists(c, max_size=3)).map(lambda t: [t[0]] + t[1]), max_leaves=7).filter(lambda t: isinstance(t, list))
EDGE = st.tuples(st.just('edge'), I, I, st.integers(0, 3))
OP = st.one_of(st.tuples(st.just('node'), st.integers(0, 3)), EDGE, EDGE, EDGE, EDGE, EDGE, EDGE,
               st.tuples(st.just('rmnode'), I), st.tuples(st.just('rmedge'), I), st.tuples(st.just('rmedge'), I), st.tuples(st.just('nodes'), st.integers(0, 4) | st.lists(st.integers(0, 5), max_size=4)),
               st.tuples(st.just('tree'), TREE), st.tuples(st.just('full'), st.lists(I, max_size=3), st.lists(I, max_size=3)), st.tuples(st.just('stranger'), I), st.tuples(st.just('loop'), I))


class Ref(object):
    """nodes: list of (node, data); edges: list of (edge, head, tail, data)"""

    def __init__(self):
        self.g = graph.Graph()
        self.nodes, self.edges = [], []

    def node(self, n, data):
        self.nodes.append((n, data))
        return n

    def pick(self, i):
        return self.nodes[i % len(self.nodes)][0]

    def edge(self, e, h, t, data):
        self.edges.append((e, h, t, data))

    def out(self, n):
        return [t for _, h, t, _ in self.edges if h is n]

    def inn(self, n):
        return [h for _, h, t, _ in self.edges if t is n]


def tree_edges(ref, vals, nodes):
    """nodes must mirror vals; adds nodes and edges to the reference, returns the root."""
    if not isinstance(vals, list):
        check(not isinstance(nodes, list), 'tree of nodes')
        check(nodes.data == vals, 'data of a tree node')
        return ref.node(nodes, vals)
    check(isinstance(nodes, list) and len(nodes) == len(vals), 'structure of the returned tree: %r for %r' % (nodes, vals))
    root = tree_edges(ref, vals[0], nodes[0])
    for v, n in zip(vals[1:], nodes[1:]):
        son = tree_edges(ref, v, n)
        found = [e for e in ref.g.edges if e.get_head() is root and e.get_tail() is son]
        check(len(found) == 1, 'there is no edge from a tree node to its son')
        ref.edge(found[0], root, son, None)
    return root


def tup(t):
    return tuple(tup(q) for q in t) if isinstance(t, list) else t


def apply(ref, op):
    g, k = ref.g, op[0]
    if k == 'node':
        n = g.add_node(op[1]) if op[1] else g.add_node()
        check(n.data == (op[1] or None), 'data of a node')
        ref.node(n, op[1] or None)
    elif k == 'nodes':
        before = len(g.nodes)
        ns = g.add_nodes(op[1])
        want = [None] * op[1] if isinstance(op[1], int) else op[1]
        check([n.data for n in ns] == want and len(g.nodes) == before + len(want), 'add_nodes')
        for n, d in zip(ns, want):
            ref.node(n, d)
    elif k == 'tree':
        t = tup(op[1]) if len(ref.nodes) % 2 else op[1]
        tree_edges(ref, op[1], g.add_tree(t))
    elif k == 'stranger':
        other = graph.Graph()
        raises(graph.GraphException, lambda: g.remove_node(other.add_node(op[1])), 'removing a node that is not there')
    elif not ref.nodes:
        return
    elif k == 'edge' or k == 'loop':
        h, t = ref.pick(op[1]), ref.pick(op[2] if k == 'edge' else op[1])
        d = op[3] if k == 'edge' else 'loop'
        e = g.add_edge(h, t, d) if d else g.add_edge(h, t)
        check(e.get_ends() == (h, t) and e.get_head() is h and e.get_tail() is t and e.data == (d or None), 'ends of an edge')
        ref.edge(e, h, t, d or None)
    elif k == 'full':
        hs, ts = [ref.pick(i) for i in op[1]], [ref.pick(i) for i in op[2]]
        es = g.add_full_connectivity(hs, ts)
        check([len(q) for q in es] == [len(ts)] * len(hs), 'add_full_connectivity')
        for h, row in zip(hs, es):
            for t, e in zip(ts, row):
                check(e.get_ends() == (h, t), 'add_full_connectivity edges')
                ref.edge(e, h, t, None)
    elif k == 'rmnode':
        n = ref.pick(op[1])
        g.remove_node(n)
        ref.nodes = [q for q in ref.nodes if q[0] is not n]
        ref.edges = [e for e in ref.edges if e[1] is not n and e[2] is not n]
    elif k == 'rmedge' and ref.edges:
        e = ref.edges.pop(op[1] % len(ref.edges))
        g.remove_edge(e[0])


def bag(xs):
    return sorted(id(x) for x in xs)


def queries(ref):
    g = ref.g
    check(bag(g.nodes) == bag(n for n, _ in ref.nodes), 'the nodes of the graph')
    check(bag(g.edges) == bag(e[0] for e in ref.edges), 'the edges of the graph')
    for e, h, t, d in ref.edges:
        check(e.head is h and e.tail is t and e.data == d, 'an edge was changed')
    for n, d in ref.nodes:
        check(n.data == d, 'the data of a node was changed')
        ein, eout = [e[0] for e in ref.edges if e[2] is n], [e[0] for e in ref.edges if e[1] is n]
        check(bag(n.get_edges_in()) == bag(ein), 'edges in')
        check(bag(n.get_edges_out()) == bag(eout), 'edges out')
        check(set(n.get_edges()) == set(ein + eout), 'edges')
        check(n.in_degree() == len(ein) and n.out_degree() == len(eout) and n.degree() == len(ein) + len(eout), 'degrees')
        check(bag(n.in_neighbors()) == bag(ref.inn(n)), 'in neighbours')
        check(bag(n.out_neighbors()) == bag(ref.out(n)), 'out neighbours')
        check(bag(n.neighbors()) == bag(ref.inn(n) + ref.out(n)), 'neighbours')
        # the returned lists are copies
        for f in (n.get_edges_in, n.get_edges_out, n.get_edges, n.in_neighbors, n.out_neighbors, n.neighbors):
            k = len(f())
            del f()[:]
            check(len(f()) == k, 'a query returned the internal list')
        for m, _ in ref.nodes:
            a = [e[0] for e in ref.edges if e[1] is m and e[2] is n]
            b = [e[0] for e in ref.edges if e[1] is n and e[2] is m]
            check(bag(n.get_edges_in(from_=m)) == bag(a), 'edges in from a node')
            check(bag(n.get_edges_out(to_=m)) == bag(b), 'edges out to a node')
            check(set(n.get_edges(neighbor=m)) == set(a + b), 'edges with a neighbour')


def reach(root, nb):
    seen, todo = [root], [root]
    while todo:
        for s in nb(todo.pop()):
            if not any(s is q for q in seen):
                seen.append(s)
                todo.append(s)
    return seen


def valid_dfs(order, nb):
    """Every next node is a neighbour of the most recently visited one that has unvisited neighbours."""
    path, seen = [order[0]], set([order[0]])
    for n in order[1:]:
        while path and all(s in seen for s in nb(path[-1])):
            path.pop()
        if not path or not any(s is n for s in nb(path[-1])):
            return False
        seen.add(n)
        path.append(n)
    return True


def valid_bfs(order, nb):
    """The nodes come in the order of their first parents."""
    seen, i = set([order[0]]), 1
    for n in order:
        new = set(s for s in nb(n) if s not in seen)
        if set(order[i:i + len(new)]) != new:
            return False
        i += len(new)
        seen |= new
    return i == len(order)


def algorithms(ref, ctx):
    g = ref.g
    und = lambda n: ref.out(n) + ref.inn(n)
    for n, _ in ref.nodes:
        for f, nb, ok in ((g.dfs, ref.out, valid_dfs), (g.undirected_dfs, und, valid_dfs), (g.bfs, ref.out, valid_bfs), (g.undirected_bfs, und, valid_bfs)):
            visited = []
            order = f(n, visited.append)
            name = f.__name__
            check(order[0] is n, '%s starts somewhere else' % name)
            check(bag(order) == bag(reach(n, nb)), '%s visits other nodes than the reachable ones' % name)
            check(ok(order, nb), '%s order is not valid' % name)
            check(len(visited) == len(order) and all(a is b for a, b in zip(visited, order)), '%s: visited nodes are not the listed ones' % name)
            check(bag(f(n)) == bag(order), '%s without a function' % name)
    comps = g.connected_components()
    check(bag(n for c in comps for n in c) == bag(n for n, _ in ref.nodes), 'connected components are no partition')
    for c in comps:
        check(bag(c) == bag(reach(c[0], und)), 'a connected component is wrong')
    if ref.nodes:
        check(g.is_weakly_connected() is (len(comps) == 1), 'is_weakly_connected')
    # Kahn
    deg = dict((n, len(ref.inn(n))) for n, _ in ref.nodes)
    free = [n for n in deg if not deg[n]]
    for n in free:
        for s in ref.out(n):
            deg[s] -= 1
            if not deg[s]:
                free.append(s)
    if len(free) == len(ref.nodes):
        order = g.topological_sort()
        check(bag(order) == bag(free), 'topological sort lost nodes')
        cut = order
        ctx.label('acyclic')
    else:
        e = raises(graph.GraphTopologicalException, g.topological_sort, 'topological sort of a cyclic graph')
        check(isinstance(e, graph.GraphException), 'kind of the exception')
        cut = e.args[0]
        check(bag(cut) == bag(free), 'the nodes ordered before the cycle')
        ctx.label('cyclic')
    pos = dict((n, i) for i, n in enumerate(cut))
    for _, h, t, _ in ref.edges:
        if t in pos:
            check(h in pos and pos[h] < pos[t], 'topological order violates an edge')


@sub(st.fixed_dictionaries({'n': st.integers(0, 6), 'first': st.lists(st.tuples(I, I), max_size=8), 'ops': st.lists(OP, min_size=1, max_size=25)}), quick=8000, thorough=60000, shards=4, rule='at least 4 nodes and 4 edges at the end and one removal')
def history(case, ctx):
    """Operation sequences."""
    ref = Ref()
    ops = [('nodes', case['n'])] + [('edge', a, b, 0) for a, b in case['first']] + case['ops']
    for op in ops:
        apply(ref, op)
        if len(ref.nodes) > 14 or len(ref.edges) > 40:
            break
        # cheap part after every step
        check(len(ref.g.nodes) == len(ref.nodes) and len(ref.g.edges) == len(ref.edges), 'number of nodes or edges after %r' % (op,))
    queries(ref)
    algorithms(ref, ctx)
    queries(ref)
    if len(ref.nodes) >= 4 and len(ref.edges) >= 4 and any(o[0].startswith('rm') for o in case['ops']):
        ctx.nontrivial()
    kinds = set(o[0] for o in case['ops'])
    for k in sorted(kinds):
        ctx.label(k)


@sub(st.fixed_dictionaries({'n': st.integers(1, 9), 'reps': st.sampled_from([1] * 9 + [4, 9]), 'edges': st.lists(st.tuples(st.integers(0, 8), st.integers(0, 8)), max_size=22), 'kind': st.sampled_from(['dag', 'dag', 'any', 'two'])}),
     quick=8000, thorough=60000, shards=4, rule='at least 5 edges')
def dense(case, ctx):
    """Graphs with more edges: orders and components."""
    ref = Ref()
    # larger graphs: shifted repetitions of the edges
    n, reps = case['n'] * case.get('reps', 1), case.get('reps', 1)
    for i in range(n):
        ref.node(ref.g.add_node(i), i)
    perm = [(i * 5 + 3) % n for i in range(n)] if n % 5 else list(range(n))
    for a, b in [(a * (k + 1) + k * 7, b + k * 5) for k in range(reps) for a, b in case['edges']]:
        a, b = a % n, b % n
        if case['kind'] == 'dag':
            if a == b:
                continue
            a, b = perm[min(a, b)], perm[max(a, b)]
        elif case['kind'] == 'two' and (a % 2) != (b % 2):
            continue
        h, t = ref.pick(a), ref.pick(b)
        ref.edge(ref.g.add_edge(h, t), h, t, None)
    algorithms(ref, ctx)
    if len(ref.edges) >= 5:
        ctx.nontrivial()


def flat(t):
    return [q for s in t for q in flat(s)] if isinstance(t, (list, tuple)) else [t]


@sub(TREE, quick=300, thorough=3000, rule='nested at least once')
def helpers(case, ctx):
    """recursive_map and recursive_reduce"""
    for t in (case, tup(case)):
        m = graph.recursive_map(lambda v: v * 3 + 1, t)

        def same(a, b):
            return isinstance(a, list) and len(a) == len(b) and all(same(p, q) for p, q in zip(a, b)) if isinstance(b, (list, tuple)) else a == b * 3 + 1
        check(same(m, t), 'recursive_map(%r) = %r' % (t, m))
        check(graph.recursive_reduce(lambda a, b: a + b, t) == sum(flat(t)), 'recursive_reduce sum')
        check(graph.recursive_reduce(lambda a, b: a + b, t, 100) == 100 + sum(flat(t)), 'recursive_reduce with start value')
        check(graph.is_sequence(t) and not graph.is_sequence(3), 'is_sequence')
    if any(isinstance(q, list) for q in case):
        ctx.nontrivial()
