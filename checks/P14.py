"""Growing neural gas and neural gas against a plain reference implementation of the published algorithms."""
import pickle
import numpy as np
import mdp
from lib.harness import sub, check, close, st, raises
from lib import gen
from lib.gen import seeds, rs


class Tie(Exception):
    """The reference cannot tell which node comes first."""


def first(vals, k=1):
    """Indices of the k largest values; Tie if rounding could change the choice."""
    o = np.argsort(-np.asarray(vals), kind='stable')
    v = np.asarray(vals)[o]
    for i in range(min(k, len(v) - 1)):
        if not v[i] - v[i + 1] > 1e-9 * (1e-30 + abs(v[i])):
            raise Tie()
    return o[:k]


class Ref(object):
    """Growing neural gas: nodes in a dict, edges as unordered pairs with an age."""

    def __init__(self, P):
        self.P, self.pos, self.err, self.age, self.t, self.next = P, {}, {}, {}, 0, 0
        self.inserted = self.removed = self.dropped = 0

    def add(self, p, e=0.):
        self.pos[self.next], self.err[self.next] = np.array(p, float), e
        self.next += 1
        return self.next - 1

    def nb(self, a):
        return [b for e in self.age for b in e if a in e and b != a]

    def present(self, x):
        P = self.P
        self.t += 1
        ids = sorted(self.pos)
        d = np.array([((self.pos[i] - x) ** 2).sum() for i in ids])
        o = np.argsort(d, kind='stable')
        for i in range(min(2, len(o) - 1)):
            if d[o[i + 1]] - d[o[i]] <= 1e-9 * d[o[i + 1]]:
                raise Tie()
        a, b = ids[o[0]], ids[o[1]]
        for e in self.age:
            if a in e:
                self.age[e] += 1
        self.err[a] += np.sqrt(d[o[0]])
        self.pos[a] = self.pos[a] + P['eps_b'] * (x - self.pos[a])
        for c in self.nb(a):
            self.pos[c] = self.pos[c] + P['eps_n'] * (x - self.pos[c])
        self.age[frozenset((a, b))] = 0
        for e in list(self.age):
            if self.age[e] > P['max_age']:
                del self.age[e]
                self.dropped += 1
                for c in e:
                    if not self.nb(c):
                        del self.pos[c], self.err[c]
                        self.removed += 1
        if self.t % P['lambda_'] == 0 and len(self.pos) < P['max_nodes']:
            ids = sorted(self.pos)
            q = ids[first([self.err[i] for i in ids])[0]]
            ns = self.nb(q)
            f = ns[first([self.err[i] for i in ns])[0]]
            self.err[q] *= P['alpha']
            self.err[f] *= P['alpha']
            r = self.add(0.5 * (self.pos[q] + self.pos[f]), 0.5 * (self.err[q] + self.err[f]))
            del self.age[frozenset((q, f))]
            self.age[frozenset((q, r))] = self.age[frozenset((f, r))] = 0
            self.inserted += 1
        for i in self.err:
            self.err[i] *= P['d']


def valid_graph(g, max_age=None, isolated=True):
    """The graph is simple, consistent and its edges young."""
    nodes, edges = g.nodes, g.edges
    ids = set(map(id, nodes))
    check(len(ids) == len(nodes), "a node is listed twice")
    seen = set()
    for e in edges:
        check(id(e.head) in ids and id(e.tail) in ids, "edge to a node that is not in the graph")
        check(e.head is not e.tail, "self-loop")
        k = frozenset((id(e.head), id(e.tail)))
        check(k not in seen, "two edges between the same nodes")
        seen.add(k)
        check(sum(x is e for x in e.head.eout) == 1 and sum(x is e for x in e.tail.ein) == 1, "edge lists inconsistent")
        if max_age is not None:
            check(e.data.age <= max_age, "edge of age %s, allowed %s", e.data.age, max_age)
        check(e.data.age >= 0, "negative age")
    check(sum(n.degree() for n in nodes) == 2 * len(edges), "nodes keep edges that are not in the graph")
    if isolated:
        for n in nodes:
            check(n.degree() > 0, "isolated node left")
    for n in nodes:
        check(np.isfinite(n.data.pos).all(), "position not finite")


def same_graph(node, pos, age, err, scale, what):
    g = node.graph
    P = node.get_nodes_position()
    check(P.shape == (len(g.nodes), node.input_dim), "shape of the positions %s", P.shape)
    for n, p in zip(g.nodes, P):
        check(np.array_equal(n.data.pos, p), "get_nodes_position does not give the positions of the graph")
    ids = sorted(pos)
    R = np.array([pos[i] for i in ids])
    check(len(P) == len(R), "%s: %d nodes instead of %d", what, len(P), len(R))
    D = np.sqrt(((P[:, None] - R[None]) ** 2).sum(axis=2))
    m = D.argmin(axis=1)
    if len(set(m)) < len(m):
        for k in range(len(P)):      # coinciding nodes: order of creation
            m[k] = k
    check(D[range(len(P)), m].max() <= 1e-8 * scale, "%s: positions %s instead of %s", what, P, R[m])
    num = {id(n): ids[m[k]] for k, n in enumerate(g.nodes)}
    E = {frozenset((num[id(e.head)], num[id(e.tail)])): e.data.age for e in g.edges}
    check(E == age, "%s: edges %s instead of %s", what, E, age)
    if err is not None:
        for n in g.nodes:
            close(n.data.cum_error, err[num[id(n)]], 1e-8, what + ": accumulated error", scale=scale * 10)


def stream(rng, n, d, shape, scale, offset):
    if shape == 'clusters':
        c = rng.normal(size=(4, d)) * 5
        x = c[rng.randint(4, size=n)] + rng.normal(size=(n, d)) * 0.3
    elif shape == 'line':
        x = np.outer(rng.rand(n), np.ones(d)) * 6 + 0.05 * rng.normal(size=(n, d))
    elif shape == 'moving':
        x = np.outer(np.linspace(0, 8, n), np.ones(d)) + 0.3 * rng.normal(size=(n, d))
    elif shape == 'grid':
        x = rng.randint(0, 4, size=(n, d)).astype(float)
    else:
        x = rng.normal(size=(n, d))
    return x * scale + offset


gng = st.fixed_dictionaries({
    'seed': seeds, 'd': st.integers(1, 3), 'n': st.integers(1, 150), 'nch': st.sampled_from([1, 2, 5, 40]),
    'shape': st.sampled_from(['clusters', 'line', 'moving', 'grid', 'gauss']), 'scale': st.sampled_from([1., 1., 100., 0.01]),
    'offset': st.sampled_from([0., 0., 3., -2.]), 'start': st.booleans(), 'f32': st.sampled_from([False, False, False, True]),
    'eps_b': st.sampled_from([0.2, 0.05, 0.5, 1., 0.]), 'eps_n': st.sampled_from([0.006, 0.05, 0.2, 0.]),
    'max_age': st.sampled_from([50, 1, 2, 3, 5, 10, 0]), 'lambda_': st.sampled_from([1, 2, 3, 5, 10, 100]), 'alpha': st.sampled_from([0.5, 0.1, 0.9]),
    'd_': st.sampled_from([0.995, 0.9, 0.5, 1.]), 'max_nodes': st.sampled_from([2, 3, 4, 6, 10, 2147483647]), 'copyat': st.integers(0, 6),
    'layout': st.integers(0, 9)})


@sub(gng, quick=700, thorough=16000, shards=4, rule="a node was inserted and an edge removed", timeout=120)
def growing(case, ctx):
    rng = rs(case['seed'], 1)
    d, n = case['d'], case['n']
    P = dict(eps_b=case['eps_b'], eps_n=case['eps_n'], max_age=case['max_age'], lambda_=case['lambda_'], alpha=case['alpha'], d=case['d_'],
             max_nodes=case['max_nodes'])
    x = stream(rng, n, d, case['shape'], case['scale'], case['offset'])
    if case['f32']:
        x = x.astype('f')
    ref = Ref(P)
    k = case['seed'] % 9999
    if case['start']:
        start = [(rng.normal(size=d) * case['scale'] + case['offset']).astype(x.dtype) for i in range(2)]
        keep = [s.copy() for s in start]
        node = mdp.nodes.GrowingNeuralGasNode(start_poss=start, **P)
        ref.age[frozenset((ref.add(start[0]), ref.add(start[1])))] = 0
    else:
        node = mdp.nodes.GrowingNeuralGasNode(**P)
        r = np.random.RandomState(k)
        ref.add(r.normal(0., 1., d))
        ref.add(r.normal(0., 1., d))
    x0 = x.copy()
    sizes = gen.cuts(rng, n, case['nch'])
    follow = not case['f32']
    scale = case['scale'] * 10 + abs(case['offset']) + 5
    np.random.seed(k)
    chunks = gen.split(x, sizes)
    for i, c in enumerate(chunks):
        if i == case['copyat']:
            node = node.copy() if i % 2 else pickle.loads(node.save(None))
        node.train(gen.layouts(rng, c) if case['layout'] > 6 else c)
        check(2 <= len(node.graph.nodes) <= max(2, P['max_nodes']), "%d nodes", len(node.graph.nodes))
        valid_graph(node.graph, P['max_age'])
        if follow:
            try:
                for row in c:
                    ref.present(row)
            except Tie:
                follow = False
                ctx.label("tie")
        if follow:
            same_graph(node, ref.pos, ref.age, ref.err, scale, "after chunk %d" % i)
    check(np.array_equal(x, x0), "training changed the data")
    if case['start']:
        check(all(np.array_equal(a, b) for a, b in zip(start, keep)), "training changed the start positions of the caller")
    check(node.get_nodes_position().dtype == x.dtype, "dtype of the positions")
    before = node.get_nodes_position().copy()
    query(node, rng, x, scale)
    check(np.array_equal(before, node.get_nodes_position()), "a query moved the nodes")
    raises(mdp.TrainingFinishedException, lambda: node.train(x), "training after the end")
    ctx.nontrivial(ref.inserted > 0 and ref.dropped > 0)
    if ref.removed:
        ctx.label("node removed")


def query(node, rng, x, scale):
    P = node.get_nodes_position().astype(float)
    z = np.concatenate([x[rng.randint(len(x), size=5)], x[rng.randint(len(x), size=5)] + (rng.normal(size=(5, x.shape[1])) * scale / 5).astype(x.dtype)])
    near, dist = node.nearest_neighbor(z)
    check(not node.is_training(), "a query does not close the training")
    check(len(near) == len(z) and len(dist) == len(z), "number of answers")
    D = np.sqrt(((z[:, None].astype(float) - P[None]) ** 2).sum(axis=2))
    tol = 1e-4 if x.dtype == np.float32 else 1e-9
    close(np.array(dist, float), D.min(axis=1), tol, "distances", scale=scale)
    for i, nd in enumerate(near):
        check(any(nd is m for m in node.graph.nodes), "the answer is not a node of the graph")
        e = np.sqrt(((z[i].astype(float) - nd.data.pos) ** 2).sum())
        check(e <= D[i].min() + tol * scale, "node at distance %g, nearest at %g", e, D[i].min())
    y = node.execute(x)
    check(np.array_equal(y, x), "execute is the identity")


class RefNG(object):
    def __init__(self, pos, P):
        self.pos, self.age, self.epoch, self.P, self.dropped = [np.array(p, float) for p in pos], {}, 0, P, 0

    def train(self, data, permutation):
        P = self.P
        for k in range(P['n']):
            order = permutation(data)
            f = min(self.epoch / float(P['max_epochs']), 1.)
            eps = P['ei'] * (P['ef'] / P['ei']) ** f
            lam = P['li'] * (P['lf'] / P['li']) ** f
            T = P['ai'] * (float(P['af']) / P['ai']) ** f
            self.epoch += 1
            for x in order:
                d = np.array([((p - x) ** 2).sum() for p in self.pos])
                o = np.argsort(d, kind='stable')
                s = d[o]
                w = eps * np.exp(-np.arange(len(o)) / lam)
                # a tie matters when the tied nodes move differently or share the edge
                for i in range(len(s) - 1):
                    if s[i + 1] - s[i] <= 1e-9 * s[i + 1] and (w[i] > 1e-12 or i < 2):
                        raise Tie()
                for rank, i in enumerate(o):
                    self.pos[i] = self.pos[i] + w[rank] * (x - self.pos[i])
                for e in self.age:
                    self.age[e] += 1
                self.age[frozenset((int(o[0]), int(o[1])))] = 0
                for e in list(self.age):
                    a = self.age[e]
                    if abs(a - T) < 1e-9 * T and a != T:
                        raise Tie()
                    if a > T:
                        del self.age[e]
                        self.dropped += 1
        self.T = T


@sub(st.fixed_dictionaries({
    'seed': seeds, 'd': st.integers(1, 3), 'n': st.one_of(st.integers(1, 40), st.integers(1, 4), st.integers(4, 12), st.sampled_from([40, 130])), 'k': st.one_of(*([st.integers(2, 6)] * 6 + [st.sampled_from([12, 20])])), 'start': st.booleans(),
    'shape': st.sampled_from(['clusters', 'line', 'moving', 'grid', 'gauss']), 'scale': st.sampled_from([1., 1., 100., 0.01]),
    'ei': st.sampled_from([0.3, 0.05, 1.]), 'ef': st.sampled_from([0.05, 0.3, 0.001]), 'li': st.sampled_from([30., 2., 0.5]),
    'lf': st.sampled_from([0.01, 1., 30.]), 'ai': st.sampled_from([20, 1, 3, 8]), 'af': st.sampled_from([200, 1, 1, 2, 5, 20]),
    'max_epochs': st.sampled_from([1, 2, 3, 5, 10]), 'n_epochs': st.sampled_from([None, 1, 1, 2]), 'calls': st.integers(1, 8), 'fresh': st.sampled_from([True, True, False]),
    'f32': st.sampled_from([False, False, False, True]), 'copy': st.booleans()}),
    quick=500, thorough=10000, shards=4, rule="an edge was removed", timeout=120)
def fixed_size(case, ctx):
    rng = rs(case['seed'], 2)
    d, n, k = case['d'], case['n'], case['k']
    dt = 'f' if case['f32'] else 'd'
    P = dict(ei=case['ei'], ef=case['ef'], li=case['li'], lf=case['lf'], ai=case['ai'], af=case['af'], max_epochs=case['max_epochs'],
             n=case['n_epochs'] or case['max_epochs'])
    kw = dict(epsilon_i=P['ei'], epsilon_f=P['ef'], lambda_i=P['li'], lambda_f=P['lf'], max_age_i=P['ai'], max_age_f=P['af'],
              max_epochs=P['max_epochs'], n_epochs_to_train=case['n_epochs'])
    s = case['seed'] % 9999
    r = np.random.RandomState(s)
    if case['start']:
        start = [(rng.normal(size=d) * case['scale']).astype(dt) for i in range(k)]
        keep = [a.copy() for a in start]
        node = mdp.nodes.NeuralGasNode(num_nodes=rng.choice([k, 10]), start_poss=start, **kw)
        pos = keep
    else:
        node = mdp.nodes.NeuralGasNode(num_nodes=k, **kw)
        pos = [r.normal(0., 1., d) for i in range(k)]
    ref = RefNG(pos, P)
    follow = not case['f32']
    np.random.seed(s)
    scale = case['scale'] * 10 + 5
    x = None
    for c in range(case['calls']):
        if x is None or case['fresh']:
            x = stream(rng, n if c % 2 == 0 else 1, d, case['shape'], case['scale'], 0.).astype(dt)
            x0 = x.copy()
        if c and case['copy']:
            node = node.copy()
        node.train(x)
        check(np.array_equal(x, x0), "training changed the data")
        check(len(node.graph.nodes) == k, "%d nodes instead of %d", len(node.graph.nodes), k)
        f = min((P['n'] * (c + 1) - 1) / float(P['max_epochs']), 1.)
        valid_graph(node.graph, P['ai'] * (float(P['af']) / P['ai']) ** f * (1 + 1e-9), isolated=False)
        if follow:
            try:
                ref.train(x, r.permutation)
            except Tie:
                follow = False
                ctx.label("tie")
        if follow:
            same_graph(node, dict(enumerate(ref.pos)), ref.age, None, scale, "after call %d" % c)
    if case['start']:
        check(all(np.array_equal(a, b) for a, b in zip(start, keep)), "training changed the start positions of the caller")
    check(node.get_nodes_position().dtype == np.dtype(dt), "dtype of the positions")
    query(node, rng, x, scale)
    ctx.nontrivial(ref.dropped > 0)


@sub(st.fixed_dictionaries({'seed': seeds, 'd': st.integers(1, 2), 'n': st.integers(1, 3)}), quick=12, thorough=100, rule="every case", timeout=200)
def converges(case, ctx):
    """Both networks end up near the data: every cluster has a node close to it."""
    rng = rs(case['seed'], 3)
    d = case['d']
    c = np.array([[8. * i] + [0.] * (d - 1) for i in range(case['n'])])
    x = c[rng.randint(len(c), size=600)] + 0.2 * rng.normal(size=(600, d))
    x[:len(c)] = c
    np.random.seed(case['seed'] % 999)
    g = mdp.nodes.GrowingNeuralGasNode(lambda_=30, max_nodes=20)
    g.train(x)
    g.train(x)
    ng = mdp.nodes.NeuralGasNode(num_nodes=8, max_epochs=15)
    ng.train(x[:200])
    for node in (g, ng):
        near, dist = node.nearest_neighbor(c)
        check(max(dist) < 1., "no node near a cluster: %s", dist)
    ctx.nontrivial()
