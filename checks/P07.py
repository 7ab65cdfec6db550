"""Graph-based SFA: every training mode against explicit summation over its graph (node weights, edge list)."""
import itertools
import numpy as np
import mdp
from mdp.nodes.gsfa_nodes import CovDCovMatrix, graph_delta_values, comp_delta
from lib.harness import sub, check, close, st, raises, Violation
from lib import gen
from lib.gen import seeds, rs


class G(object):
    """Explicit training graph over stacked samples."""
    def __init__(self, x, v, E):
        # E: dict (i, j) -> weight
        self.x, self.v, self.E = np.asarray(x, 'd'), np.asarray(v, 'd'), E

    def sums(self):
        x, v = self.x, self.v
        i = np.array([k[0] for k in self.E], dtype=int)
        j = np.array([k[1] for k in self.E], dtype=int)
        w = np.array(list(self.E.values()), dtype=float)
        if len(w):
            diff = x[j] - x[i]
            D = (diff * w[:, None]).T.dot(diff)
        else:
            D = np.zeros((x.shape[1],) * 2)
        return v.dot(x), (x * v[:, None]).T.dot(x), v.sum(), D, w.sum()


def put(E, i, j, w):
    E[(i, j)] = E.get((i, j), 0.) + w


def complete(E, idx, total, loops=True):
    """All ordered pairs; total weight = total."""
    idx = list(idx)
    n = len(idx)
    if loops:
        w = total / float(n * n)
        for i in idx:
            for j in idx:
                put(E, i, j, w)
    else:
        w = total / float(n * (n - 1))
        for i in idx:
            for j in idx:
                if i != j:
                    put(E, i, j, w)


def regular(n):
    return np.ones(n), {(i, i + 1): 1. for i in range(n - 1)}


def clustered(sizes, weight=1., order=None):
    n = sum(sizes)
    order = list(range(n)) if order is None else order
    E = {}
    k = 0
    for s in sizes:
        complete(E, [order[q] for q in range(k, k + s)], weight * s)
        k += s
    return np.ones(n) * weight, E


def serial(n, bs, weight=1., order=None):
    order = list(range(n)) if order is None else order
    nb = n // bs
    v = np.zeros(n)
    E = {}
    for b in range(nb):
        for q in order[b * bs:(b + 1) * bs]:
            v[q] = 1. if b in (0, nb - 1) else 2.
    for b in range(nb - 1):
        for i in order[b * bs:(b + 1) * bs]:
            for j in order[(b + 1) * bs:(b + 2) * bs]:
                put(E, i, j, weight / bs)
                put(E, j, i, weight / bs)
    return v * weight, E


def mixed(n, bs):
    v, E = serial(n, bs)
    nb = n // bs
    for b in range(nb):
        w = 2. if b in (0, nb - 1) else 1.
        idx = list(range(b * bs, (b + 1) * bs))
        complete(E, idx, w * bs)
        v[idx] += w
    return v, E


def window(n, w, both=False):
    v = np.ones(n)
    E = {}
    for i in range(n):
        deg = 0
        for j in range(max(0, i - w), min(n, i + w + 1)):
            if j == i:
                continue
            deg += 1
            if j > i or both:
                put(E, i, j, 1.)
        v[i] = deg / (2. * w)
    return v, E


def mirror(n, w):
    E = {}
    for i in range(n):
        for o in range(-w, w + 1):
            if o == 0:
                continue
            j = i + o
            if j < 0:
                j = -1 - j
            elif j >= n:
                j = 2 * n - 1 - j
            put(E, i, j, 1.)
    return np.ones(n), E


def compact(n, bs, J, extra):
    nc = n // bs
    cls = np.arange(n) // bs
    bits = [(cls >> (J - 1 - j)) & 1 for j in range(J)]
    weights = [1.] * J
    labs = list(bits)
    if extra:
        labs.append(sum(bits) % 2)
        weights = [1.] * (J - 1) + [1., 0.5]
    tot = sum(weights)
    v = np.zeros(n)
    E = {}
    for lab, w in zip(labs, weights):
        for val in (0, 1):
            idx = np.nonzero(lab == val)[0].tolist()
            complete(E, idx, w / tot * len(idx))
            v[idx] += w / tot
    return v, E


def reference(graphs):
    S = [g.sums() for g in graphs]
    sx = sum(s[0] for s in S)
    sp = sum(s[1] for s in S)
    q = sum(s[2] for s in S)
    D = sum(s[3] for s in S)
    r = sum(s[4] for s in S)
    m = sx / q
    return sp / q - np.outer(m, m), m, D / r, q, r


def gen_eig(A, B):
    w, u = np.linalg.eigh(B)
    S = u / np.sqrt(w)
    e, v = np.linalg.eigh(S.T.dot(A).dot(S))
    return e


MODES = ['regular', 'clustered', 'clusteredv', 'serial', 'mixed', 'window', 'fwindow', 'mirror_window',
         'smirror_window', 'classification', 'serial_regression', 'graph_dict', 'graph_array', 'graph_old',
         'compact', 'unlabeled', 'ignore_data']
PIECE = st.fixed_dictionaries({'mode': st.sampled_from(MODES), 'bs': st.integers(2, 5), 'nb': st.integers(2, 6),
                               'w': st.one_of(*([st.integers(1, 5)] * 6 + [st.sampled_from([8, 13])])), 'r': st.integers(0, 10 ** 6), 'n': st.one_of(*([st.integers(3, 14)] * 6 + [st.sampled_from([30, 60])])),
                               'as_list': st.booleans(), 'cons': st.booleans()})


def piece(p, d, seed, k):
    """-> data, train kwargs, list of graphs."""
    rng = rs(seed, k, p['r'])
    m, bs, nb, w = p['mode'], p['bs'], p['nb'], p['w']
    n = bs * nb
    sizes = None
    if m == 'clusteredv':
        sizes = [int(rng.randint(1, 6)) for _ in range(nb)]
        n = sum(sizes)
    elif 'window' in m:
        n = 2 * w + p['n']
    elif m == 'compact':
        J = 1 + p['nb'] % 3
        n = bs * 2 ** J
    elif m in ('regular', 'graph_dict', 'graph_array', 'graph_old', 'unlabeled', 'classification'):
        n = p['n']
    x = rng.normal(size=(n, d)).dot(gen.rot(rng, d)) + rng.normal(size=d)
    x[:, 0] += np.arange(n) * 0.3
    kw = {}
    if m == 'regular':
        kw['train_mode'] = 'regular'
        g = regular(n)
    elif m == 'clustered':
        kw = dict(train_mode='clustered', block_size=bs)
        g = clustered([bs] * nb)
    elif m == 'clusteredv':
        kw = dict(train_mode='clustered', block_size=sizes if p['as_list'] else np.array(sizes))
        g = clustered(sizes)
    elif m == 'serial':
        kw = dict(train_mode='serial', block_size=[bs] * nb if p['as_list'] else bs)
        g = serial(n, bs)
    elif m == 'mixed':
        kw = dict(train_mode='mixed', block_size=bs)
        g = mixed(n, bs)
    elif m == 'window':
        kw['train_mode'] = 'window%d' % w
        g = window(n, w)
    elif m == 'fwindow':
        kw['train_mode'] = 'fwindow%d' % w
        g = window(n, w, both=True)
    elif m in ('mirror_window', 'smirror_window'):
        kw['train_mode'] = '%s%d' % (m, w)
        g = mirror(n, w)
    elif m == 'classification':
        labels = rng.randint(0, 3, size=n)
        wt = [1., 0.5, 2.][p['r'] % 3]
        kw['train_mode'] = ('classification', labels, wt)
        E = {}
        for c in set(labels.tolist()):
            idx = np.nonzero(labels == c)[0].tolist()
            complete(E, idx, wt * len(idx))
        g = (np.ones(n) * wt, E)
    elif m == 'serial_regression':
        labels = rng.permutation(n) * 1.5 - 3
        wt = [1., 0.5, 2.][p['r'] % 3]
        kw['train_mode'] = ('serial_regression%d' % bs, labels, wt)
        g = serial(n, bs, wt, order=np.argsort(labels).tolist())
    elif m.startswith('graph'):
        W = rng.rand(n, n) * (rng.rand(n, n) < 0.6)
        if p['cons'] or p['r'] % 2:
            W = W + W.T
        W[0, 1] = W[1, 0] = 1.
        np.fill_diagonal(W, 0)
        v = W.sum(axis=1) if p['cons'] else 0.2 + rng.rand(n)
        E = {(i, j): W[i, j] for i in range(n) for j in range(n) if W[i, j]}
        if m == 'graph_dict':
            kw = dict(train_mode='graph', node_weights=v, edge_weights=dict(E))
        elif m == 'graph_array':
            kw = dict(train_mode='graph', node_weights=v, edge_weights=W.copy())
        else:
            kw = dict(train_mode='graph_old', node_weights=v,
                      edge_weights=W.copy() if p['as_list'] else dict(E))
        g = (v, E)
    elif m == 'compact':
        extra = int(J >= 2 and p['as_list'])
        kw = dict(train_mode='compact_classes%d' % (J + extra), block_size=bs if p['cons'] else [bs] * (n // bs))
        g = compact(n, bs, J, extra)
    elif m == 'unlabeled':
        kw['train_mode'] = 'unlabeled'
        g = (np.ones(n), {})
    else:
        kw['train_mode'] = 'ignore_data'
        return x, kw, []
    return x, kw, [G(x, *g)]


def run(node, pieces, d, seed):
    graphs = []
    xs = []
    for k, p in enumerate(pieces):
        x, kw, g = piece(p, d, seed, k)
        node.train(x, **kw)
        graphs += g
        xs.append(x)
    return graphs, np.concatenate(xs)


@sub(st.fixed_dictionaries({'seed': seeds, 'd': st.integers(1, 4), 'od': st.one_of(st.none(), st.integers(1, 4)),
                            'pieces': st.lists(PIECE, min_size=1, max_size=3)}),
     quick=4000, thorough=80000, shards=6, rule="node and edge sums over an explicit graph with at least two edges")
def graphs(case, ctx):
    d = case['d']
    od = case['od'] if case['od'] is None or case['od'] <= d else None
    node = mdp.nodes.GSFANode(output_dim=od)
    gs, x = run(node, case['pieces'], d, case['seed'])
    if not gs or not any(g.E for g in gs):
        return
    C, m, D, q, r = reference(gs)
    wc = np.linalg.eigvalsh(C)
    if wc[0] < 1e-3 * wc[-1]:
        return
    e = gen_eig(D, C)
    if e[0] < 1e-6 * max(e[-1], 1e-3):
        return
    node.stop_training()
    k = od or d
    dd = np.ravel(node.d)
    check(dd.shape == (k,) and node.output_dim == k, "%s delta values, output_dim %s", dd.shape, node.output_dim)
    close(np.ravel(node.avg), m, 1e-8, "weighted mean", scale=1 + np.abs(x).max())
    close(dd, e[:k], 1e-6, "delta values", scale=e[-1])
    sf = node.sf
    close(sf.T.dot(C).dot(sf), np.eye(k), 1e-6, "weighted covariance of the features")
    close(sf.T.dot(D).dot(sf), np.diag(dd), 1e-6, "weighted squared differences along edges", scale=e[-1])
    y = node.execute(x)
    close(y, (x - m).dot(sf), 1e-8, "execution", scale=1 + np.abs(y).max())
    if k == d:
        close(node.inverse(y), x, 1e-7, "inverse with all components", scale=1 + np.abs(x).max())
    n1 = 1 + case['seed'] % k
    close(node.execute(x, n1), y[:, :n1], 1e-12, "first n features", scale=1 + np.abs(y).max())
    for p in case['pieces']:
        ctx.label(p['mode'])
    ctx.nontrivial(sum(len(g.E) for g in gs) > 1)


@sub(st.fixed_dictionaries({'seed': seeds, 'd': st.integers(1, 3), 'modes': st.lists(
        st.sampled_from(['regular', 'clustered', 'serial', 'mixed', 'window2', 'mirror_window1', 'unlabeled', 'cls', 'reg',
                         'compact_classes2']),
        min_size=1, max_size=4), 'bs': st.integers(2, 4), 'ctor': st.booleans()}),
     quick=800, thorough=16000, shards=2, rule="list of at least two modes applied to the same chunk")
def mode_list(case, ctx):
    rng = rs(case['seed'], 3)
    d, bs = case['d'], case['bs']
    n = bs * 4
    x = rng.normal(size=(n, d))
    x[:, 0] += np.arange(n) * 0.3
    modes, gs = [], []
    for m in case['modes']:
        if m == 'cls':
            labels = rng.randint(0, 3, size=n)
            modes.append(('classification', labels, 2.))
            E = {}
            for c in set(labels.tolist()):
                idx = np.nonzero(labels == c)[0].tolist()
                complete(E, idx, 2. * len(idx))
            gs.append(G(x, np.ones(n) * 2., E))
        elif m == 'reg':
            labels = rng.permutation(n)
            b2 = 2 * bs
            modes.append(('serial_regression%d' % b2, labels, 1.5))
            gs.append(G(x, *serial(n, b2, 1.5, order=np.argsort(labels).tolist())))
        else:
            modes.append(m)
            g = {'regular': lambda: regular(n), 'clustered': lambda: clustered([bs] * 4),
                 'serial': lambda: serial(n, bs), 'mixed': lambda: mixed(n, bs), 'window2': lambda: window(n, 2),
                 'mirror_window1': lambda: mirror(n, 1), 'unlabeled': lambda: (np.ones(n), {}),
                 'compact_classes2': lambda: compact(n, bs, 2, 0)}[m]()
            gs.append(G(x, *g))
    if not any(g.E for g in gs):
        return
    C, m, D, q, r = reference(gs)
    wc = np.linalg.eigvalsh(C)
    if wc[0] < 1e-3 * wc[-1]:
        return
    e = gen_eig(D, C)
    if e[0] < 1e-6 * max(e[-1], 1e-3):
        return
    if case['ctor']:
        node = mdp.nodes.GSFANode(block_size=bs, train_mode=modes)
        node.train(x)
    else:
        node = mdp.nodes.GSFANode()
        node.train(x, block_size=bs, train_mode=modes)
    node.stop_training()
    close(np.ravel(node.avg), m, 1e-8, "weighted mean", scale=1 + np.abs(x).max())
    close(np.ravel(node.d), e, 1e-6, "delta values", scale=e[-1])
    sf = node.sf
    close(sf.T.dot(C).dot(sf), np.eye(d), 1e-6, "weighted covariance of the features")
    close(sf.T.dot(D).dot(sf), np.diag(e), 1e-6, "weighted squared differences along edges", scale=e[-1])
    ctx.nontrivial(len(modes) > 1)


@sub(st.fixed_dictionaries({'seed': seeds, 'd': st.integers(1, 4), 'n': st.one_of(*([st.integers(3, 20)] * 6 + [st.sampled_from([40, 70])])), 'w': st.one_of(*([st.integers(1, 4)] * 6 + [st.sampled_from([8])])),
                            'bs': st.integers(2, 5), 'nb': st.integers(2, 5), 'weight': st.sampled_from([1., 0.5, 3.]),
                            'what': st.sampled_from(['regular', 'clustered', 'noloop', 'serial', 'window', 'fwindow',
                                                     'truncating', 'mirror', 'smirror', 'graph', 'unlabeled']),
                            'merge': st.booleans(), 'own': st.sampled_from([1., 0.5]), 'add': st.sampled_from([1., 2.])}),
     quick=1500, thorough=30000, shards=2, rule="accumulated matrices compared with sums over an explicit graph")
def matrices(case, ctx):
    rng = rs(case['seed'], 4)
    d, w, bs, wt = case['d'], case['w'], case['bs'], case['weight']
    what = case['what']
    n = bs * case['nb'] if what in ('clustered', 'noloop', 'serial') else 2 * w + case['n']
    x = rng.normal(size=(n, d)) + rng.normal(size=d)
    m = CovDCovMatrix()
    if what == 'regular':
        m.update_regular(x, weight=wt)
        g = regular(n)
    elif what == 'clustered':
        m.update_clustered(x, block_sizes=bs, weight=wt)
        g = clustered([bs] * case['nb'])
    elif what == 'noloop':
        m.update_clustered(x, block_sizes=[bs] * case['nb'], weight=wt, include_self_loops=False)
        E = {}
        for b in range(case['nb']):
            complete(E, range(b * bs, (b + 1) * bs), bs, loops=False)
        g = (np.ones(n), E)
    elif what == 'serial':
        m.update_serial(x, block_size=bs, weight=wt)
        g = serial(n, bs)
    elif what == 'window':
        m.update_sliding_window(x, weight=wt, window_halfwidth=w)
        g = window(n, w)
    elif what == 'fwindow':
        m.update_fast_sliding_window(x, weight=wt, window_halfwidth=w)
        g = window(n, w, both=True)
    elif what == 'truncating':
        m.update_slow_truncating_sliding_window(x, weight=wt, window_halfwidth=w)
        g = (np.ones(n), window(n, w, both=True)[1])
    elif what == 'mirror':
        m.update_mirroring_sliding_window(x, weight=wt, window_halfwidth=w)
        g = mirror(n, w)
    elif what == 'smirror':
        m.update_slow_mirroring_sliding_window(x, weight=wt, window_halfwidth=w)
        g = mirror(n, w)
    elif what == 'graph':
        W = rng.rand(n, n)
        W = W + W.T
        v = 0.5 + rng.rand(n)
        if case['seed'] % 3 == 0:
            # (single negative weights, as for repelled samples)
            W[rng.rand(n, n) < 0.1] *= -0.1
        if case['seed'] % 2:
            m.update_graph(x, node_weights=v, edge_weights=W, weight=wt)
        else:
            m.update_graph_old(x, node_weights=v, edge_weights=W, weight=wt)
        g = (v, {(i, j): W[i, j] for i in range(n) for j in range(n)})
    else:
        m.update_unlabeled(x, weight=wt)
        m.update_regular(x, weight=1.)
        g = (np.ones(n) * (wt + 1.), regular(n)[1])
        wt = 1.
    gs = [G(x, np.asarray(g[0]) * wt, {k: u * wt for k, u in g[1].items()})]
    if case['merge']:
        x2 = rng.normal(size=(6, d)) * 2
        o = CovDCovMatrix()
        o.update_regular(x2)
        a, b = case['own'], case['add']
        m.add_cov_dcov_matrix(o, adding_weight=b, own_weight=a)
        gs[0].v = gs[0].v * a
        gs[0].E = {k: u * a for k, u in gs[0].E.items()}
        v2, E2 = regular(6)
        gs.append(G(x2, v2 * b, {k: u * b for k, u in E2.items()}))
    C, avg, D, q, r = reference(gs)
    cov, mean, dcov = m.fix()
    sc = 1 + np.abs(x).max() ** 2
    close(mean, avg, 1e-9, "weighted mean", scale=sc)
    close(cov, C, 1e-9, "sample covariance", scale=sc)
    close(dcov, D, 1e-9, "second moments of the differences", scale=sc * max(1., n * 0.1))
    ctx.label(what)
    ctx.nontrivial(len(gs[0].E) > 1)


@sub(st.fixed_dictionaries({'seed': seeds, 'd': st.integers(1, 4), 'n': st.integers(2, 15)}),
     quick=200, thorough=4000, rule="delta values of a graph with several edges")
def delta_helpers(case, ctx):
    rng = rs(case['seed'], 5)
    n, d = case['n'], case['d']
    y = rng.normal(size=(n, d))
    E = {(int(rng.randint(n)), int(rng.randint(n))): float(rng.rand() + 0.1) for _ in range(2 * n)}
    num = sum(w * (y[j] - y[i]) ** 2 for (i, j), w in E.items())
    close(graph_delta_values(y, E), num / sum(E.values()), 1e-10, "graph delta values", scale=1 + np.abs(y).max() ** 2)
    close(comp_delta(y), ((y[1:] - y[:-1]) ** 2).mean(axis=0), 1e-12, "delta values")
    ctx.nontrivial(len(E) > 1)


BAD = ['noblock_serial', 'noblock_cl', 'indivisible', 'sizes', 'unequal', 'wide', 'nodew', 'edgeshape', 'noedges',
       'unknown', 'badtuple', 'pow2']


@sub(st.fixed_dictionaries({'seed': seeds, 'bad': st.sampled_from(BAD), 'd': st.integers(1, 3)}),
     quick=150, thorough=2000, rule="graph requests that do not fit the data are refused")
def refused(case, ctx):
    rng = rs(case['seed'], 6)
    x = rng.normal(size=(12, case['d']))
    b = case['bad']
    kw = {'noblock_serial': dict(train_mode='serial'), 'noblock_cl': dict(train_mode='clustered'),
          'indivisible': dict(train_mode='serial', block_size=5),
          'sizes': dict(train_mode='clustered', block_size=[5, 5]),
          'unequal': dict(train_mode='serial', block_size=[4, 5, 3]),
          'wide': dict(train_mode=['window6', 'fwindow7', 'mirror_window6'][case['seed'] % 3]),
          'nodew': dict(train_mode='graph', node_weights=np.ones(5), edge_weights={(0, 1): 1.}),
          'edgeshape': dict(train_mode='graph', node_weights=np.ones(12), edge_weights=np.ones((3, 3))),
          'noedges': dict(train_mode='graph', node_weights=np.ones(12)),
          'unknown': dict(train_mode='nonsense'), 'badtuple': dict(train_mode=('nonsense', np.arange(12), 1.)),
          'pow2': dict(train_mode='compact_classes2', block_size=4)}[b]
    node = mdp.nodes.GSFANode()
    raises((mdp.MDPException, ValueError), lambda: node.train(x, **kw), "mode %s" % b)
    ctx.label(b)
    ctx.nontrivial()


# ---------------------------------------------------------------- information preserving variant

def ident(x):
    return x


def quad(x):
    return x ** 2


def cross(x):
    return x[:, :1] * x


@sub(st.fixed_dictionaries({
    'seed': seeds, 'd': st.integers(2, 5), 'n': st.integers(20, 60), 'od': st.one_of(st.none(), st.integers(1, 7)),
    'scaling': st.sampled_from([None, 'data_dependent', 'QR_decomposition', 'sensitivity_based']),
    'rec': st.booleans(), 'delta': st.one_of(st.integers(1, 5), st.sampled_from([0.05, 0.5, 1.0, 1.999, 5.0])),
    'maxlen': st.one_of(st.none(), st.integers(1, 5)), 'exp': st.sampled_from(['none', 'none', 'quad', 'all']),
    'mode': st.sampled_from(['regular', 'serial', 'clustered']), 'nch': st.integers(1, 3)}),
     quick=1500, thorough=30000, shards=3, rule="both a slow part and a residual part, or an exact reconstruction")
def preserving(case, ctx):
    rng = rs(case['seed'], 7)
    d = case['d']
    bs = 5
    n = (case['n'] // bs) * bs + 40
    x = gen.slow(rng, n, d, noise=0.3)
    funcs = {'none': None, 'quad': [ident, quad], 'all': [ident, quad, cross]}[case['exp']]
    if case['exp'] == 'all':
        funcs = [ident, quad]
    od = case['od'] if case['od'] is not None else d
    rec, scal = case['rec'], case['scaling']
    kw = {}
    if funcs:
        kw['expansion_funcs'] = funcs
    node = mdp.nodes.iGSFANode(output_dim=case['od'], reconstruct_with_sfa=rec, slow_feature_scaling_method=scal,
                               delta_threshold=case['delta'], max_length_slow_part=case['maxlen'], **kw)
    tkw = dict(train_mode=case['mode'])
    if case['mode'] != 'regular':
        tkw['block_size'] = bs
    multi = not rec and scal in (None, 'data_dependent')
    if not rec and not multi:
        raises(mdp.TrainingException, lambda: node.train(x, **tkw), "unsupported scaling without reconstruction")
        return
    exp = (lambda z: np.concatenate([z, z ** 2], axis=1)) if funcs else ident
    mean = x.mean(axis=0) if rec else np.zeros(d)
    z = x - mean
    ex = exp(z)
    D = ex.shape[1]
    limit = min(D, od) if case['maxlen'] is None else min(case['maxlen'], D, od)
    delta = case['delta']
    if isinstance(delta, int):
        bad = delta > od or (case['maxlen'] is not None and delta > case['maxlen']) or delta > D
    else:
        bad = False
    C = np.atleast_2d(np.cov(ex.T, bias=True))
    w = np.linalg.eigvalsh(C)
    if w[0] < 1e-4 * w[-1]:
        return

    def train():
        sizes = [n]
        if multi and case['nch'] > 1:
            a = (n // bs // 2) * bs
            sizes = [a, n - a]
        for ch in gen.split(x, sizes):
            node.train(ch, **tkw)
        if multi:
            check(node.is_training(), "training must stay open for more data")
            node.stop_training()
        check(not node.is_training(), "training must be closed")
        return sizes

    if bad:
        raises((mdp.MDPException, ValueError), train, "slow part larger than allowed")
        return
    # reference for the slow part
    ref = mdp.nodes.GSFANode(output_dim=limit if not isinstance(delta, int) else max(1, min(limit, delta)))
    sizes = [n] if not (multi and case['nch'] > 1) else [(n // bs // 2) * bs, n - (n // bs // 2) * bs]
    for ch in gen.split(ex, sizes):
        ref.train(ch, **tkw)
    ref.stop_training()
    k = delta if isinstance(delta, int) else int((ref.d <= delta).sum())
    if not isinstance(delta, int) and np.any(np.abs(ref.d - delta) < 1e-6):
        return
    rank_left = d
    if rec:
        sl = ref.execute(ex)[:, :k]
        design0 = np.concatenate([np.ones((n, 1)), sl], axis=1)
        left = z - design0.dot(np.linalg.lstsq(design0, z, rcond=None)[0])
        sv = np.linalg.svd(left, compute_uv=False)
        rank_left = int((sv > 1e-4 * np.linalg.norm(z)).sum())
    if od - k > rank_left or (scal == 'QR_decomposition' and k > d):
        # more features asked for than the data can give: nothing is specified
        try:
            train()
        except Exception:
            return
        return
    if k == 0 and rec:
        # no slow feature left: nothing is specified
        return
    train()
    y = node.execute(x)
    check(y.shape == (n, od) and node.output_dim == od, "output shape %s for output_dim %s", y.shape, od)
    slow = ref.execute(ex)[:, :k]
    if rec:
        slow = (slow - slow.mean(axis=0)) / slow.std(axis=0)
        design = np.concatenate([np.ones((n, 1)), slow], axis=1)
        beta = np.linalg.lstsq(design, z, rcond=None)[0]
        resid = z - design.dot(beta)
    else:
        beta = None
        resid = z
    c = np.atleast_2d(np.cov(resid.T))
    ew, ev = np.linalg.eigh(c)
    ew, ev = ew[::-1], ev[:, ::-1]
    r = od - k
    # slow part
    ys = y[:, :k]
    if scal is None:
        want = slow
    elif scal == 'data_dependent':
        if r > 0:
            want = slow * np.median(ew[:r]) ** 0.5
        else:
            want = slow
    elif scal == 'sensitivity_based':
        want = slow * np.sqrt((beta[1:] ** 2).sum(axis=1))
    else:
        want = None
    gap = np.min(np.abs(np.diff(ref.d))) if len(ref.d) > 1 else 1.
    if want is not None and k:
        if gap > 1e-3:
            close(gen.sign_align(ys, want), want, 1e-5, "slow part", scale=1 + np.abs(want).max())
    elif k:
        # rotation: same contribution to the input
        M = beta[1:].T
        close(np.linalg.norm(ys, axis=1), np.linalg.norm(slow.dot(M.T), axis=1), 1e-5,
              "QR scaled slow part must keep the length of its contribution", scale=1 + np.abs(z).max())
    # residual part: principal components of what is left
    yr = y[:, k:]
    if r:
        if r < d:
            sep = ew[r - 1] - ew[r] > 1e-4 * max(ew[0], 1e-12)
        else:
            sep = True
        if sep:
            p = ev[:, :r]
            proj = (resid - resid.mean(axis=0)).dot(p)
            close(yr.dot(yr.T), proj.dot(proj.T), 1e-5, "residual part", scale=1 + np.abs(proj).max() ** 2 * 10)
    # linear inverse
    back = node.inverse(y)
    check(back.shape == x.shape, "inverse shape")
    complete_ = (r >= d) or (rec and not funcs and r >= d - k) or (rec and r > 0 and ew[r:].sum() < 1e-12 * ew[0])
    if complete_ and (scal != 'QR_decomposition' or k <= d):
        if scal == 'QR_decomposition' and k:
            sv = np.linalg.svd(beta[1:], compute_uv=False)
            if sv[-1] < 1e-5 * sv[0]:
                return
        close(back, x, 1e-6, "complete reconstruction", scale=1 + np.abs(x).max())
        ctx.label('exact')
        ctx.nontrivial()
    elif rec and r > 0:
        # orthogonal projection of the residual
        p = ev[:, :r]
        if ew[r - 1] - ew[r] > 1e-4 * max(ew[0], 1e-12) and (scal != 'QR_decomposition' or k <= d):
            want = (resid - resid.mean(axis=0)).dot(p).dot(p.T) + resid.mean(axis=0) + design.dot(beta) + mean
            if scal == 'QR_decomposition':
                sv = np.linalg.svd(beta[1:], compute_uv=False)
                if sv[-1] < 1e-5 * sv[0]:
                    return
            close(back, want, 1e-5, "linear inverse", scale=1 + np.abs(x).max())
    ctx.label('%s %s' % (scal, rec))
    ctx.nontrivial(k > 0 and r > 0)
