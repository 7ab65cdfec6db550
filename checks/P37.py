"""Inversion undoes execution: executing the inverse gives the outputs back, for every node that says it is invertible and for
compositions of them; the others refuse."""
import numpy as np
import mdp
import bimdp
from mdp import hinet
from lib.harness import sub, check, close, st, raises
from lib.nodetab import TAB, NAMES
from lib import gen
from lib.gen import seeds, rs, reseed

N = mdp.nodes

# execute is the identity, or ends in a fixed point of itself: everything in its range is its own inverse
ITER = ('NIPALSNode',)
USE = [n for n in NAMES if n not in ('EtaComputerNode', 'HitParadeNode')]
# filters that become orthogonal only in the limit; an approximate (linear) inverse
APPROX = ('CCIPCANode', 'CCIPCAWhiteningNode', 'MCANode', 'iGSFANode')
# accept the first components alone
FIRST = ('PCANode', 'WhiteningNode', 'NIPALSNode')
NUMBER = FIRST + ('CCIPCANode', 'CCIPCAWhiteningNode', 'MCANode')


def trained(e, cfg, f32=False):
    nd = cfg.new(dtype='f') if f32 else cfg.new()
    reseed(5)
    if e.trainable:
        x = cfg.data(e.n, 0)
        if e.online:
            nd.train(x)
        else:
            e.train(nd, cfg, x)
    return nd


def tol_of(e, f32):
    if f32:
        return 5e-3
    return max(1e-7, e.tol)


@sub(st.fixed_dictionaries({'node': st.sampled_from(USE), 'seed': seeds, 'n': st.integers(1, 12), 'f32': st.booleans(),
                            'early': st.booleans(), 'new': st.booleans()}),
     quick=1500, thorough=40000, shards=6, rule="an inverse was computed")
def every_node(case, ctx):
    e = TAB[case['node']]
    cfg = e.cfg(case['seed'])
    f32 = case['f32'] and e.f32 and not e.online and not e.label_outputs
    nd = cfg.new(dtype='f') if f32 else cfg.new()
    inv = nd.is_invertible()
    nd = trained(e, cfg, f32)
    check(nd.is_invertible() == inv, "is_invertible changed to %s by training", not inv)
    x = cfg.data(e.rows(case['n'] + (12 if 'Time' in e.name else 0)), 1 if case['new'] else 0)
    if f32:
        x = x.astype('f')
    y = nd.execute(x, *cfg.eargs(x, 1))
    od = nd.output_dim
    if not inv:
        raises(mdp.IsNotInvertibleException, lambda: nd.inverse(np.array(y, dtype=float).reshape(len(y), -1)), "inverse of a node that is not invertible")
        ctx.label('refused')
        return
    if not isinstance(y, np.ndarray) or y.ndim != 2:
        return
    if e.stochastic or e.stateful and not e.online:
        return
    z = nd.inverse(y.copy())
    check(isinstance(z, np.ndarray) and z.shape == (len(y), nd.input_dim), "the inverse has the shape %s, input_dim %s", np.shape(z), nd.input_dim)
    check(str(z.dtype) == str(nd.dtype), "the inverse has the type %s, node %s", z.dtype, nd.dtype)
    if y.shape[1] != od:
        return
    tol = tol_of(e, f32)
    if e.name not in APPROX:
        y2 = nd.execute(z, *cfg.eargs(z, 1))
        close(y2, y, tol, "executing the inverse does not give the outputs", scale=1 + np.abs(y).max())
        z2 = nd.inverse(y2)
        close(z2, z, tol * 10, "the reconstruction is no projection", scale=1 + np.abs(z).max())
    # every row by itself
    if len(y) > 1:
        i = case['seed'] % len(y)
        close(nd.inverse(y[i:i + 1]), z[i:i + 1], tol, "the inverse of a single row differs", scale=1 + np.abs(z).max())
    raises(mdp.NodeException, lambda: nd.inverse(np.zeros((2, od + 1), y.dtype)), "inverse of data with too many columns")
    if e.name in NUMBER:
        for k in range(1, od + 1):
            w = nd.inverse(np.concatenate([y[:, :k], 0 * y[:, k:]], axis=1))
            if e.name in FIRST:
                close(nd.inverse(y[:, :k]), w, tol, "inverse of the first %d components" % k, scale=1 + np.abs(w).max())
            close(nd.inverse(y, k), w, tol, "inverse with n=%d" % k, scale=1 + np.abs(w).max())
    elif od > 1:
        raises(mdp.NodeException, lambda: nd.inverse(np.zeros((2, od - 1), y.dtype)), "inverse of data with too few columns")
    ctx.nontrivial()
    ctx.label(case['node'])


# ------------------------------------------------------------------ linear nodes: arbitrary values of the outputs
def lin(kind, rng, d, od):
    """A linear node and its training (x -> trained node)."""
    if kind == 'pca':
        return N.PCANode(output_dim=od)
    if kind == 'pcasvd':
        return N.PCANode(output_dim=od, svd=True)
    if kind == 'white':
        return N.WhiteningNode(output_dim=od)
    if kind == 'nipals':
        return N.NIPALSNode(output_dim=od, conv=1e-12, max_it=20000)
    if kind == 'sfa':
        return N.SFANode(output_dim=od)
    if kind == 'vsfa':
        return N.VartimeSFANode(output_dim=od)
    if kind == 'cubica':
        return N.CuBICANode(**({'white_comp': od} if od < d else {}))
    if kind == 'jade':
        return N.JADENode(**({'white_comp': od} if od < d else {}))
    if kind == 'tdsep':
        return N.TDSEPNode(lags=2, **({'white_comp': od} if od < d else {}))
    if kind == 'fica':
        return N.FastICANode(approach='symm', g='tanh', **({'white_comp': od} if od < d else {}))
    if kind == 'norm':
        return N.NormalizeNode()
    if kind == 'identity':
        return N.IdentityNode()
    if kind == 'online_center':
        return N.OnlineCenteringNode()
    raise ValueError(kind)


KINDS = ['pca', 'pcasvd', 'white', 'nipals', 'sfa', 'vsfa', 'cubica', 'jade', 'tdsep', 'norm', 'identity', 'online_center', 'fica']
LOSSY = ['pca', 'pcasvd', 'white', 'nipals', 'sfa', 'vsfa', 'cubica', 'jade', 'tdsep', 'fica']


def data(rng, n, d):
    """Non-gaussian, coloured, well conditioned."""
    e = rng.uniform(-1, 1, size=(n, d)) ** 3 + 0.3 * rng.uniform(-1, 1, size=(n, d))
    for t in range(1, n):
        e[t] += e[t - 1] * np.linspace(0.2, 0.9, d)
    e = (e - e.mean(axis=0)) / e.std(axis=0)
    return e.dot(gen.rot(rng, d) * np.linspace(1, 2, d)).dot(gen.rot(rng, d)) + rng.normal(size=d) * 2


def fit(node, x):
    reseed(7)
    if node.is_trainable():
        node.train(x)
        if node.is_training() and not isinstance(node, mdp.OnlineNode):
            node.stop_training()
    return node


@sub(st.fixed_dictionaries({'seed': seeds, 'kind': st.sampled_from(KINDS), 'd': st.integers(2, 6), 'cut': st.integers(0, 3), 'n': st.integers(1, 9),
                            'scale': st.sampled_from([1., 1e-3, 1e3])}),
     quick=700, thorough=20000, shards=3, timeout=120, rule="every case")
def linear(case, ctx):
    """Any vector of the output space is reached: execute(inverse(y)) == y; with all components inverse(execute(x)) == x."""
    rng = rs(case['seed'], 1)
    d = case['d']
    od = max(1, d - case['cut']) if case['kind'] in LOSSY else d
    x = data(rng, 400, d)
    try:
        node = fit(lin(case['kind'], rng, d, od), x)
        node.execute(x[:1])
    except mdp.NodeException as e:
        if 'onverge' in str(e):
            return
        raise
    y = rng.normal(size=(case['n'], od)) * case['scale']
    z = node.inverse(y)
    check(z.shape == (case['n'], d), "shape of the inverse %s", z.shape)
    close(node.execute(z), y, 1e-7, "executing the inverse of arbitrary outputs", scale=1 + np.abs(y).max())
    q = x[:7] + rng.normal(size=(7, d)) * case['scale']
    r = node.inverse(node.execute(q))
    if od == d:
        close(r, q, 1e-7, "inverting the outputs", scale=1 + np.abs(q).max())
    # the inverse is an affine map
    a, b = rng.normal(size=2)
    y1, y2 = rng.normal(size=(2, 3, od))
    o = node.inverse(np.zeros((3, od)))
    close(node.inverse(a * y1 + b * y2) - o, a * (node.inverse(y1) - o) + b * (node.inverse(y2) - o), 1e-7, "the inverse is not affine",
          scale=1 + np.abs(o).max() * (1 + abs(a) + abs(b)))
    # reconstruction with fewer components loses, but never adds
    if case['kind'] in ('pca', 'pcasvd'):
        c = x - x.mean(axis=0)
        rec = node.inverse(node.execute(x)) - x.mean(axis=0)
        close(((c - rec) * rec).sum(axis=0).sum(), 0., 1e-7, "the reconstruction error is not orthogonal", scale=(c ** 2).sum())
        for k in range(1, od + 1):
            close(node.inverse(y, k) if k < od else z, node.inverse(np.concatenate([y[:, :k], np.zeros((len(y), od - k))], axis=1)), 1e-9,
                  "inverse with the first components", scale=1 + np.abs(y).max() * 10)
    ctx.nontrivial()
    ctx.label(case['kind'])


# ------------------------------------------------------------------ compositions
def compose(rng, d, depth):
    """A random invertible composition for d inputs: (untrained object, output dimension)."""
    kinds = ['node', 'node']
    if depth > 0:
        kinds += ['flownode', 'flownode']
        if d > 1:
            kinds += ['layer', 'layer']
        if d > 3 and d % 2 == 0:
            kinds += ['clone']
    kinds += ['perm']
    k = kinds[rng.randint(len(kinds))]
    if k == 'node':
        kind = ['pca', 'pcasvd', 'white', 'norm', 'identity', 'sfa', 'vsfa', 'cubica'][rng.randint(8 if d > 1 else 5)]
        od = rng.randint(max(1, d - 1), d + 1) if kind in LOSSY else d
        node = lin(kind, rng, d, od)
        node.input_dim = d
        if kind == 'cubica':
            node.output_dim = od
        return node, od if kind in LOSSY else d
    if k == 'perm':
        return hinet.Switchboard(d, rng.permutation(d)), d
    if k == 'flownode':
        ns = []
        for i in range(rng.randint(1, 4)):
            nd, d = compose(rng, d, depth - 1)
            ns.append(nd)
        return hinet.FlowNode(mdp.Flow(ns)), d
    if k == 'clone':
        nd, od = compose(rng, d // 2, 0)
        return hinet.CloneLayer(nd, 2), 2 * od
    a = rng.randint(1, d)
    ns = [compose(rng, m, depth - 1) for m in (a, d - a)]
    return hinet.Layer([q for q, _ in ns]), sum(o for _, o in ns)


@sub(st.fixed_dictionaries({'seed': seeds, 'd': st.integers(2, 7), 'len': st.integers(1, 4), 'bi': st.booleans(), 'bad': st.sampled_from([False, False, False, True])}),
     quick=600, thorough=20000, shards=4, timeout=120, rule="more than one node")
def compositions(case, ctx):
    """Flows of nodes, layers, flow nodes and switchboards."""
    rng = rs(case['seed'], 2)
    d = case['d']
    ns = []
    o = d
    for i in range(case['len']):
        q, o = compose(rng, o, 2)
        ns.append(q)
    if case['bad']:
        i = rng.randint(len(ns) + 1)
        dd = ns[i].input_dim if i < len(ns) else o
        ns.insert(i, [lambda: hinet.SameInputLayer([N.IdentityNode(input_dim=dd)]), lambda: N.CutoffNode(-1e9, 1e9, input_dim=dd),
                      lambda: hinet.Layer([N.CutoffNode(-1e9, 1e9, input_dim=dd)])][rng.randint(3)]())
    flow = (bimdp.BiFlow if case['bi'] else mdp.Flow)(ns)
    x = data(rng, 500, d)
    reseed(7)
    try:
        flow.train(x)
        y = flow.execute(x)
        y = y[0] if isinstance(y, tuple) else y
    except (mdp.NodeException, mdp.FlowException) as e:
        if 'onverge' in str(e) or 'negative eigenvalue' in str(e) or 'ill' in str(e) or 'ovariance' in str(e):
            ctx.label('degenerate')
            return
        raise
    if case['bi']:
        flow = mdp.Flow(list(flow))
    fi = all(n.is_invertible() for n in flow)
    check(fi != case['bad'], "invertible parts: %s", [n.is_invertible() for n in flow])
    if case['bad']:
        raises((mdp.IsNotInvertibleException, mdp.FlowException), lambda: flow.inverse(y), "inverse of a flow with a node that is not invertible")
        ctx.label('refused')
        return
    if np.linalg.cond(np.cov(y.T).reshape(y.shape[1], -1)) > 1e10:
        return
    z = flow.inverse(y)
    check(z.shape == x.shape, "shape of the inverse %s", z.shape)
    sc = 1 + np.abs(y).max()
    y2 = flow.execute(z)
    # reconstructions from fewer components pass through layers whose parts are not reached completely: only the last lossless
    # stretch is exact
    if y.shape[1] == d:
        close(z, x, 1e-6, "inverting the outputs", scale=1 + np.abs(x).max())
    close(y2, y, 1e-6, "executing the inverse does not give the outputs", scale=sc)
    v = rng.normal(size=(5, y.shape[1]))
    close(flow.execute(flow.inverse(v)), v, 1e-6, "executing the inverse of arbitrary outputs", scale=4.)
    # step by step
    w = v
    for n in list(flow)[::-1]:
        w = n.inverse(w)
    close(flow.inverse(v), w, 1e-9, "the inverse of the flow is that of its nodes in reverse order", scale=1 + np.abs(w).max())
    ctx.nontrivial(len(ns) > 1)
    ctx.label(type(ns[0]).__name__)
