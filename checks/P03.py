"""Incremental training equals batch training; order of samples is irrelevant where documented."""
import numpy as np
import scipy.linalg
import mdp
from lib.harness import sub, check, close, st
from lib.nodetab import TAB, NAMES
from lib import gen
from lib.gen import seeds, rs, reseed

INC = [n for n in NAMES if TAB[n].trainable and TAB[n].incremental and not TAB[n].online]
FREE = [n for n in NAMES if TAB[n].order_free]


def public_state(nd):
    res = {}
    for k, v in vars(nd).items():
        if k.startswith('_') or callable(v) or k in ('tchunk', 'xlast'):
            continue
        if isinstance(v, np.ndarray) and v.dtype.kind in 'fiu':
            res[k] = v
        elif isinstance(v, (int, float, np.floating, np.integer)) and not isinstance(v, bool):
            res[k] = np.array(float(v))
    return res


def compare(e, cfg, a, b, tol, what, ordered=True):
    for salt in (0, 1):
        q = cfg.data(8, salt)
        reseed(3)
        ya = cfg.outputs(a, q, salt)
        reseed(3)
        yb = cfg.outputs(b, q, salt)
        for u, v in zip(ya, yb):
            if e.sign:
                u = gen.sign_align(u, v)
            close(u, v, tol, "%s: outputs differ" % what)
    if a.is_invertible() and e.invertible and not e.sign:
        y = rs(1).normal(size=(3, a.output_dim))
        close(a.inverse(y), b.inverse(y), tol * 10, "%s: inverses differ" % what)
    check(a.input_dim == b.input_dim and a.output_dim == b.output_dim and str(a.dtype) == str(b.dtype), "dims/dtype differ")
    if ordered:
        sa, sb = public_state(a), public_state(b)
        for k in sa:
            if k in sb and sa[k].dtype.kind == 'f' and np.isfinite(sa[k]).all():
                close(np.abs(sa[k]), np.abs(sb[k]), max(tol, 1e-6), "%s: attribute %s" % (what, k))


def tol_of(e):
    return {'FANode': 1e-4}.get(e.name, max(e.tol, 1e-6))


@sub(st.fixed_dictionaries({'node': st.sampled_from(INC), 'seed': seeds, 'nch': st.one_of(st.integers(2, 6), st.integers(2, 6), st.integers(2, 6), st.integers(7, 60)),
                            'grow': st.one_of(st.integers(0, 25), st.integers(0, 25), st.integers(0, 25), st.sampled_from([60, 130, 300, 700])), 'single': st.booleans()}),
     quick=1500, thorough=30000, shards=6, rule="training data cut in at least two chunks, different cuts per phase")
def chunks_equal_batch(case, ctx):
    e = TAB[case['node']]
    cfg = e.cfg(case['seed'])
    rng = rs(case['seed'], 5)
    n = e.n + case['grow']
    if e.name == 'DiscreteHopfieldClassifier':
        n = e.n
    if n > 150:
        ctx.label('long')
    x = cfg.data(n, 0)
    targs = cfg.targs(x, 0)
    a, b = cfg.new(), cfg.new()
    reseed(1)
    most = 1
    for ph in range(e.phases):
        sizes = gen.cuts(rng, n, case['nch'], e.min_chunk)
        if case['single'] and e.min_chunk == 1 and ph == 0:
            k = rng.randint(1, 4)
            sizes = [1] * k + [n - 2 * k] + [1] * k if n > 2 * k else [1] * n
        most = max(most, len(sizes))
        i = 0
        for s in sizes:
            a.train(x[i:i + s], *[t[i:i + s] for t in targs])
            i += s
        a.stop_training()
    reseed(1)
    e.train(b, cfg, x)
    if e.rng_train and e.name in ('FANode',):
        pass
    compare(e, cfg, a, b, tol_of(e), "chunked/batch")
    ctx.label(e.name)
    ctx.nontrivial(most > 1)


@sub(st.fixed_dictionaries({'node': st.sampled_from(FREE), 'seed': seeds, 'nch': st.integers(1, 4),
                            'perm': st.sampled_from(['shuffle', 'reverse', 'sort'])}),
     quick=700, thorough=15000, shards=3, rule="training samples presented in another order")
def order_irrelevant(case, ctx):
    e = TAB[case['node']]
    cfg = e.cfg(case['seed'])
    rng = rs(case['seed'], 6)
    x = cfg.data(e.n, 0)
    targs = cfg.targs(x, 0)
    p = rng.permutation(len(x))
    if case['perm'] == 'reverse':
        p = np.arange(len(x))[::-1]
    elif case['perm'] == 'sort':
        p = np.argsort(x[:, 0], kind='mergesort')
    a, b = cfg.new(), cfg.new()
    reseed(1)
    e.train(a, cfg, x[p], sizes=gen.cuts(rng, len(x), case['nch']), targs=[t[p] for t in targs])
    reseed(1)
    e.train(b, cfg, x)
    if e.name == 'HistogramNode':
        close(np.sort(a.data_hist, axis=0), np.sort(b.data_hist, axis=0), 0, "collected samples")
        ctx.nontrivial()
        return
    compare(e, cfg, a, b, max(tol_of(e), 1e-6), "permuted/original", ordered=False)
    ctx.label(e.name)
    ctx.nontrivial()


def gev(dcov, cov):
    d, v = scipy.linalg.eigh(dcov, cov)
    return d, v


@sub(st.fixed_dictionaries({'seed': seeds, 'd': st.integers(1, 4), 'nch': st.integers(1, 6),
                            'last': st.sampled_from(['ctor', 'arg', 'default', 'ctor+arg']),
                            'val': st.booleans(), 'overlap': st.booleans(),
                            'kind': st.sampled_from(['sfa', 'sfa2'])}),
     quick=300, thorough=6000, shards=2, rule="several chunks, statistics compared with sums over kept samples and steps")
def sfa_boundaries(case, ctx):
    """A chunk boundary costs exactly the spanning step; samples kept as requested."""
    rng = rs(case['seed'], 8)
    d = case['d'] if case['kind'] == 'sfa' else min(case['d'], 2)
    n = 120
    x = gen.slow(rng, n, d, noise=0.15)
    sizes = gen.cuts(rng, n, case['nch'], 4)
    chunks = gen.split(x, sizes)
    val = case['val']
    if case['overlap']:
        starts = np.cumsum([0] + sizes[:-1])
        chunks = [x[s:s + k + 1] for s, k in zip(starts, sizes)]
    cls = mdp.nodes.SFANode if case['kind'] == 'sfa' else mdp.nodes.SFA2Node
    how = case['last']
    if how == 'default':
        node, kept, args = cls(), True, ()
    elif how == 'ctor':
        node, kept, args = cls(include_last_sample=val), val, ()
    elif how == 'arg':
        node, kept, args = cls(), val, (val,)
    else:
        node, kept, args = cls(include_last_sample=not val), val, (val,)
    for c in chunks:
        node.train(c, *args)
    node.stop_training()
    ex = mdp.nodes.QuadraticExpansionNode()
    f = (lambda c: ex.execute(c)) if case['kind'] == 'sfa2' else (lambda c: c)
    s = np.concatenate([f(c if kept else c[:-1]) for c in chunks])
    dx = np.concatenate([f(c)[1:] - f(c)[:-1] for c in chunks])
    cov = np.cov(s.T, bias=False).reshape(s.shape[1], s.shape[1])
    dcov = dx.T.dot(dx) / (len(dx) - 1.)
    ref, v = gev(dcov, cov)
    if np.linalg.cond(cov) > 1e9:
        return
    ratio = float(np.mean(node.d / ref))
    # the normalisation of the derivative matrix is a common factor close to one
    alt = len(dx) / (len(dx) - 1.)
    check(min(abs(ratio - 1), abs(ratio * alt - 1)) < 1e-6, "slowness values are off by a factor %r", ratio)
    close(node.d / ratio, ref, 1e-7 * max(1., 1 / ref[0]) if ref[0] > 1e-9 else 1e-6, "slowness values", scale=ref.max())
    y = node.execute(x)
    yr = (f(x) - s.mean(axis=0)).dot(v)
    close(gen.sign_align(y, yr), yr, 1e-5, "features differ from those of the kept samples and steps")
    if case['overlap'] and not kept:
        b = cls(include_last_sample=False)
        b.train(x[:sum(sizes)] if case['overlap'] else x)
        b.stop_training()
        close(gen.sign_align(b.execute(x), y), y, 1e-5, "overlapping chunks without the last sample differ from batch")
    ctx.nontrivial(len(chunks) > 1)


@sub(st.fixed_dictionaries({'seed': seeds, 'd': st.integers(1, 4), 'nch': st.integers(2, 6),
                            'dt': st.sampled_from(['none', 'const', 'array'])}),
     quick=200, thorough=4000, shards=2, rule="time-dependent chunks of a variable-step series, at least two")
def vartime_chunks(case, ctx):
    rng = rs(case['seed'], 9)
    d, n = case['d'], 80
    x = gen.slow(rng, n, d, noise=0.1)
    steps = 0.3 + rng.rand(n - 1)
    sizes = gen.cuts(rng, n, case['nch'], 2)
    a, b = mdp.nodes.VartimeSFANode(), mdp.nodes.VartimeSFANode()
    i = 0
    for s in sizes:
        c = x[i:i + s]
        if case['dt'] == 'none':
            a.train(c)
        elif case['dt'] == 'const':
            a.train(c, dt=0.7)
        else:
            a.train(c, dt=steps[:s - 1] if i == 0 else steps[i - 1:i - 1 + s])
        i += s
    if case['dt'] == 'none':
        b.train(x)
    elif case['dt'] == 'const':
        b.train(x, dt=0.7)
    else:
        b.train(x, dt=steps)
    a.stop_training()
    b.stop_training()
    close(a.d, b.d, 1e-7, "slowness values", scale=b.d.max())
    y = b.execute(x)
    close(gen.sign_align(a.execute(x), y), y, 1e-5, "chunked features")
    ctx.nontrivial(len(sizes) > 1)


@sub(st.fixed_dictionaries({'seed': seeds, 'cls': st.sampled_from(['FDANode', 'GaussianClassifier',
                                                                   'NearestMeanClassifier', 'KNNClassifier']),
                            'names': st.sampled_from(['int', 'str']), 'nch': st.integers(1, 4),
                            'scalar': st.booleans()}),
     quick=250, thorough=5000, shards=2, rule="labelled data in chunks: label arrays, lists and single labels mixed")
def label_presentation(case, ctx):
    """Samples of a class given with one label, a list or an array of labels: same model."""
    rng = rs(case['seed'], 4)
    d, nc = 2, 3
    cen = rng.normal(size=(nc, d)) * 2.5
    lab = np.concatenate([np.arange(nc)] * 6 + [rng.randint(nc, size=20)])
    x = cen[lab] + rng.normal(size=(len(lab), d))
    names = ['a', 'bb', 'c'] if case['names'] == 'str' else [3, 1, 7]
    cls = getattr(mdp.nodes, case['cls'])
    make = (lambda: cls(output_dim=2)) if case['cls'] == 'FDANode' else cls
    a, b = make(), make()
    full = np.array([names[i] for i in lab])
    while b.is_training():
        b.train(x, full)
        b.stop_training()
    while a.is_training():
        if case['scalar']:
            for k in rng.permutation(nc):
                xs = x[lab == k]
                sz = gen.cuts(rng, len(xs), case['nch'])
                for c in gen.split(xs, sz):
                    a.train(c, names[k])
        else:
            for c, l in zip(*[gen.split(v, gen.cuts(rs(case['seed'], 1), len(x), case['nch'])) for v in (x, full)]):
                a.train(c, l.tolist() if rng.randint(2) else l)
        a.stop_training()
    q = rng.normal(size=(15, d)) * 3
    if case['cls'] == 'FDANode':
        y = b.execute(q)
        close(gen.sign_align(a.execute(q), y), y, 1e-6, "features")
    else:
        check(list(a.label(q)) == list(b.label(q)), "labels differ")
        if case['cls'] == 'GaussianClassifier':
            for u, v in zip(a.prob(q), b.prob(q)):
                check(set(u) == set(v), "label sets differ")
                for k in v:
                    check(abs(u[k] - v[k]) < 1e-7, "probabilities differ")
    ctx.nontrivial()
