"""Principal components, whitening and NIPALS against the eigendecomposition of the sample covariance."""
import numpy as np
import mdp
from lib.harness import sub, check, close, st, raises
from lib import gen
from lib.gen import seeds, rs


def data(case, rng):
    d, n = case['d'], case['n'] + case['d'] + 2
    x = gen.spectral(rng, n, d, ratio=case['ratio'], scale=case['scale'])
    if case['kind'] == 'axis':
        # exactly uncorrelated, axis-aligned columns
        m = max(2 ** int(np.ceil(np.log2(d + 1))), 2)
        h = np.array([[1.]])
        while len(h) < m:
            h = np.block([[h, h], [h, -h]])
        cols = h[:, 1:d + 1] if d < m else h[:, :d]
        amp = case['ratio'] ** -np.arange(d)
        x = (cols * amp[rng.permutation(d)])[rng.permutation(m)] * case['scale']
        x = np.concatenate([x, x]) + np.round(rng.normal(size=d) * 4) * case['scale']
    elif case['kind'] == 'raw':
        x = rng.normal(size=(n, d)).dot(rng.normal(size=(d, d))) * case['scale']
    return x


def reference(x):
    c = np.atleast_2d(np.cov(x.T))
    w, u = np.linalg.eigh(c)
    return c, w[::-1], u[:, ::-1]


def expected_kept(w, case, odim):
    """Number of components the documentation asks for; None if too close to call."""
    tot = w.sum()
    k = len(w)
    if isinstance(odim, float):
        cum = np.cumsum(w) / tot
        if np.any(np.abs(cum - odim) < 1e-9) and odim < 1.:
            return None
        if odim == 1.:
            return None if True else k
        k = int(np.searchsorted(cum, odim)) + 1
    elif odim is not None:
        k = odim
    if case['reduce']:
        ok = np.ones(len(w), bool)
        va, vr, vp = case['va'], case['vr'], case['vp']
        for val, thr in ((w, va), (w / w[0], vr), (w / tot, vp or 0.)):
            if thr and np.any(np.abs(val - thr) < 1e-7 * abs(thr)):
                return None
            ok &= val > thr
        k = min(k, int(ok.sum()))
    return k


BASE = {
    'seed': seeds, 'd': st.sampled_from([1, 2, 3, 4, 5, 6, 6, 10, 13]), 'n': st.one_of(st.integers(1, 60), st.integers(1, 60), st.integers(61, 400)),
    'ratio': st.sampled_from([1.05, 1.3, 1.8, 3.0]), 'scale': st.sampled_from([1., 1., 1e-3, 1e3]),
    'kind': st.sampled_from(['spec', 'spec', 'raw', 'axis']),
    'nch': st.integers(1, 4),
    'od': st.one_of(st.none(), st.integers(1, 6), st.integers(1, 13), st.sampled_from([0.3, 0.6, 0.9, 0.99, 1.0]),
                    st.floats(0.05, 0.999)),
}


@sub(st.fixed_dictionaries(dict(BASE, cls=st.sampled_from(['PCANode', 'WhiteningNode']), svd=st.booleans(),
                                reduce=st.booleans(), va=st.sampled_from([1e-15, 0.05, 0.5]),
                                vr=st.sampled_from([1e-12, 0.1, 0.4]), vp=st.sampled_from([None, 0, 0.05, 0.2]),
                                f32=st.booleans(), closing=st.sampled_from(['stop', 'exec', 'proj', 'rec']))),
     quick=2500, thorough=40000, shards=6, rule="at least two components with distinct variances")
def eigen(case, ctx):
    rng = rs(case['seed'], 1)
    x = data(case, rng)
    if case['f32'] and case['scale'] == 1.:
        x = x.astype('f')
        tol = 3e-3
    else:
        case = dict(case, f32=False)
        tol = 1e-7
    c, w, u = reference(x.astype('d'))
    d = x.shape[1]
    if w[-1] < 1e-6 * w[0]:
        return
    od = case['od']
    if isinstance(od, int):
        od = min(od, d)
    va = case['va'] * case['scale'] ** 2
    case = dict(case, va=va)
    k = expected_kept(w, case, od)
    if case['f32'] and (isinstance(od, float) or case['reduce']):
        k = None
    kw = dict(svd=case['svd'], reduce=case['reduce'], var_abs=va, var_rel=case['vr'], var_part=case['vp'])
    node = getattr(mdp.nodes, case['cls'])(output_dim=od, **kw)
    for ch in gen.split(x, gen.cuts(rng, len(x), case['nch'])):
        node.train(ch)
    if k is None and case['reduce'] and w[0] < va * 1.01:
        return
    if k == 0:
        if np.all(w <= va):
            raises(mdp.NodeException, node.stop_training, "nothing left above var_abs")
        return
    how = case['closing']
    if how == 'stop':
        node.stop_training()
    elif how == 'exec':
        node.execute(x[:1])
    elif how == 'proj':
        node.get_projmatrix()
    else:
        node.get_recmatrix()
    check(not node.is_training(), "training not closed")
    m = node.output_dim
    if m == 0 and k is None:
        return
    if k is not None:
        check(m == k, "%s components kept, documentation asks for %s (variances %s)", m, k, w)
    if isinstance(od, float) and od == 1. and not case['reduce']:
        check(m <= d, "more components than variables")
        check(w[:m].sum() / w.sum() >= 1 - 1e-6, "output_dim=1.0 dropped variance")
    white = case['cls'] == 'WhiteningNode'
    P = node.get_projmatrix()
    R = node.get_recmatrix()
    check(P.shape == (d, m) and R.shape == (m, d), "matrix shapes %s %s", P.shape, R.shape)
    close(node.get_projmatrix(0), P.T, 0, "transposed projection")
    close(node.get_recmatrix(0), R.T, 0, "transposed reconstruction")
    vals = np.asarray(node.d).astype('d')
    close(vals, w[:m], tol, "variances", scale=w[0])
    check(np.all(np.diff(vals) <= 1e-9 * w[0] + (1e-4 * w[0] if case['f32'] else 0)), "variances not descending")
    V = (P / np.sqrt(vals).reshape(1, -1) * vals.reshape(1, -1) if white else P).astype('d')
    cond = w[0] / w[m - 1] if white else 1.
    close(V.T.dot(V), np.eye(m), tol * cond, "directions are not orthonormal")
    close(c.dot(V), V * vals, tol * 10 * cond, "directions are not eigenvectors", scale=w[0])
    close(np.asarray(R, 'd'), (V * np.sqrt(vals)).T if white else V.T, tol * cond * 10, "reconstruction matrix",
          scale=max(1., np.abs(R).max()))
    if white:
        close(np.asarray(node.get_eigenvectors(), 'd'), V, tol * cond, "get_eigenvectors")
    close(node.explained_variance, vals.sum() / w.sum(), tol * 10, "explained variance")
    close(node.get_explained_variance(), node.explained_variance, 0, "get_explained_variance")
    close(node.total_variance, w.sum(), tol * 10, "total variance", scale=w.sum())
    check(node.tlen == len(x), "tlen %s for %d samples", node.tlen, len(x))
    mean = x.astype('d').mean(axis=0)
    sc = max(np.abs(x).max(), 1e-30)
    close(np.ravel(node.avg).astype('d'), mean, tol, "mean", scale=sc)
    y = node.execute(x)
    close(y.astype('d'), (x.astype('d') - mean).dot(np.asarray(P, 'd')), tol * 100 * cond, "projection",
          scale=max(np.abs(y).max(), 1e-30) + sc * np.abs(P).max())
    t2 = tol * 100 * cond * (1 + (sc ** 2 / w[m - 1]) * (1e-3 if case['f32'] else 1e-9))
    cy = np.atleast_2d(np.cov(y.astype('d').T))
    if t2 < 0.1:
        close(cy, np.eye(m) if white else np.diag(vals), t2, "covariance of the output",
              scale=1. if white else w[0])
    n1 = 1 + case['seed'] % m
    close(node.execute(x, n1) if case['seed'] % 2 else node.execute(x, n=n1), y[:, :n1], tol, "first n components",
          scale=max(np.abs(y).max(), 1e-30))
    proj = V.dot(V.T)
    rec = node.inverse(y).astype('d')
    want = (x.astype('d') - mean).dot(proj) + mean
    close(rec, want, tol * 100 * cond, "reconstruction is not the orthogonal projection", scale=sc)
    if m == d:
        close(rec, x.astype('d'), tol * 100 * cond, "complete reconstruction", scale=sc)
    V1 = V[:, :n1]
    want = (x.astype('d') - mean).dot(V1.dot(V1.T)) + mean
    close(node.inverse(y[:, :n1]).astype('d'), want, tol * 100 * cond, "reconstruction from n components", scale=sc)
    close(node.inverse(y[:, :n1], n1).astype('d'), want, tol * 100 * cond, "reconstruction with n given", scale=sc)
    raises(mdp.NodeException, lambda: node.inverse(np.zeros((2, m + 1), dtype=x.dtype)), "inverse of too many columns")
    ctx.label('%s %s' % (case['cls'], 'svd' if case['svd'] else 'eig'))
    ctx.nontrivial(d > 1)


@sub(st.fixed_dictionaries({
    'seed': seeds, 'd': st.integers(2, 6), 'rank': st.integers(1, 5), 'n': st.integers(0, 30),
    'cls': st.sampled_from(['PCANode', 'WhiteningNode']), 'opt': st.sampled_from(['svd+reduce', 'reduce']),
    'few': st.booleans()}),
     quick=500, thorough=10000, shards=2, rule="training data of lower rank than its dimension")
def rank_deficient(case, ctx):
    rng = rs(case['seed'], 2)
    d = case['d']
    r = min(case['rank'], d - 1)
    n = (r + 1) if case['few'] else case['n'] + r + 3
    z = gen.spectral(rng, n, r, ratio=1.5, mean=False)
    if n <= r + 1:
        z = rng.normal(size=(n, r))
    x = z.dot(rng.normal(size=(r, d))) + rng.normal(size=d)
    c, w, u = reference(x)
    true = int((w > 1e-9 * w[0]).sum())
    if w[true - 1] < 1e-4 * w[0]:
        return
    node = getattr(mdp.nodes, case['cls'])(svd='svd' in case['opt'], reduce=True, var_rel=1e-9)
    node.train(x)
    node.stop_training()
    check(node.output_dim == true, "%d components kept of data of rank %d", node.output_dim, true)
    y = node.execute(x)
    close(node.inverse(y), x, 1e-6, "data of lower rank must be reconstructed")
    cy = np.atleast_2d(np.cov(y.T))
    close(cy, np.eye(true) if 'W' in case['cls'] else np.diag(w[:true]), 1e-6, "output covariance")
    ctx.nontrivial()


@sub(st.fixed_dictionaries(dict(BASE, scale=st.just(1.))), quick=500, thorough=10000, shards=2,
     rule="at least two components, iterative solution compared with eigenvectors")
def nipals(case, ctx):
    rng = rs(case['seed'], 3)
    if case['ratio'] < 1.3:
        case = dict(case, ratio=1.4)
    x = data(dict(case, kind='axis' if case['kind'] == 'axis' else 'spec'), rng)
    c, w, u = reference(x)
    d = x.shape[1]
    od = case['od']
    if isinstance(od, int):
        od = min(od, d)
    if isinstance(od, float) and od == 1.:
        od = None
    node = mdp.nodes.NIPALSNode(output_dim=od, conv=1e-16, max_it=1000000)
    for ch in gen.split(x, gen.cuts(rng, len(x), case['nch'])):
        node.train(ch)
    node.stop_training()
    m = node.output_dim
    if isinstance(od, float):
        cum = np.cumsum(w) / w.sum()
        if np.all(np.abs(cum - od) > 1e-4):
            check(m == int(np.searchsorted(cum, od)) + 1, "%d components for variance share %s of %s", m, od, cum)
    else:
        check(m == (d if od is None else od), "output_dim %s", m)
    V = node.get_projmatrix()
    vals = node.d
    close(vals, w[:m], 1e-5, "variances", scale=w[0])
    close(V.T.dot(V), np.eye(m), 1e-4, "directions not orthonormal")
    close(c.dot(V), V * vals, 1e-4, "directions are not eigenvectors", scale=w[0])
    close(node.explained_variance, vals.sum() / w.sum(), 1e-4, "explained variance is not the kept share")
    y = node.execute(x)
    mean = x.mean(axis=0)
    close(y, (x - mean).dot(V), 1e-7, "projection")
    close(node.inverse(y), (x - mean).dot(V).dot(V.T) + mean, 1e-6, "reconstruction")
    if m == d:
        close(node.inverse(y), x, 1e-3, "complete reconstruction")
    ctx.label(case['kind'])
    ctx.nontrivial(d > 1)
