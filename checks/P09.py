"""Independent component nodes: projection/reconstruction matrices, whiteness, stationarity of the contrast each
algorithm documents, recovery of generated independent sources, whitening options."""
import numpy as np
import mdp
from lib.harness import sub, check, close, st, raises
from lib import gen
from lib.gen import seeds, rs

N = mdp.nodes


def mixed(rng, s, cond=3.):
    d = s.shape[1]
    a = gen.rot(rng, d).dot(np.diag(np.linspace(1, cond, d))).dot(gen.rot(rng, d))
    return s.dot(a) + rng.normal(size=d) * 3


def src(rng, n, d, kind):
    cols = []
    for i in range(d):
        if kind == 'sub':
            k = i % 2
        elif kind == 'mix':
            k = (0, 2, 1, 0)[i % 4]
        elif kind == 'skew':
            k = 3
        else:
            k = 4
        if k == 0:
            c = rng.uniform(-1, 1, size=n)
        elif k == 1:
            c = np.where(rng.rand(n) < 0.5, -1., 1.) + 0.15 * rng.normal(size=n)
        elif k == 2:
            c = rng.laplace(size=n)
            c = np.clip(c, -4, 4)
        elif k == 3:
            c = np.minimum(rng.exponential(size=n), 4.) * rng.choice([-1, 1])
        else:
            c = np.clip(rng.laplace(size=n), -4, 4)
        cols.append((c - c.mean()) / c.std())
    return np.array(cols).T


def tsrc(rng, n, d):
    """Temporally distinct sources: autoregressive with clearly different decay."""
    cols = []
    decay = [0.97, 0.7, 0.0, -0.7, -0.95][:d] if d > 2 else [0.95, 0.2][:d]
    for a in decay:
        e = rng.normal(size=n)
        c = np.zeros(n)
        for t in range(1, n):
            c[t] = a * c[t - 1] + e[t]
        cols.append((c - c.mean()) / c.std())
    return np.array(cols).T[:, rng.permutation(d)]


def recovered(y, s, thr):
    d = s.shape[1]
    c = np.abs(np.corrcoef(y.T, s.T)[:y.shape[1], y.shape[1]:])
    best = c.argmax(axis=0)
    return len(set(best.tolist())) == d and c.max(axis=0).min() > thr, c


def matrices(node, x, y, white, od, tol, whitened, orth=1e-6):
    """Everything the ProjectMatrixMixin documents."""
    d = x.shape[1]
    mean = np.zeros(d) if whitened else x.mean(axis=0)
    P = node.get_projmatrix()
    R = node.get_recmatrix()
    check(P.shape == (d, od) and R.shape == (od, d), "matrix shapes %s %s", P.shape, R.shape)
    close(node.get_projmatrix(transposed=0), P.T, 1e-12, "transposed projection matrix")
    close(node.get_recmatrix(transposed=0), R.T, 1e-12, "transposed reconstruction matrix")
    close(y, (x - mean).dot(P), tol, "output is the projected centred input", scale=1 + np.abs(y).max())
    F = node.filters
    close(F.T.dot(F), np.eye(F.shape[1]), orth, "filters must be orthonormal")
    back = node.inverse(y)
    close(back, y.dot(R) + mean, tol, "inverse is the reconstruction matrix plus mean", scale=1 + np.abs(x).max())
    if od == d:
        close(back, x, max(tol * 10, orth * 10), "reconstruction of the input", scale=1 + np.abs(x).max())
    elif F.shape[0] == F.shape[1]:
        # orthogonal projection on the kept principal components
        w, u = np.linalg.eigh(np.cov(x.T))
        u = u[:, ::-1][:, :od]
        close(back, (x - mean).dot(u).dot(u.T) + mean, max(tol * 10, orth * 10), "reconstruction from the kept components",
              scale=1 + np.abs(x).max())
    if od <= d and not whitened:
        c = np.cov(y.T).reshape(od, od)
        close(c, np.eye(od), max(1e-6, orth * 2), "outputs must be uncorrelated with unit variance")


def plane_rotations(y, f, eps, slack, msg):
    """No small rotation in any coordinate plane improves the contrast f (to be maximised)."""
    d = y.shape[1]
    base = f(y)
    for i in range(d):
        for j in range(i + 1, d):
            for a in (eps, -eps):
                z = y.copy()
                z[:, i] = np.cos(a) * y[:, i] - np.sin(a) * y[:, j]
                z[:, j] = np.sin(a) * y[:, i] + np.cos(a) * y[:, j]
                v = f(z)
                check(v <= base + slack * (1 + abs(base)), "%s: rotating components %d,%d by %g improves it from %r to %r",
                      msg, i, j, a, base, v)


def cumulant_contrast(y):
    n = len(y)
    c3 = (y ** 3).mean(axis=0)
    c4 = (y ** 4).mean(axis=0) - 3
    return (c3 ** 2).sum() / 6. + (c4 ** 2).sum() / 24.


def jade_contrast(y):
    """Sum of squared diagonals of all fourth order cumulant matrices."""
    n, d = y.shape
    tot = 0.
    I = np.eye(d)
    for i in range(d):
        for j in range(d):
            Q = (y * (y[:, i] * y[:, j])[:, None]).T.dot(y) / n - (i == j) * I - np.outer(I[i], I[j]) - np.outer(I[j], I[i])
            tot += (np.diag(Q) ** 2).sum()
    return tot


def common(case, ctx, make, s, contrast, thr, orth=1e-6, retry=False):
    rng = rs(case['seed'], 1)
    n, d = s.shape
    x = mixed(rng, s)
    wc = case['wc']
    if wc is not None and (wc >= d or case['whitened']):
        wc = None
    kw = {}
    if case['whitened']:
        kw['whitened'] = True
        x = x - x.mean(axis=0)
        u, sv, vt = np.linalg.svd(x, full_matrices=False)
        x = u.dot(gen.rot(rng, d)) * np.sqrt(n - 1)
        # the sources are still a linear map of x
    elif wc:
        kw['white_comp'] = wc
    if case['svd'] and not case['whitened']:
        kw['white_parm'] = {'svd': True}

    def fit(sizes, **k):
        gen.reseed(case['seed'] % 9973)
        node = make(**dict(kw, **k))
        for c in gen.split(x, sizes):
            node.train(c)
        node.stop_training()
        return node
    sizes = gen.cuts(rng, n, case['nch'], mn=60)
    try:
        node = fit(sizes)
    except mdp.NodeException as e:
        if 'onverge' in str(e):
            ctx.label('no convergence')
            return None
        raise
    od = wc or d
    y = node.execute(x)
    check(node.output_dim == od and y.shape == (n, od), "output dimension %s", node.output_dim)
    matrices(node, x, y, None, od, 1e-7, case['whitened'], orth)
    if contrast is not None:
        contrast(node, y, x)
    if wc is None and thr > 0:
        ok, c = recovered(y, s, thr)
        if not ok and retry:
            # saddle points are fixed points of the iteration: another start has to find the sources
            for k in range(1, 7):
                gen.reseed(case['seed'] % 9973 + k)
                n2 = make(**dict(kw, **({'guess': None} if retry == 'guess' else {})))
                n2.train(x)
                try:
                    ok, c = recovered(n2.execute(x), s, thr)
                except mdp.NodeException:
                    continue
                if ok:
                    break
        check(ok, "sources not recovered, correlations %s", c.round(3).tolist())
    if case['nch'] > 1 and contrast is not tdsep_contrast:
        one = fit([n])
        close(one.execute(x), y, 1e-4, "chunked training differs")
    ctx.nontrivial(d > 1)
    return node, x, y


BASE = {'seed': seeds, 'd': st.integers(2, 4), 'n': st.integers(1200, 2200), 'wc': st.sampled_from([None, None, None, 2, 3]),
        'whitened': st.booleans(), 'svd': st.booleans(), 'nch': st.integers(1, 3)}


@sub(st.fixed_dictionaries(dict(BASE, kind=st.sampled_from(['sub', 'mix', 'skew', 'lap']), limit=st.sampled_from([1e-3, 1e-6]))),
     quick=150, thorough=6000, shards=2, rule="two or more sources, converged")
def cubica(case, ctx):
    s = src(rs(case['seed'], 2), case['n'], case['d'], case['kind'])

    def contrast(node, y, x):
        if node.convergence <= node.limit:
            ctx.label('converged')
            # the closed form neglects the cos(8 phi) term, which matters for weak sources
            sl = 1e-4 if case['kind'] == 'sub' and case['wc'] is None else 3e-3
            plane_rotations(y, cumulant_contrast, 0.02 if sl < 1e-3 else 0.08, sl, "cumulant contrast")
        check(abs(node.convergence) <= np.pi / 4 + 1e-9, "angle %r", node.convergence)
        if not case['whitened'] and case['wc'] is None:
            ctx.label('full')
    common(case, ctx, lambda **k: N.CuBICANode(limit=case['limit'], **k), s, contrast, 0.93)


@sub(st.fixed_dictionaries(dict(BASE, kind=st.sampled_from(['sub', 'mix', 'skew', 'lap']), limit=st.sampled_from([1e-3, 1e-4]))),
     quick=150, thorough=6000, shards=2, rule="two or more sources")
def jade(case, ctx):
    s = src(rs(case['seed'], 3), case['n'], case['d'], case['kind'])

    def contrast(node, y, x):
        plane_rotations(y, jade_contrast, 0.03, 2e-3, "joint diagonality of the cumulant matrices")
    common(case, ctx, lambda **k: N.JADENode(limit=case['limit'], **k), s, contrast, 0.93)


@sub(st.fixed_dictionaries(dict(BASE, kind=st.sampled_from(['sub', 'mix', 'lap']), approach=st.sampled_from(['defl', 'symm']),
                                g=st.sampled_from(['pow3', 'tanh', 'gaus', 'skew']), fine=st.sampled_from(['pow3', 'tanh', 'gaus', 'skew', None]),
                                mu=st.sampled_from([1, 1, 1, 0.5]), sample=st.sampled_from([1, 1, 1, 0.7]), limit=st.sampled_from([1e-3, 1e-5]),
                                guess=st.booleans())),
     quick=240, thorough=12000, shards=4, timeout=300, rule="converged on two or more sources")
def fastica(case, ctx):
    g, fine = case['g'], case['fine']
    if 'skew' in (g, fine):
        # needs skewed sources in both stages
        g = 'skew' if g == 'skew' or fine == 'skew' else g
        fine = fine if fine in ('skew', None) else 'skew'
        kind = 'skew'
    else:
        kind = case['kind']
    d = min(case['d'], 3) if kind == 'lap' else case['d']
    s = src(rs(case['seed'], 4), case['n'], d, kind)
    kw = dict(approach=case['approach'], g=g, fine_g=fine, mu=case['mu'], sample_size=case['sample'], limit=case['limit'], max_it=400)
    if case['sample'] != 1:
        # random subsamples converge only coarsely
        kw['limit'] = 1e-2 if case['approach'] == 'defl' else 1e-3
        kw['max_it'] = 1500
    if case['guess']:
        gs = gen.rot(rs(case['seed'], 5), d)
        if case['wc'] is None or case['whitened'] or case['wc'] >= d:
            kw['guess'] = gs
            keep = gs.copy()

    def make(**k):
        return N.FastICANode(**dict(kw, **k))

    def contrast(node, y, x):
        if kw.get('guess') is not None:
            check(np.array_equal(kw['guess'], keep), "the caller's initial guess was modified")
        ctx.label('%s %s' % (case['approach'], g))
    # deflation/symmetric iterations of the plain algorithm may stop at saddle points: the recovery threshold is
    # only asked of the sources actually identifiable with the chosen nonlinearity
    try:
        r = common(case, ctx, make, s, contrast, 0.85 if case["sample"] == 1 else -1., orth=1e-6, retry='guess')
    except np.linalg.LinAlgError:
        return


@sub(st.fixed_dictionaries({'seed': seeds, 'd': st.integers(2, 4), 'max_it': st.integers(2, 12), 'limit': st.sampled_from([1e-2, 1e-4]),
                            'failures': st.integers(0, 6), 'kind': st.sampled_from(['sub', 'mix']), 'fine': st.sampled_from([None, 'pow3'])}),
     quick=150, thorough=4000, rule="deflation that cannot converge in the first attempt for every component")
def fastica_failures(case, ctx):
    """Too few iterations: either an exception or a complete orthonormal set of filters."""
    s = src(rs(case['seed'], 6), 700, case['d'], case['kind'])
    x = mixed(rs(case['seed'], 7), s)
    gen.reseed(case['seed'] % 9973)
    node = N.FastICANode(approach='defl', max_it=case['max_it'], limit=case['limit'], failures=case['failures'], fine_g=case['fine'])
    node.train(x)
    try:
        node.stop_training()
    except mdp.NodeException:
        ctx.label('refused')
        ctx.nontrivial()
        return
    F = node.filters
    close(F.T.dot(F), np.eye(case['d']), 1e-6, "filters of a run that reported no failure must be orthonormal")
    ctx.label('done')
    ctx.nontrivial()


@sub(st.fixed_dictionaries({'seed': seeds, 'd': st.integers(2, 3), 'n': st.integers(10, 900), 'limit': st.sampled_from([1e-3, 1e-1])}),
     quick=80, thorough=2000, rule="every case")
def telescope(case, ctx):
    d, n = case['d'], case['n']
    for k in range(4):
        # the first blocks may lead into a wrong optimum: only repeated failure counts
        s = src(rs(case['seed'], 8, k), n, d, 'sub')
        x = mixed(rs(case['seed'], 9, k), s)
        if np.linalg.cond(np.cov(x.T)) > 1e6:
            return
        node = N.CuBICANode(telescope=True, limit=case['limit'])
        node.train(x)
        node.stop_training()
        y = node.execute(x)
        matrices(node, x, y, None, d, 1e-7, False)
        ctx.nontrivial()
        if not (n > 800 and case['limit'] < 0.01):
            return
        ok, c = recovered(y, s, 0.8)
        if ok:
            return
    check(ok, "sources not recovered in telescope mode %s", c.round(3).tolist())


def lagged(y, lags, sizes=None):
    out = []
    for l in lags:
        n = len(y)
        a, b = y[:n - l], y[l:]
        c = (a - a.mean(axis=0)).T.dot(b - b.mean(axis=0)) / (n - l - 1)
        out.append((c + c.T) / 2)
    return out


def tdsep_contrast(*a):
    pass


def eff_dim(case, kw, d):
    return d if case['whitened'] else kw.get('output_dim') or kw.get('white_comp') or d


@sub(st.fixed_dictionaries(dict(BASE, lags=st.sampled_from([1, 2, 5, [1], [1, 3], [2, 4, 7]]), cls=st.sampled_from(['TDSEP', 'ISFA']),
                                ratio=st.sampled_from([[1., 1.], [0., 1.], [1., 0.], [3., 1.]]), od=st.sampled_from([None, None, 1, 2]),
                                limit=st.sampled_from([1e-5, 1e-8]), wts=st.sampled_from([None, None, 'list', 'int', 'scalar']), rp=st.booleans())),
     quick=240, thorough=10000, shards=4, timeout=120, rule="two or more sources")
def temporal(case, ctx):
    """TDSEP and ISFA: contrast of the delayed covariances cannot be improved by rotating output planes."""
    rng = rs(case['seed'], 10)
    n, d = case['n'], case['d']
    s = tsrc(rng, n, d)
    x = mixed(rng, s)
    lags = list(range(1, case['lags'] + 1)) if isinstance(case['lags'], int) else case['lags']
    wc = case['wc'] if case['wc'] and case['wc'] < d and not case['whitened'] else None
    kw = {}
    if case['whitened']:
        x = x - x.mean(axis=0)
        u, sv, vt = np.linalg.svd(x, full_matrices=False)
        x = u.dot(gen.rot(rng, d)) * np.sqrt(n - 1)
        kw['whitened'] = True
    elif wc:
        kw['white_comp'] = wc
    if case['svd'] and not case['whitened']:
        kw['white_parm'] = {'svd': True}
    eff = wc or d
    ica_w = np.ones(len(lags))
    sfa_w = np.zeros(len(lags))
    sfa_w[0] = 1.
    gen.reseed(case['seed'] % 9973)
    if case['cls'] == 'TDSEP':
        node = N.TDSEPNode(lags=case['lags'], limit=case['limit'], **kw)
        bsfa, bica = 0., 1.
        od = eff
    else:
        od = eff
        if case['od'] is not None and case['od'] < d and not wc:
            if case['whitened']:
                od = kw['output_dim'] = case['od']
            # (for data to be whitened inside output_dim is also the number of whitened components)
            else:
                od = eff = kw['output_dim'] = case['od']
        bsfa, bica = case['ratio']
        if case['wts'] == 'list':
            ica_w, sfa_w = 0.5 + rng.rand(len(lags)), 0.5 + rng.rand(len(lags))
            kw.update(icaweights=list(ica_w), sfaweights=list(sfa_w))
        elif case['wts'] == 'int':
            ica_w, sfa_w = np.ones(len(lags)), np.ones(len(lags))
            kw.update(icaweights=1, sfaweights=1)
        elif case['wts'] == 'scalar':
            # scalar weights count for every lag
            ica_w, sfa_w = np.full(len(lags), 0.4), np.full(len(lags), 2.5)
            kw.update(icaweights=0.4, sfaweights=2.5)
        if case['rp']:
            # starting rotation-permutation
            rp = gen.rot(rng, eff_dim(case, kw, d))
            kw['RP'] = rp.copy()
        node = N.ISFANode(lags=case['lags'], sfa_ica_coeff=case['ratio'], eps_contrast=case['limit'], max_iter=400, **kw)
    nch = case['nch']
    sizes = gen.cuts(rng, n, nch, mn=100)
    for c in gen.split(x, sizes):
        node.train(c)
    try:
        node.stop_training()
    except mdp.NodeException as e:
        if 'onverge' in str(e):
            return
        raise
    y = node.execute(x)
    check(y.shape == (n, od), "output shape %s", y.shape)
    if 'RP' in kw:
        check(np.array_equal(kw['RP'], rp), "starting rotation changed")
        ctx.label('RP')
    F = node.RP
    close(F.T.dot(F), np.eye(od), 1e-6, "filters must be orthonormal")
    if not case['whitened']:
        close(np.cov(y.T).reshape(od, od), np.eye(od), 1e-6, "outputs must be white")
        if od == d:
            close(node.inverse(y), x, 1e-6, "inverse", scale=1 + np.abs(x).max())
    if case['cls'] == 'TDSEP':
        check(node.convergence == node.final_contrast, "convergence %s, final contrast %s", node.convergence, node.final_contrast)
        matrices(node, x, y, None, od, 1e-7, case['whitened'])
    # complete rotated whitened signal: outputs first
    xw = x if case['whitened'] else node.white.execute(x)
    rest = xw.dot(node.RPC)

    def covs_of(z):
        # chunk boundaries cost the pairs that span them: use the node's own chunks
        tot = []
        for l in lags:
            A = np.zeros((z.shape[1],) * 2)
            sa = sb = 0.
            cnt = 0
            for ch in gen.split(z, sizes):
                a, b = ch[:len(ch) - l], ch[l:]
                A += a.T.dot(b)
                sa = sa + a.sum(axis=0)
                sb = sb + b.sum(axis=0)
                cnt += len(a)
            A = (A - np.outer(sa, sb) / cnt) / (cnt - 1)
            tot.append((A + A.T) / 2)
        return np.array(tot)
    C0 = covs_of(rest)
    if od > 1:
        b_ica, b_sfa = bica / (od * (od - 1)), bsfa / od
    else:
        b_ica, b_sfa = 0., bsfa

    def contrast(C):
        q = C[:, :od, :od] ** 2
        diag = np.array([np.trace(k) for k in q])
        off = np.array([k.sum() for k in q]) - diag
        return -b_sfa * (sfa_w * diag).sum() + b_ica * (ica_w * off).sum()
    base = contrast(C0)
    close(node.final_contrast['TOT'], base, 1e-6, "reported final contrast")
    check(node.final_contrast['TOT'] <= node.initial_contrast['TOT'] + 1e-9 * (1 + abs(base)), "contrast increased")
    close(node.final_contrast['SFA'] + node.final_contrast['ICA'], node.final_contrast['TOT'], 1e-12, "parts of the contrast")
    gain = 1e-3 if case['limit'] == 1e-5 else 1e-4
    for i in range(od):
        for j in range(i + 1, eff):
            for a in np.linspace(-np.pi / 4, np.pi / 4, 21) if j < od else np.linspace(-np.pi / 2, np.pi / 2, 41):
                G = np.eye(eff)
                G[i, i] = G[j, j] = np.cos(a)
                G[i, j], G[j, i] = np.sin(a), -np.sin(a)
                C = np.array([G.T.dot(k).dot(G) for k in C0])
                v = contrast(C)
                check(v >= base - gain * (abs(base) + 1e-3), "contrast %r can be lowered to %r by rotating %d,%d by %g", base, v, i, j, a)
    # ordered by slowness: decreasing lag-one (first lag) correlation
    Cy = covs_of(y)[0].reshape(od, od)
    check(np.all(np.diff(np.diag(Cy)) <= 1e-9), "components not ordered by slowness %s", np.diag(Cy))
    if (case['cls'] == 'TDSEP' or (bica > 0 and bsfa == 0 and case['wts'] != 'list')) and od == d and 1 in lags:
        ok, c = recovered(y, s, 0.9)
        check(ok, "sources not recovered, correlations %s", c.round(3).tolist())
        ctx.label('recovered')
    ctx.label(case['cls'])
    ctx.nontrivial(d > 1)


@sub(st.fixed_dictionaries({'seed': seeds, 'bad': st.sampled_from(['lags_str', 'lags_float', 'ica_len', 'sfa_len', 'approach', 'g', 'fine', 'sample0', 'sample2']),
                            'k': st.integers(1, 4)}), quick=60, thorough=400, rule="every case")
def refused(case, ctx):
    k = case['k']
    b = case['bad']
    f = {'lags_str': lambda: N.ISFANode(lags='1'), 'lags_float': lambda: N.ISFANode(lags=np.array([1., 2.])),
         'ica_len': lambda: N.ISFANode(lags=k, icaweights=[1.] * (k + 1)), 'sfa_len': lambda: N.ISFANode(lags=k, sfaweights=[1.] * (k + 2)),
         'approach': lambda: N.FastICANode(approach='x'), 'g': lambda: N.FastICANode(g='pow4'), 'fine': lambda: N.FastICANode(fine_g='foo'),
         'sample0': lambda: N.FastICANode(sample_size=0), 'sample2': lambda: N.FastICANode(sample_size=1.5)}[b]
    raises(mdp.NodeException, f, b)
    ctx.nontrivial()


@sub(st.fixed_dictionaries({'seed': seeds, 'n': st.integers(1500, 2500), 'od': st.sampled_from([None, 1, 2]), 'nch': st.integers(1, 2),
                            'kw': st.booleans()}), quick=16, thorough=600, timeout=120, rule="every case")
def xsfa(case, ctx):
    """Linear mixture of two temporally distinct sources: outputs are them, whitened."""
    rng = rs(case['seed'], 11)
    n = case['n']
    t = np.arange(n) / float(n)
    s = np.array([np.sin(2 * np.pi * 3.1 * t + rng.rand() * 6), np.cos(2 * np.pi * 41.3 * t + rng.rand() * 6)]).T
    s = (s - s.mean(axis=0)) / s.std(axis=0)
    x = mixed(rng, s)
    kwargs = {'scale': 1.} if False else {}
    be = (N.PolynomialExpansionNode, (1,), kwargs) if case['kw'] else (N.PolynomialExpansionNode, (1,), {})
    ie_kw = {}
    node = N.XSFANode(basic_exp=be, intern_exp=(N.PolynomialExpansionNode, (5,), ie_kw), output_dim=case['od'], svd=True)
    sizes = gen.cuts(rng, n, case['nch'], mn=400)
    mdp.Flow([node]).train([gen.split(x, sizes)])
    check(kwargs == {} and ie_kw == {}, "the caller's keyword dictionaries were modified: %s %s", kwargs, ie_kw)
    y = node.execute(x)
    od = case['od'] or 2
    check(y.shape == (n, od), "shape %s", y.shape)
    c = np.abs(np.corrcoef(y.T, s.T)[:od, od:])
    check(c[0, 0] > 0.95, "slowest source not found first: %s", c.tolist())
    if od == 2:
        check(c[1, 1] > 0.9, "second source not found: %s", c.tolist())
    ctx.nontrivial()


# ------------------------------------------------------------------ FastICA: fixed points of the documented iteration
def nonlin(name, u, a, b):
    """g(u) and g'(u); a, b: fine_tanh, fine_gaus."""
    if name == 'pow3':
        return u ** 3, 3 + 0 * u          # unit variance
    if name == 'tanh':
        t = np.tanh(a * u)
        return t, a * (1 - t * t)
    if name == 'gaus':
        e = np.exp(-b * u * u / 2)
        return u * e, (1 - b * u * u) * e
    return u * u, 0 * u


def fixed_point_error(Q, X, g, a, b, approach, damped):
    """How far one step of the textbook iteration moves the filters Q on the white data X (rows: samples)."""
    n, d = X.shape
    U = X.dot(Q)
    G, D = nonlin(g, U, a, b)
    err = []
    if approach == 'defl':
        for i in range(d):
            f = X.T.dot(G[:, i]) / n - D[:, i].mean() * Q[:, i]
            f = f - Q[:, :i].dot(Q[:, :i].T.dot(f))
            nf = np.linalg.norm(f)
            if nf < 1e-2:
                return None
            f /= nf
            err.append(min(np.linalg.norm(f - Q[:, i]), np.linalg.norm(f + Q[:, i])))
        return max(err)
    C = U.T.dot(G) / n
    beta = np.diag(C)
    den = beta - D.mean(axis=0)
    if np.abs(den).min() < 1e-2:
        return None
    if damped:
        M = (C - np.diag(beta)) / den
        return np.abs(M - M.T).max()
    M = C - np.diag(D.mean(axis=0))
    s, v, t = np.linalg.svd(M)
    if v.min() < 1e-2:
        return None
    P = s.dot(t)
    return np.abs(np.abs(P) - np.eye(d)).max()


@sub(st.fixed_dictionaries({'seed': seeds, 'd': st.integers(2, 4), 'n': st.integers(300, 900), 'kind': st.sampled_from(['sub', 'mix', 'lap', 'skew']),
                            'approach': st.sampled_from(['defl', 'symm']), 'g': st.sampled_from(['pow3', 'tanh', 'gaus', 'skew']),
                            'fine': st.sampled_from(['pow3', 'tanh', 'gaus', 'skew', None, None]), 'mu': st.sampled_from([1, 1, 0.5, 0.8]),
                            'all': st.booleans(), 'a': st.sampled_from([1, 0.7, 1.4]), 'b': st.sampled_from([1, 0.6, 1.5]), 'whitened': st.booleans()}),
     quick=250, thorough=12000, shards=8, timeout=300, rule="converged, and one more step of the iteration is well defined")
def fixed_points(case, ctx):
    """After convergence a further step of the textbook iteration, with the nonlinearity in effect at the end, leaves the filters."""
    g, fine, ap, mu = case['g'], case['fine'], case['approach'], case['mu']
    kind = case['kind']
    if 'skew' in (g, fine):
        kind, g = 'skew', 'skew'
        fine = 'skew' if fine else None
    s = src(rs(case['seed'], 21), case['n'], case['d'], kind)
    x = mixed(rs(case['seed'], 22), s)
    if case['whitened']:
        x = N.WhiteningNode()(x)
    limit = {'defl': 1e-6, 'symm': 1e-11}[ap]
    if fine:
        # the steps of the fine tuning are a hundred times smaller
        limit = {'defl': 1e-7, 'symm': 1e-13}[ap]

    def error(max_it_fine):
        gen.reseed(case['seed'] % 9973)
        node = N.FastICANode(approach=ap, g=g, fine_g=fine, mu=mu, limit=limit, fine_tanh=case['a'], fine_gaus=case['b'], max_it=6000,
                             max_it_fine=max_it_fine, sample_size=1 - 1e-12 if case['all'] else 1, whitened=case['whitened'])
        node.train(x)
        try:
            node.stop_training()
        except (mdp.NodeException, np.linalg.LinAlgError):
            return None
        X = x if case['whitened'] else node.white.execute(x)
        return fixed_point_error(node.filters, X, fine or g, case['a'], case['b'], ap, bool(fine) or mu != 1)
    e = error(20000)
    if e is None or not np.isfinite(e):
        ctx.label('no convergence or undefined step')
        return
    if e >= 1e-3 and fine and ap == 'defl':
        # perhaps the number of steps ended a slow fine tuning
        e2 = error(80000)
        if e2 is None or e2 < 0.8 * e:
            ctx.label('slow')
            return
    ctx.nontrivial()
    ctx.label('%s %s%s' % (ap, fine or g, ' fine' if fine else ''))
    check(e < 1e-3, "a further step of the %s iteration moves the filters by %g (limit %g)", fine or g, e, limit)


@sub(st.fixed_dictionaries({'seed': seeds, 'd': st.integers(2, 4), 'extra': st.integers(0, 2), 'approach': st.sampled_from(['defl', 'symm']),
                            'g': st.sampled_from(['pow3', 'tanh', 'gaus']), 'fine': st.sampled_from(['pow3', 'tanh', None]), 'whitened': st.booleans(),
                            'noise': st.sampled_from([0., 0.05])}),
     quick=150, thorough=6000, shards=2, timeout=120, rule="every case")
def good_guess(case, ctx):
    """Started from the mixing matrix itself, the components come in its order."""
    rng = rs(case['seed'], 23)
    d = case['d']
    s = src(rs(case['seed'], 24), 1500, d, 'sub')
    D = d + (0 if case['whitened'] else case['extra'])
    if case['whitened']:
        w = N.WhiteningNode()
        w.train(s)
        x = w.execute(s)
        # close to a rotation of the (nearly uncorrelated) sources
        A = np.linalg.lstsq(s, x, rcond=None)[0].T
    else:
        u = gen.rot(rng, D)[:, :d]
        A = u.dot(np.diag(np.linspace(1, 3, d))).dot(gen.rot(rng, d))
        x = s.dot(A.T) + 1e-4 * rng.normal(size=(len(s), D))
    guess = A * (1 + case['noise'] * rng.uniform(-1, 1, size=A.shape))
    keep = guess.copy()
    gen.reseed(case['seed'] % 9973)
    node = N.FastICANode(approach=case['approach'], g=case['g'], fine_g=case['fine'], guess=guess, whitened=case['whitened'],
                         **({'white_comp': d} if D > d else {}))
    node.train(x)
    node.stop_training()
    y = node.execute(x)
    c = np.abs(np.corrcoef(y.T, s.T)[:d, d:])
    check(np.array_equal(guess, keep), "the initial guess was modified")
    check(np.diag(c).min() > 0.9, "started from the mixing matrix, the components are in another order: correlations %s", c.round(2).tolist())
    ctx.nontrivial()


# ------------------------------------------------------------------ XSFA against the algorithm written out with plain linear algebra
def poly(x, deg):
    import itertools
    cols = []
    for k in range(1, deg + 1):
        for c in itertools.combinations_with_replacement(range(x.shape[1]), k):
            cols.append(np.prod(x[:, c], axis=1))
    return np.array(cols).T


class Skip(Exception):
    pass


def white_ref(x, keep=None):
    """Whitened data, dropping rounding-level directions; unclear ranks are refused."""
    n = len(x)
    c = np.cov(x.T, bias=False).reshape(x.shape[1], x.shape[1])
    w, v = np.linalg.eigh(c)
    w, v = w[::-1], v[:, ::-1]
    rel = w / w[0]
    if np.any((rel > 1e-15) & (rel < 1e-9)) or np.any((w > 1e-14) & (w < 1e-10)):
        raise Skip
    k = int(np.sum((rel > 1e-9) & (w > 1e-10)))
    return (x - x.mean(axis=0)).dot(v[:, :k]) / np.sqrt(w[:k])


def sfa_outputs(x, sizes):
    n = len(x)
    z = x - x.mean(axis=0)
    B = z.T.dot(z) / (n - 1)
    A = np.zeros_like(B)
    i = 0
    m = 0
    for s in sizes:
        dx = np.diff(x[i:i + s], axis=0)
        A += dx.T.dot(dx)
        m += len(dx)
        i += s
    A /= m
    wb, vb = np.linalg.eigh(B)
    if wb[0] < 1e-9 * wb[-1]:
        raise Skip
    W = vb / np.sqrt(wb)
    wa, va = np.linalg.eigh(W.T.dot(A).dot(W))
    return z.dot(W.dot(va)), wa


@sub(st.fixed_dictionaries({'seed': seeds, 'n': st.integers(250, 700), 'd': st.sampled_from([2, 2, 3]), 'basic': st.sampled_from([0, 1, 2, 2, 3]),
                            'intern': st.sampled_from([0, 1, 2, 3]), 'od': st.sampled_from([None, 1, 2, 3, 4]), 'nch': st.integers(1, 3), 'svd': st.booleans()}),
     quick=150, thorough=3000, timeout=120, rule="more than one source compared")
def xsfa_ref(case, ctx):
    """Each source is the slowest feature of what is left once the expanded earlier sources are projected out."""
    rng = rs(case['seed'], 12)
    n, d = case['n'], case['d']
    t = np.arange(n) / float(n)
    s = np.array([np.sin(2 * np.pi * f * (0.8 + 0.4 * rng.rand()) * t + rng.rand() * 6) for f in (2, 7, 17)[:d]]).T + 0.15 * rng.normal(size=(n, d))
    x = s.dot(gen.rot(rng, d)) + 0.3 * rng.normal(size=d)
    basic, intern = case['basic'], case['intern']
    if d == 3 and basic == 3:
        basic = 2
    P = N.PolynomialExpansionNode
    full = poly(x, basic or 2).shape[1]
    od = min(case['od'] or d, full)
    if not intern and od > 2:
        intern = 2
    kw = {}
    if basic:
        kw['basic_exp'] = (P, (basic,), {})
    if intern:
        kw['intern_exp'] = (P, (intern,), {})
    if case['od'] is not None:
        kw['output_dim'] = od
    sizes = gen.cuts(rng, n, case['nch'], mn=60)
    # reference
    z = poly(x, basic or 2)
    srcs = []
    try:
        cur = z
        left = od
        while left:
            y, slow = sfa_outputs(cur, sizes)
            if len(slow) > 1 and slow[1] - slow[0] < 1e-2 * slow[1]:
                raise Skip
            srcs.append(y[:, 0])
            left -= 1
            if not left:
                break
            rest = y[:, 1:]
            if rest.shape[1] < 1:
                raise Skip
            e = poly(np.array(srcs).T, intern or 10)
            e = (e - e.mean(axis=0)) / e.std(axis=0, ddof=1)
            e = white_ref(e)
            rest = rest - e.dot(e.T.dot(rest) / (n - 1))
            cur = white_ref(rest)
            if cur.shape[1] < 1:
                raise Skip
    except Skip:
        ctx.label('rank or slowness not clear')
        return
    ref = np.array(srcs).T
    node = N.XSFANode(svd=case['svd'], **kw)
    mdp.Flow([node]).train([gen.split(x, sizes)])
    check(node.output_dim == od, "output_dim %s, not %d", node.output_dim, od)
    y = node.execute(x)
    check(y.shape == (n, od), "shape %s", y.shape)
    for i in range(od):
        a, b = y[:, i], ref[:, i]
        if a.dot(b) < 0:
            b = -b
        close(a, b, 1e-4, "source %d of %d is not the slowest feature left" % (i, od))
    ctx.label('od%d' % od)
    ctx.label('basic%s' % case['basic'])
    ctx.nontrivial(od > 1)
