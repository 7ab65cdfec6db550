"""Slow feature nodes against an independent generalised eigenvalue solution (numpy/scipy) built from the definition."""
import numpy as np
import mdp
from lib.harness import sub, check, close, st, raises
from lib import gen
from lib.gen import seeds, rs


def series(case, rng, n, d):
    k = case['kind']
    if k == 'slow':
        x = gen.slow(rng, n, d, noise=0.1)
    elif k == 'noise':
        x = gen.spectral(rng, n, d, ratio=1.3)
    else:
        x = rng.normal(size=(n, d)).cumsum(axis=0) * 0.3 + rng.normal(size=(n, d))
    return x * case.get('scale', 1.)


def gen_eig(A, B):
    """Ascending generalised eigenvalues of A v = l B v on the range of B."""
    w, u = np.linalg.eigh(B)
    keep = w > w[-1] * 1e-9
    S = u[:, keep] / np.sqrt(w[keep])
    e, v = np.linalg.eigh(S.T.dot(A).dot(S))
    return e, S.dot(v)


def verify(node, A, B, mean, x, k, tol, ctx, rank=None):
    """node: trained; A, B reference matrices; k expected columns."""
    e, v = gen_eig(A, B)
    d = np.asarray(node.d, 'd').ravel()
    check(d.shape == (k,), "%s delta values for %d components", d.shape, k)
    top = max(e[-1], 1e-30)
    close(d, e[:k], tol, "delta values are not the smallest attainable", scale=top)
    check(np.all(np.diff(d) >= -tol * top), "not ordered from slow to fast: %s" % d)
    sf = np.asarray(node.sf, 'd')
    check(sf.shape == (len(A), k), "filter matrix shape %s", sf.shape)
    cond = 1.
    close(sf.T.dot(B).dot(sf), np.eye(k), tol * 10, "outputs are not decorrelated with unit variance")
    close(sf.T.dot(A).dot(sf), np.diag(d), tol * 10, "squared derivatives of the outputs", scale=top)
    y = np.asarray(node.execute(x), 'd')
    want = (x.astype('d') - mean).dot(sf)
    sc = max(1., np.abs(want).max(), np.abs(x).max() * np.abs(sf).max())
    close(y, want, tol * 10, "execution", scale=sc)
    close(np.ravel(node.avg).astype('d'), mean, tol, "mean", scale=max(np.abs(mean).max(), np.abs(x).max()))
    for t in (1, 7.5):
        close(np.asarray(node.get_eta_values(t), 'd').ravel(), t / (2 * np.pi) * np.sqrt(d), tol, "eta values",
              scale=max(1e-12, t * np.sqrt(top)))
    close(np.ravel(node.get_eta_values()), np.ravel(node.get_eta_values(t=1)), 0, "default sampling rate")
    return y, sf


BASE = {
    'seed': seeds, 'd': st.sampled_from([1, 2, 3, 4, 5, 5, 9]), 'n': st.one_of(st.integers(0, 80), st.integers(0, 80), st.integers(81, 300)), 'nch': st.sampled_from([1, 2, 3, 4, 4, 9]),
    'kind': st.sampled_from(['slow', 'noise', 'walk']), 'od': st.one_of(st.none(), st.integers(1, 5)),
    'scale': st.sampled_from([1., 1., 10., 0.1]),
}


@sub(st.fixed_dictionaries(dict(
    BASE, f32=st.booleans(), incl=st.booleans(), override=st.lists(st.sampled_from([None, True, False]), max_size=4),
    method=st.sampled_from(['none', 'none', 'pca', 'svd', 'ldl', 'reg', 'auto']), late=st.booleans(),
    closing=st.sampled_from(['stop', 'exec', 'eta']))),
     quick=2500, thorough=60000, shards=6, rule="at least two input dimensions and ten samples")
def sfa(case, ctx):
    rng = rs(case['seed'], 1)
    d = case['d']
    n = case['n'] + 3 * d + 6
    x = series(case, rng, n, d)
    tol = 1e-6
    if case['f32'] and case['scale'] == 1. and case['method'] == 'none':
        x = x.astype('f')
        tol = 2e-2
    od = case['od'] if case['od'] is None or case['od'] <= d else None
    node = mdp.nodes.SFANode(output_dim=od, include_last_sample=case['incl'],
                             rank_deficit_method='none' if case['late'] else case['method'])
    if case['late']:
        node.set_rank_deficit_method(case['method'])
    chunks = gen.split(x, gen.cuts(rng, n, case['nch'], mn=2))
    kept, der = [], []
    for i, ch in enumerate(chunks):
        ov = case['override'][i] if i < len(case['override']) else None
        if ov is None:
            node.train(ch)
        elif case['seed'] % 2:
            node.train(ch, ov)
        else:
            node.train(ch, include_last_sample=ov)
        inc = case['incl'] if ov is None else ov
        kept.append(ch if inc else ch[:-1])
        der.append(ch[1:] - ch[:-1])
    kept = np.concatenate(kept).astype('d')
    der = np.concatenate(der).astype('d')
    B = np.atleast_2d(np.cov(kept.T))
    A = der.T.dot(der) / (len(der) - 1.)
    w = np.linalg.eigvalsh(B)
    if w[0] < 1e-4 * w[-1]:
        return
    if case['closing'] == 'stop':
        node.stop_training()
    elif case['closing'] == 'exec':
        node.execute(x[:1])
    else:
        node.get_eta_values()
    check(not node.is_training(), "training is closed")
    k = d if od is None else od
    check(node.output_dim == k, "output dimension %s instead of %s", node.output_dim, k)
    check(node.tlen == len(kept), "tlen %s for %d samples", node.tlen, len(kept))
    y, sf = verify(node, A, B, kept.mean(axis=0), x, k, tol, ctx)
    if all(len(a) == len(b) for a, b in [(kept, x)]):
        yk = y - y.mean(axis=0)
        close(yk.T.dot(yk) / (n - 1.), np.eye(k), tol * 100, "training output is not white")
        if tol < 1e-3:
            close(y.mean(axis=0), np.zeros(k), 1e-7 * (1 + np.abs(x).max() * np.abs(sf).max()), "output mean")
    n1 = 1 + case['seed'] % k
    close(node.execute(x, n1), y[:, :n1], 1e-4 if tol > 1e-3 else 1e-9, "first n components",
          scale=max(1., np.abs(y).max()))
    rec = np.asarray(node.inverse(node.execute(x)), 'd')
    sc = max(1., np.abs(x).max())
    if tol < 1e-3:
        if k == d:
            close(rec, x, 1e-6, "inverse with all components", scale=sc)
        else:
            close(node.execute(rec), y, 1e-5, "inverse is a right inverse", scale=max(1., np.abs(y).max()))
    close(node.time_derivative(x), x[1:] - x[:-1], 0, "time_derivative")
    ctx.label(case['method'])
    ctx.nontrivial(d > 1 and n >= 10)


@sub(st.fixed_dictionaries({
    'seed': seeds, 'd': st.integers(2, 6), 'rank': st.integers(1, 5), 'n': st.integers(10, 60),
    'kind': st.sampled_from(['slow', 'noise', 'walk']), 'od': st.one_of(st.none(), st.integers(1, 5)),
    'how': st.sampled_from(['mix', 'const', 'dup']),
    'method': st.sampled_from(['pca', 'svd', 'ldl', 'reg', 'auto'])}),
     quick=800, thorough=20000, shards=2, rule="covariance of lower rank than the input dimension")
def deficient(case, ctx):
    rng = rs(case['seed'], 2)
    d = case['d']
    r = min(case['rank'], d - 1)
    n = case['n'] + 3 * r
    z = series(case, rng, n, r)
    z = (z - z.mean(axis=0)) / z.std(axis=0)
    if case['how'] == 'mix':
        q = gen.rot(rng, d)[:r] * (0.7 + 0.6 * rng.rand(r, 1))
        x = z.dot(q) + rng.normal(size=d)
    elif case['how'] == 'const':
        x = np.zeros((n, d)) + (rng.randint(0, 2, size=d) * 1.5)
        x[:, rng.permutation(d)[:r]] = z
    else:
        x = z[:, rng.randint(0, r, size=d)]
        x[:, rng.permutation(d)[:r]] = z
    B = np.cov(x.T)
    w = np.linalg.eigvalsh(B)
    if w[d - r] < 1e-2 * w[-1] or w[d - r - 1] > 1e-13:
        return
    der = x[1:] - x[:-1]
    A = der.T.dot(der) / (n - 2.)
    od = case['od']
    if od is not None:
        od = min(od, r)
    if case['method'] == 'ldl' and case['how'] != 'const':
        # the indefinite factorisation loses digits on general singular matrices
        # (documented: "each of them can fail due to ill-conditioned data")
        return
    node = mdp.nodes.SFANode(output_dim=od, rank_deficit_method=case['method'])
    node.train(x)
    node.stop_training()
    tol = 1e-5
    y = node.execute(x)
    k = r if od is None else od
    check(y.shape[1] == k, "%d components for data of rank %d and output_dim %s", y.shape[1], r, od)
    verify(node, A, B, x.mean(axis=0), x, k, tol, ctx)
    check(node.output_dim == k, "announced output dimension %s, but %d columns are returned", node.output_dim, k)
    if od is None:
        if case['method'] in ('pca', 'svd', 'auto'):
            close(node.inverse(y), x, 1e-5, "inverse of data of lower rank", scale=1 + np.abs(x).max())
        else:
            # filters may lie outside the space of the data: only a right inverse
            close(node.execute(node.inverse(y)), y, 1e-5, "execution of the inverse", scale=1 + np.abs(y).max())
        check(node.rank_deficit == d - r, "rank deficit %s instead of %s", node.rank_deficit, d - r)
    ctx.label(case['method'])
    ctx.nontrivial()


@sub(st.fixed_dictionaries({'seed': seeds, 'd': st.integers(2, 5), 'how': st.sampled_from(['few', 'dup', 'mix']),
                            'n': st.integers(2, 40)}),
     quick=200, thorough=3000, rule="singular covariance with the default solver: refused or answered correctly")
def singular(case, ctx):
    rng = rs(case['seed'], 3)
    d, n = case['d'], case['n']
    if case['how'] == 'few':
        n = min(n, d)
        x = rng.normal(size=(n, d))
    elif case['how'] == 'dup':
        x = rng.normal(size=(n, d))
        x[:, -1] = x[:, 0]
    else:
        x = rng.normal(size=(n, d - 1)).dot(rng.normal(size=(d - 1, d)))
    node = mdp.nodes.SFANode()
    node.train(x)
    try:
        node.stop_training()
    except mdp.NodeException:
        # documented recovery: choose a robust solver and stop again, which is equivalent to having chosen it before
        meth = ['pca', 'svd', 'auto', 'reg'][case['seed'] % 4]
        other = mdp.nodes.SFANode(rank_deficit_method=meth)
        other.train(x)
        try:
            other.stop_training()
        except Exception as e:
            # too degenerate for that method, too
            raises(type(e), lambda: (node.set_rank_deficit_method(meth), node.stop_training()), "second attempt")
            return
        node.set_rank_deficit_method(meth)
        node.stop_training()
        check(not node.is_training(), "training still open")
        y = node.execute(x)
        check(np.all(np.isfinite(y)), "recovered solution is not finite")
        check(node.output_dim == other.output_dim == y.shape[1], "output dimension %s, %s with the method chosen before", node.output_dim, other.output_dim)
        close(np.ravel(node.d), np.ravel(other.d), 1e-6, "delta values after choosing another method", scale=1 + np.abs(other.d).max())
        check(node.tlen == n, "tlen %s", node.tlen)
        ctx.label('refused')
        ctx.nontrivial()
        return
    ctx.label('accepted')


@sub(st.fixed_dictionaries(dict(BASE, od=st.one_of(st.none(), st.integers(1, 20)), d=st.integers(1, 4),
                                incl=st.booleans(), f32=st.booleans(), q=st.integers(0, 30))),
     quick=700, thorough=15000, shards=2, rule="at least two input dimensions")
def sfa2(case, ctx):
    rng = rs(case['seed'], 4)
    d = case['d']
    nf = d + d * (d + 1) // 2
    n = case['n'] + 4 * nf + 6
    x = series(dict(case, scale=1.), rng, n, d)
    x = (x - x.mean(axis=0)) / x.std(axis=0)
    chunks = gen.split(x, gen.cuts(rng, n, case['nch'], mn=2))
    cols = [x[:, i] for i in range(d)] + [x[:, i] * x[:, j] for i in range(d) for j in range(i, d)]
    ex = np.array(cols).T
    ech = gen.split(ex, [len(c) for c in chunks])
    kept = np.concatenate([e if case['incl'] else e[:-1] for e in ech])
    der = np.concatenate([e[1:] - e[:-1] for e in ech])
    B = np.atleast_2d(np.cov(kept.T))
    A = der.T.dot(der) / (len(der) - 1.)
    w = np.linalg.eigvalsh(B)
    if w[0] < 1e-4 * w[-1]:
        return
    od = case['od'] if case['od'] is None or case['od'] <= nf else None
    node = mdp.nodes.SFA2Node(output_dim=od, include_last_sample=case['incl'])
    for c in chunks:
        node.train(c)
    k = od or nf
    if case['seed'] % 3 == 0:
        node.get_quadratic_form(0)
        check(not node.is_training(), "get_quadratic_form closes training")
    else:
        node.stop_training()
    check(node.output_dim == k, "output dimension %s instead of %s", node.output_dim, k)
    e, v = gen_eig(A, B)
    close(np.ravel(node.d), e[:k], 1e-6, "delta values", scale=e[-1])
    y = node.execute(x)
    yk = np.concatenate([c if case['incl'] else c[:-1] for c in gen.split(y, [len(c) for c in chunks])])
    close(np.atleast_2d(np.cov(yk.T)), np.eye(k), 1e-5, "output covariance")
    close(yk.mean(axis=0), np.zeros(k), 1e-6, "output mean")
    dy = np.concatenate([c[1:] - c[:-1] for c in gen.split(y, [len(c) for c in chunks])])
    close((dy ** 2).sum(axis=0) / (len(dy) - 1.), e[:k], 1e-5, "squared derivatives", scale=e[-1])
    z = rng.normal(size=(7, d)) * 2
    yz = node.execute(z)
    nrs = range(k) if case['q'] % 3 == 0 else [case['q'] % k]
    for nr in nrs:
        q = node.get_quadratic_form(nr)
        close(q.apply(z), yz[:, nr], 1e-8, "quadratic form %d" % nr, scale=1 + np.abs(yz).max() + abs(float(q.c)))
        man = np.array([0.5 * v.dot(np.asarray(q.H)).dot(v) + np.asarray(q.f).dot(v) + q.c for v in z])
        close(man, yz[:, nr], 1e-8, "quadratic form matrices %d" % nr, scale=1 + np.abs(yz).max() + abs(float(q.c)))
    n1 = 1 + case['seed'] % k
    close(node.execute(z, n1), yz[:, :n1], 1e-9, "first n", scale=1 + np.abs(yz).max())
    ctx.nontrivial(d > 1)


def trapz(x, dt):
    """Trapezoid time integrals: total time, integral of x, integral of xx^T; dt: steps between rows."""
    w = np.zeros(len(x))
    w[:-1] += dt / 2.
    w[1:] += dt / 2.
    return dt.sum(), w.dot(x), (x * w[:, None]).T.dot(x)


@sub(st.fixed_dictionaries(dict(
    BASE, mode=st.sampled_from(['none', 'const', 'array', 'mixed']), dep=st.booleans(), dts=seeds,
    full=st.booleans())),
     quick=1000, thorough=25000, shards=2, rule="at least two chunks or an array of unequal time steps")
def vartime(case, ctx):
    rng = rs(case['seed'], 5)
    d = case['d']
    n = case['n'] + 4 * d + 8
    x = series(dict(case, scale=1.), rng, n, d)
    sizes = gen.cuts(rng, n, case['nch'], mn=2 if case['dep'] else 3)
    chunks = gen.split(x, sizes)
    r2 = rs(case['dts'], 6)
    od = case['od'] if case['od'] is None or case['od'] <= d else None
    node = mdp.nodes.VartimeSFANode(output_dim=od)
    T, I, Q = 0., 0., 0.
    Td, Qd = 0., 0.
    xlast, dlast = None, None
    for i, ch in enumerate(chunks):
        m = len(ch)
        mode = case['mode'] if case['mode'] != 'mixed' else ['none', 'const', 'array'][r2.randint(3)]
        joined = case['dep'] and i > 0
        if mode == 'none':
            arg = None
            steps = np.ones(m)
        elif mode == 'const':
            arg = float(np.round(0.2 + 2 * r2.rand(), 3))
            steps = np.zeros(m) + arg
        else:
            steps = 0.2 + 2 * r2.rand(m)
            if joined:
                arg = steps.copy()
            elif i == 0 and case['full']:
                arg = steps.copy()      # first entry is documented to be disregarded
            else:
                arg = steps[1:].copy()
        keep = None if arg is None or np.isscalar(arg) else arg.copy()
        if arg is None:
            node.train(ch, time_dep=case['dep']) if i else node.train(ch)
        else:
            node.train(ch, dt=arg, time_dep=case['dep'])
        if keep is not None:
            close(arg, keep, 0, "time steps of the caller were changed")
        # reference: the (joined) piecewise linear curve
        xs = ch if not joined else np.concatenate([[xlast], ch])
        ds = steps if joined else steps[1:]
        t, a, b = trapz(xs, ds)
        T, I, Q = T + t, I + a, Q + b
        der = (xs[1:] - xs[:-1]) / ds[:, None]
        # derivative samples: their integral uses the steps between them
        if joined:
            dd = np.concatenate([[dlast], der])
            t, a, b = trapz(dd, ds)
        else:
            t, a, b = trapz(der, ds[1:])
        Td, Qd = Td + t, Qd + b
        xlast, dlast = ch[-1], der[-1]
    mean = I / T
    B = Q / T - np.outer(mean, mean)
    A = Qd / Td
    w = np.linalg.eigvalsh(B)
    if w[0] < 1e-4 * w[-1]:
        return
    node.stop_training()
    k = od or d
    check(node.output_dim == k, "output dimension")
    verify(node, A, B, mean, x, k, 1e-6, ctx)
    close(float(node.tlen), T, 1e-9, "total time", scale=T)
    ctx.label(case['mode'])
    ctx.nontrivial(len(chunks) > 1 or case['mode'] == 'array')


@sub(st.fixed_dictionaries(dict(BASE, bad=st.sampled_from(['zero', 'neg', 'short', 'long', 'one']),
                                then=st.booleans())),
     quick=200, thorough=3000, rule="inadmissible time steps or single samples are refused")
def vartime_bad(case, ctx):
    rng = rs(case['seed'], 7)
    d = case['d']
    n = case['n'] + 8
    x = series(case, rng, n, d)
    node = mdp.nodes.VartimeSFANode()
    b = case['bad']
    if b == 'zero':
        raises(Exception, lambda: node.train(x, dt=0), "zero step")
    elif b == 'neg':
        raises(Exception, lambda: node.train(x, dt=-1.), "negative step")
    elif b == 'short':
        raises(Exception, lambda: node.train(x, dt=np.ones(n - 2)), "too few steps")
    elif b == 'long':
        raises(Exception, lambda: node.train(x, dt=np.ones(n + 1)), "too many steps")
    else:
        raises(mdp.TrainingException, lambda: node.train(x[:1]), "one sample")
        raises(mdp.TrainingException, lambda: mdp.nodes.SFANode().train(x[:1]), "one sample")
    ctx.nontrivial()


@sub(st.fixed_dictionaries(dict(BASE, n=st.integers(5, 80), f32=st.booleans())),
     quick=500, thorough=10000, rule="at least two chunks")
def eta(case, ctx):
    rng = rs(case['seed'], 8)
    d = case['d']
    n = case['n'] + 3 * d
    x = series(case, rng, n, d)
    x[:, 0] += 3.
    if case['f32']:
        x = x.astype('f')
    chunks = gen.split(x, gen.cuts(rng, n, case['nch'], mn=2))
    node = mdp.nodes.EtaComputerNode()
    for c in chunks:
        node.train(c)
    if case['seed'] % 2:
        node.stop_training()
    xs = [c.astype('d') for c in chunks]
    kept = np.concatenate([c[:-1] for c in xs])
    der = np.concatenate([c[1:] - c[:-1] for c in xs])
    if len(kept) < 3:
        return
    var = kept.var(axis=0, ddof=1)
    delta = (der ** 2).mean(axis=0) / var
    tol = 1e-3 if case['f32'] else 1e-8
    for t in (1, 3, 250.):
        close(np.ravel(node.get_eta(t)).astype('d'), t * np.sqrt(delta) / (2 * np.pi), tol, "eta values",
              scale=t * np.sqrt(delta.max()))
    close(np.ravel(node.get_eta()), np.ravel(node.get_eta(t=1)), 0, "default t")
    close(node.execute(x), x, 0, "eta computer passes data through")
    if not case['f32']:
        B = np.atleast_2d(np.cov(kept.T))
        w = np.linalg.eigvalsh(B)
        if w[0] > 1e-4 * w[-1]:
            # agreement with the slow feature node on its own outputs
            sfa_ = mdp.nodes.SFANode(include_last_sample=False)
            for c in chunks:
                sfa_.train(c)
            sfa_.stop_training()
            e2 = mdp.nodes.EtaComputerNode()
            for c in chunks:
                e2.train(sfa_.execute(c))
            m = float(len(kept))
            close(np.ravel(e2.get_eta(2)) * np.sqrt(m / (m - 1)), np.ravel(sfa_.get_eta_values(2)), 1e-6,
                  "eta values of slow features")
    ctx.nontrivial(len(chunks) > 1)


@sub(st.fixed_dictionaries({'seed': seeds, 'N': st.integers(1, 12), 'len': st.integers(200, 2000), 'a': st.floats(0.1, 50.),
                            'o': st.floats(-5, 5)}),
     quick=100, thorough=2000, rule="sine wave of N oscillations")
def sine(case, ctx):
    T = case['len']
    t = np.arange(T + 1) / float(T)
    x = (case['a'] * np.sin(2 * np.pi * case['N'] * t) + case['o'])[:, None]
    node = mdp.nodes.EtaComputerNode()
    node.train(x)
    got = float(np.ravel(node.get_eta(T))[0])
    check(abs(got - case['N']) < 0.03 * case['N'] + 0.01, "eta of %d oscillations is %s", case['N'], got)
    s = mdp.nodes.SFANode()
    s.train(x)
    got = float(np.ravel(s.get_eta_values(T))[0])
    check(abs(got - case['N']) < 0.03 * case['N'] + 0.01, "eta of %d oscillations is %s", case['N'], got)
    ctx.nontrivial(case['N'] > 1)
