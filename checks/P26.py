"""Online algorithms against their published recursions written out in numpy, their batch counterparts and equal seeds."""
import numpy as np
import mdp
from mdp import nodes, hinet
from lib.harness import sub, check, close, st, raises
from lib import gen
from lib.gen import seeds, rs


# ------------------------------------------------------------------ reference recursions
class Center(object):
    def __init__(self, avg_n, d):
        self.avg_n, self.n, self.avg = avg_n, 0, np.zeros(d)

    def step(self, x):
        if self.avg_n is None:
            a = 1. / (self.n + 1)
        else:
            a = 2. / (self.avg_n + 1) if self.n else 1.
        self.avg = a * x + (1 - a) * self.avg
        self.n += 1

    def ex(self, x):
        return x if self.n <= 1 else x - self.avg


class Ccipca(object):
    def __init__(self, v, amn, white=False):
        self.u = np.array(v, dtype=float)
        self.lam = np.sqrt((self.u ** 2).sum(axis=0))
        self.v = self.u / self.lam
        self.amn, self.n, self.white = amn, 0, white

    def step(self, x):
        n1, n2, m, c = self.amn
        n = self.n + 2.            # the initial vector counts as one observation
        l = 0. if n < n1 else (c * (n - n1) / (n2 - n1) if n < n2 else c + (n - n2) / m)
        wo, wn = (n - 1 - l) / n, (1 + l) / n
        r = x.copy()
        for j in range(self.u.shape[1]):
            u = wo * self.u[:, j] + wn * r * r.dot(self.u[:, j]) / self.lam[j]
            self.lam[j] = np.sqrt(u.dot(u))
            self.u[:, j] = u
            e = u / self.lam[j]
            r = r - r.dot(e) * e
        self.v = self.u / self.lam
        if self.white:
            self.v = self.v / np.sqrt(self.lam)
        self.n += 1


class Mca(object):
    def __init__(self, v, eps, gamma=1., normalize=True):
        self.v = np.array(v, dtype=float)
        self.d = np.sqrt((self.v ** 2).sum(axis=0))
        self.eps, self.gamma, self.normalize = eps, gamma, normalize

    def step(self, x):
        c = x.T.dot(x)
        for j in range(self.v.shape[1]):
            eta = self.eps / (1 + j * 1.2)
            v = self.v[:, j]
            q = 1. if self.normalize else self.d[j] ** 2
            v = (1.5 - eta * q) * v - eta * c.dot(v)
            l = v.dot(v)
            c = c + self.gamma * np.outer(v, v) / l
            self.d[j] = np.sqrt(l)
            self.v[:, j] = v / self.d[j] if self.normalize else v


class Incsfa(object):
    def __init__(self, d, pv, mv, eps, avg_n, amn, mean):
        self.c = Center(avg_n, d) if mean else None
        self.w = Ccipca(pv, amn, True)
        self.m = Mca(mv, eps)
        self.prev = None
        self.first = True
        self.sf = np.array(pv).dot(mv)
        self.change = 0.

    def step(self, x, new=None):
        if new is None:
            new = self.first
        self.first = False
        if self.c:
            self.c.step(x)
            x = self.c.ex(x)
        self.w.step(x)
        z = x.dot(self.w.v)
        prev, self.prev = self.prev, z
        self.change = 0.
        if new:
            return
        self.m.step((z - prev)[None, :])
        sf = self.w.v.dot(self.m.v)
        self.change = np.sqrt(((sf - self.sf) ** 2).sum())
        self.sf = sf


def stream(case, d, scale=1.):
    r = rs(case['s'], 11)
    n = case['n']
    x = r.normal(size=(n, d)) * (.4 + r.rand(d)) * scale
    if r.rand() < .5:
        x = x.dot(gen.rot(r, d))
    if r.rand() < .5:
        x = x + r.normal(size=d) * scale
    return x


def pieces(case, x):
    return gen.split(x, gen.cuts(rs(case['s'], 5), len(x), case['k']))


def tol_of(case):
    return 1e-7 if not case.get('f32') else 5e-3


def cl(a, b, tol, msg):
    b = np.asarray(b)
    check(np.shape(a) == b.shape, '%s: shape %s, expected %s' % (msg, np.shape(a), b.shape))
    close(a, b, tol, msg, scale=1e-300 + np.abs(b).max())


AMN = [(20, 200, 2000, 3), (3, 10, 20, 2), (4, 14, 100, 3), (5, 6, 50, 1), (1000, 2000, 10, 2)]
base = dict(s=seeds, n=st.one_of(*([st.integers(2, 60)] * 6 + [st.sampled_from([130, 300])])), k=st.one_of(*([st.integers(1, 8)] * 6 + [st.sampled_from([20, 60])])), d=st.one_of(*([st.integers(1, 5)] * 6 + [st.sampled_from([8, 12])]))) if st else {}


@sub(st.fixed_dictionaries(dict(base, avg_n=st.one_of(st.none(), st.integers(1, 30)), f32=st.booleans())),
     quick=80, thorough=2500, rule='more than three samples')
def centering(case, ctx):
    d = case['d']
    x = stream(case, d, 3.)
    if case['f32']:
        x = x.astype('f')
    n = nodes.OnlineCenteringNode(avg_n=case['avg_n'])
    ref = Center(case['avg_n'], d)
    for p in pieces(case, x):
        n.train(p)
        for q in p:
            ref.step(q.astype('d'))
        cl(np.asarray(n.get_average()).ravel(), ref.avg, tol_of(case) if case['f32'] else 1e-9, 'average')
        if ref.n > 1:
            y = n.execute(x)
            check(y.dtype == x.dtype, 'dtype')
            close(y, x - ref.avg, tol_of(case), 'centered data', scale=1 + np.abs(x).max())
            close(n.inverse(y), x, tol_of(case), 'inverse', scale=1 + np.abs(x).max())
    if case['avg_n'] is None:
        close(np.asarray(n.get_average()).ravel(), x.mean(axis=0), tol_of(case), 'mean of the stream', scale=1 + np.abs(x).max())
    raises((mdp.MDPException,), lambda: nodes.OnlineCenteringNode().set_training_type('batch'), 'centering by batches')
    ctx.nontrivial(len(x) > 3)
    ctx.label('ema' if case['avg_n'] else 'mean')


@sub(st.fixed_dictionaries(dict(base, batch=st.booleans(), f32=st.booleans())),
     quick=60, thorough=2000, rule='more than one chunk')
def time_diff(case, ctx):
    d = case['d']
    x = stream(case, d)
    if case['f32']:
        x = x.astype('f')
    n = nodes.OnlineTimeDiffNode()
    if case['batch']:
        n.set_training_type('batch')
    rows = []
    prev = np.zeros(d)
    cnt = 0
    for p in pieces(case, x):
        n.train(p)
        if case['batch']:
            # the block itself is differentiated, its first row against the last one of the block before
            full = np.vstack((prev[None, :], p))
            y = n.execute(p)
        else:
            full = np.vstack((x[cnt + len(p) - 2][None, :] if cnt + len(p) > 1 else np.zeros((1, d)), x[cnt + len(p) - 1:]))
            y = n.execute(x[cnt + len(p) - 1:])
        exp = full[1:] - full[:-1]
        cl(y, exp, 1e-6 if case['f32'] else 1e-12, 'difference')
        check(y.dtype == x.dtype, 'dtype')
        again = n.execute(p)
        check(np.array_equal(again, n.execute(p)), 'executing changed the buffer')
        prev = p[-1]
        cnt += len(p)
    check(not n.is_invertible(), 'invertible')
    ctx.nontrivial(cnt > len(p))
    ctx.label('batch' if case['batch'] else 'incremental')


@sub(st.fixed_dictionaries(dict(base, o=st.integers(1, 5), amn=st.sampled_from(AMN), white=st.booleans(), f32=st.booleans(),
                                init=st.sampled_from([None, 'arg', 'set', 'int']), batch=st.booleans(), rel=st.sampled_from([1, .9, .5]))),
     quick=150, thorough=5000, rule='more samples than the first amnesic limit or several components')
def ccipca(case, ctx):
    d, o = case['d'], min(case['o'], case['d'])
    x = stream(case, d, 2.)
    f32 = case['f32']
    if f32:
        x = x.astype('f')
    r = rs(case['s'], 3)
    v0 = r.normal(size=(d, o)) * .3
    if case['init'] == 'int':
        v0 = np.eye(d, dtype=int)[:, :o]
    cls = nodes.CCIPCAWhiteningNode if case['white'] else nodes.CCIPCANode
    kw = dict(amn_params=case['amn'], var_rel=case['rel'])
    if case['init'] in ('arg', 'int'):
        n = cls(init_eigen_vectors=v0.copy(), **kw)
    elif case['init'] == 'set':
        n = cls(**kw)
        n.init_eigen_vectors = v0.copy()
    else:
        n = cls(output_dim=o, numx_rng=np.random.RandomState(case['s'] % 1000), **kw)
    if case['batch']:
        n.set_training_type('batch')
    ref = None
    worst = 1.
    tol = tol_of(case)
    for p in pieces(case, x):
        n.train(p)
        if ref is None:
            start = np.array(n.init_eigen_vectors)
            check(start.shape == (d, o), 'initial vectors have shape %s' % (start.shape,))
            if case['init']:
                check(np.array_equal(start, v0.astype(start.dtype)), 'initial vectors changed')
            ref = Ccipca(start, case['amn'], case['white'])
        for q in p:
            ref.step(q.astype('d'))
            worst = min(worst, ref.lam.min() / ref.lam.max())
        if worst < (1e-2 if f32 else 1e-5):
            return             # ill-conditioned: rounding decides
        cl(n.d, ref.lam, tol, 'eigenvalues after %d samples' % ref.n)
        cl(n.v, ref.v, tol * 10, 'vectors after %d samples' % ref.n)
        check(n.v.dtype == x.dtype, 'dtype of the vectors is %s' % n.v.dtype)
        close(n.get_var_tot(), ref.lam.sum(), tol, 'total variance', scale=ref.lam.sum())
        y = n.execute(x)
        check(y.dtype == x.dtype, 'dtype')
        cl(y, x.astype('d').dot(ref.v), tol * 10, 'projection')
        k = 1 + case['s'] % o
        cl(n.execute(x, n=k), x.astype('d').dot(ref.v[:, :k]), tol * 10, 'projection on %d' % k)
        e = ref.u / ref.lam
        back = e * np.sqrt(ref.lam) if case['white'] else e
        cl(n.inverse(y), x.astype('d').dot(ref.v).dot(back.T), tol * 30, 'inverse')
        cl(n.inverse(y[:, :k]) if o == k else n.inverse(y, n=o), x.astype('d').dot(ref.v).dot(back.T), tol * 30, 'inverse with n')
        cl(n.get_projmatrix(), ref.v, tol * 10, 'projection matrix')
        cl(n.get_projmatrix(transposed=0), ref.v.T, tol * 10, 'projection matrix')
        cl(n.get_recmatrix(), back.T, tol * 10, 'reconstruction matrix')
        cl(n.get_recmatrix(transposed=0), back, tol * 10, 'reconstruction matrix')
        if case['white']:
            cl(n.get_eigenvectors(), e, tol * 10, 'eigenvectors')
        check(0 <= n.get_reduced_dimsensionality() <= o, 'reduced dimension')
    check(n.output_dim == o and n.input_dim == d, 'dimensions')
    ctx.nontrivial(len(x) + 1 > case['amn'][0] or o > 1)
    ctx.label('white' if case['white'] else 'pca')
    ctx.label('init %s' % case['init'])


@sub(st.fixed_dictionaries(dict(base, o=st.integers(1, 5), eps=st.sampled_from([.1, .05, .01, .3]), gamma=st.sampled_from([1., 2., .5, 4., 0.]),
                                normalize=st.booleans(), init=st.sampled_from([None, 'arg', 'set', 'int']), batch=st.booleans(), f32=st.booleans())),
     quick=150, thorough=5000, rule='several components')
def mca(case, ctx):
    d, o = case['d'], min(case['o'], case['d'])
    x = stream(case, d, .5)
    f32 = case['f32']
    if f32:
        x = x.astype('f')
    r = rs(case['s'], 3)
    v0 = r.normal(size=(d, o)) * .3
    if case['init'] == 'int':
        v0 = np.eye(d, dtype=int)[:, :o]
    kw = dict(eps=case['eps'], gamma=case['gamma'], normalize=case['normalize'])
    if case['init'] in ('arg', 'int'):
        n = nodes.MCANode(init_eigen_vectors=v0.copy(), **kw)
    elif case['init'] == 'set':
        n = nodes.MCANode(**kw)
        n.init_eigen_vectors = v0.copy()
    else:
        n = nodes.MCANode(output_dim=o, numx_rng=np.random.RandomState(case['s'] % 1000), **kw)
    if case['batch']:
        n.set_training_type('batch')
    ref = None
    cond = 1.
    for p in pieces(case, x):
        n.train(p)
        if ref is None:
            start = np.array(n.init_eigen_vectors)
            if case['init']:
                check(np.array_equal(start, v0.astype(start.dtype)), 'initial vectors changed')
            ref = Mca(start, case['eps'], case['gamma'], case['normalize'])
        for q in ([p] if case['batch'] else [p[i:i + 1] for i in range(len(p))]):
            ref.step(q.astype('d'))
            cond = max(cond, 1. / max(ref.d.min(), 1e-12))
            if not np.isfinite(ref.v).all() or np.abs(ref.v).max() > 1e4 or cond > 1e3:
                return             # the recursion itself diverges with this learning rate
        # a step can amplify rounding by 1.5 without being contracting
        tol = (1e-6 if not f32 else 5e-2)
        if f32 and len(x) > 20:
            return
        cl(n.v, ref.v, tol, 'vectors')
        cl(n.d, ref.d, tol, 'lengths')
        check(n.v.dtype == x.dtype, 'dtype of the vectors is %s' % n.v.dtype)
        y = n.execute(x)
        cl(y, x.astype('d').dot(ref.v), tol * 3, 'projection')
        k = 1 + case['s'] % o
        cl(n.execute(x, n=k), x.astype('d').dot(ref.v[:, :k]), tol * 3, 'projection on %d' % k)
        cl(n.inverse(y), y.astype('d').dot(ref.v.T), tol * 3, 'inverse')
        cl(n.get_projmatrix(), ref.v, tol, 'projection matrix')
        cl(n.get_recmatrix(), ref.v.T, tol, 'reconstruction matrix')
        cl(n.get_projmatrix(0), ref.v.T, tol, 'projection matrix')
        cl(n.get_recmatrix(0), ref.v, tol, 'reconstruction matrix')
    check(n.get_current_train_iteration() == len(x), 'sample count')
    ctx.nontrivial(o > 1 and len(x) > 3)
    ctx.label('batch' if case['batch'] else 'incremental')


@sub(st.fixed_dictionaries(dict(base, w=st.integers(1, 5), o=st.integers(1, 5), eps=st.sampled_from([.1, .05, .01]), amn=st.sampled_from(AMN),
                                mean=st.booleans(), avg_n=st.one_of(st.none(), st.integers(1, 20)), wgiven=st.booleans(), init=st.booleans(),
                                batch=st.booleans(), episodes=st.booleans())),
     quick=150, thorough=5000, rule='more than three samples')
def incsfa(case, ctx):
    d = case['d']
    w = min(case['w'], d) if case['wgiven'] else d
    o = min(case['o'], w)
    x = stream(case, d, 1.)
    x = x + np.cumsum(x, axis=0) * .2
    r = rs(case['s'], 3)
    kw = dict(eps=case['eps'], remove_mean=case['mean'], avg_n=case['avg_n'], amn_params=case['amn'])
    if case['wgiven']:
        kw['whitening_output_dim'] = w
    if case['init']:
        pv, mv = r.normal(size=(d, w)) * .3, r.normal(size=(w, o)) * .3
        kw.update(init_pca_vectors=pv.copy(), init_mca_vectors=mv.copy())
    else:
        kw['numx_rng'] = np.random.RandomState(case['s'] % 1000)
    n = nodes.IncSFANode(output_dim=o, **kw)
    if case['batch']:
        n.set_training_type('batch')
    ref = None
    ch = pieces(case, x)
    if case['batch'] and min(len(p) for p in ch) < 2:
        if len(ch[0]) < 2:
            raises((mdp.TrainingException,), lambda: n.train(ch[0]), 'a block of a single sample')
        ch = [x] if len(x) > 1 else []
    for i, p in enumerate(ch):
        new = None
        kwt = {}
        if case['episodes'] and not case['batch'] and i % 2 and len(p) == 1:
            new = True
            kwt = dict(new_episode=True)
        n.train(p, **kwt)
        if ref is None:
            if not case['init']:
                pv, mv = np.array(n.init_pca_vectors), np.array(n.init_mca_vectors)
            check(np.array_equal(n.init_pca_vectors, pv) and np.array_equal(n.init_mca_vectors, mv), 'initial vectors')
            cl(n.init_slow_features, pv.dot(mv), 1e-9, 'initial slow features')
            ref = Incsfa(d, pv, mv, case['eps'], case['avg_n'], case['amn'], case['mean'])
        if case['batch']:
            ref.first = True
        for q in p:
            ref.step(q, new)
            cond = max(1. / max(ref.m.d.min(), 1e-12), np.abs(ref.w.v).max(), 1. / ref.w.lam.min())
            if not np.isfinite(ref.sf).all() or cond > 300:
                return          # numerically unstable choice of parameters
        sc = np.abs(ref.w.v).max()
        close(n.wv, ref.w.v, 1e-6, 'whitening vectors', scale=sc)
        close(n.sf, ref.sf, 1e-5, 'slow features after %d samples' % (i + 1), scale=sc)
        close(n.sf_change, ref.change, 1e-5, 'change of the slow features', scale=sc)
        y = n.execute(x)
        close(y, (ref.c.ex(x) if ref.c else x).dot(ref.sf), 1e-5, 'execution', scale=sc * (1 + np.abs(x).max()))
        if np.linalg.cond(ref.sf) < 1e3:
            z = n.inverse(y)
            e = (ref.c.ex(x) if ref.c else x).dot(ref.sf).dot(np.linalg.pinv(ref.sf))
            close(z - (x - ref.c.ex(x) if ref.c else 0), e, 1e-4, 'inverse', scale=1 + np.abs(x).max() * 10)
    ctx.nontrivial(len(x) > 3 and ref is not None)
    ctx.label('batch' if case['batch'] else 'incremental')


# ------------------------------------------------------------------ convergence
def cosine(a, b):
    return np.abs((a * b).sum(axis=0)) / np.sqrt((a * a).sum(axis=0) * (b * b).sum(axis=0))


@sub(st.fixed_dictionaries(dict(s=seeds, d=st.integers(2, 4), white=st.booleans(), mean=st.booleans())),
     quick=12, thorough=200, rule='always')
def pca_limit(case, ctx):
    d = case['d']
    r = rs(case['s'])
    o = min(2, d)
    ok = None
    for n in (3000, 9000):
        x = gen.spectral(r, n, d, ratio=2.2, mean=False)
        x = x - x.mean(axis=0)
        node = (nodes.CCIPCAWhiteningNode if case['white'] else nodes.CCIPCANode)(output_dim=o, amn_params=(20, 200, 2000, 2), numx_rng=np.random.RandomState(case['s'] % 1000))
        if case['mean']:
            c = nodes.OnlineCenteringNode()
            mdp.OnlineFlow([c, node]).train(x + 0.)
        else:
            node.train(x)
        p = nodes.PCANode(output_dim=o)
        p.train(x)
        p.stop_training()
        cs = cosine(node.v, p.v)
        ratio = node.d / p.d
        ok = cs.min() > .97 and ratio.min() > .75 and ratio.max() < 1.3
        if ok and case['white']:
            var = node.execute(x).var(axis=0)
            ok = var.min() > .7 and var.max() < 1.4
        if ok:
            break
    check(ok, 'incremental components do not approach the batch ones: cosines %s, variance ratios %s' % (cs, ratio))
    ctx.nontrivial()


@sub(st.fixed_dictionaries(dict(s=seeds, d=st.integers(2, 4), o=st.integers(1, 3), normalize=st.booleans())),
     quick=10, thorough=150, rule='always')
def mca_limit(case, ctx):
    d = case['d']
    o = min(case['o'], d)
    r = rs(case['s'])
    ok = None
    for n, eps in ((8000, .02), (24000, .006)):
        x = gen.spectral(r, n, d, ratio=2.2, mean=False)
        x = (x - x.mean(axis=0)) * 1.2
        node = nodes.MCANode(eps=eps, gamma=4., normalize=case['normalize'], output_dim=o, numx_rng=np.random.RandomState(case['s'] % 1000))
        node.train(x)
        lam, v = np.linalg.eigh(x.T.dot(x) / n)
        cs = cosine(node.v, v[:, :o])
        ok = cs.min() > .95
        if ok:
            break
    check(ok, 'minor components not found: cosines %s' % cs)
    ctx.nontrivial()


@sub(st.fixed_dictionaries(dict(s=seeds, batch=st.booleans(), avg=st.booleans())),
     quick=4, thorough=60, rule='always', timeout=60)
def sfa_limit(case, ctx):
    """Sine and a fast cosine mixture as in the publication."""
    r = rs(case['s'])
    t = np.linspace(0, 4 * np.pi, 500)
    ph = r.rand() * .3
    x = np.stack([np.sin(t + ph) + np.cos(11 * t) ** 2, np.cos(11 * t)], axis=1)
    x = nodes.QuadraticExpansionNode()(x)
    ref = nodes.SFANode(output_dim=3)
    ref.train(x)
    ref.stop_training()
    best = None
    for rep in (15, 40):
        node = nodes.IncSFANode(eps=.05, numx_rng=np.random.RandomState(case['s'] % 1000))
        if case['batch']:
            node.set_training_type('batch')
        for _ in range(rep):
            node.train(x)
        cs = cosine(node.sf[:, :2], ref.sf[:, :2])
        y, z = node.execute(x)[:, 0], ref.execute(x)[:, 0]
        cc = abs(np.corrcoef(y, z)[0, 1])
        best = (cs, cc)
        if cs[0] > .9 and cc > .95:
            break
    else:
        check(False, 'slowest feature not found: cosines %s, correlation %s' % best)
    ctx.nontrivial()


# ------------------------------------------------------------------ seeds
SEEDK = ['ccipca', 'white', 'mca', 'incsfa', 'flow', 'layer']


def seeded(kind, d, o, rng):
    if kind == 'ccipca':
        return nodes.CCIPCANode(output_dim=o, numx_rng=rng)
    if kind == 'white':
        return nodes.CCIPCAWhiteningNode(output_dim=o, numx_rng=rng)
    if kind == 'mca':
        return nodes.MCANode(output_dim=o, numx_rng=rng)
    if kind == 'incsfa':
        return nodes.IncSFANode(output_dim=o, numx_rng=rng)
    if kind == 'flow':
        return hinet.OnlineFlowNode(mdp.OnlineFlow([nodes.OnlineCenteringNode(), nodes.CCIPCANode(output_dim=o), nodes.MCANode(output_dim=o)]), numx_rng=rng)
    return hinet.SameInputOnlineLayer([nodes.CCIPCANode(input_dim=d, output_dim=o), nodes.MCANode(input_dim=d, output_dim=1)], numx_rng=rng)


@sub(st.fixed_dictionaries(dict(base, o=st.integers(1, 4), kind=st.sampled_from(SEEDK), late=st.booleans())),
     quick=80, thorough=2000, rule='always')
def same_seed(case, ctx):
    d, o, s = case['d'], min(case['o'], case['d']), case['s'] % 100000
    x = stream(case, d, .7)

    def run(seed, glob):
        np.random.seed(glob)
        if case['late']:
            n = seeded(case['kind'], d, o, None)
            n.numx_rng = np.random.RandomState(seed)
        else:
            n = seeded(case['kind'], d, o, np.random.RandomState(seed))
        outs = []
        for p in pieces(case, x):
            n.train(p)
            outs.append(np.array(n.execute(x)))
        return outs
    a, b, c = run(s, 1), run(s, 2), run(s + 1, 1)
    check(all(np.array_equal(p, q, equal_nan=True) for p, q in zip(a, b)), 'equal seeds give different results')
    if len(x) < 8 and d > 1 and np.isfinite(a[0]).all():
        check(not all(np.array_equal(p, q) for p, q in zip(a, c)), 'the seed has no influence')
    np.random.seed(case['s'] % 1000)
    before = np.random.get_state()[1].copy()
    run_state = seeded(case['kind'], d, o, np.random.RandomState(s))
    run_state.train(x)
    check(np.array_equal(before, np.random.get_state()[1]), 'the global generator was used in spite of a given one')
    ctx.nontrivial()
    ctx.label(case['kind'])
