"""Library functions on generated arguments, with results that do not depend on free signs or orders."""
import numpy as np
import mdp


def spd(r, d, dt):
    a = r.randn(d, d + 3)
    return (a.dot(a.T) / (d + 3) + .3 * np.eye(d)).astype(dt)


def f_inverses(r, d, dt):
    a = (r.randn(d, d) + 3 * np.eye(d)).astype(dt)
    b = r.randn(d, 2).astype(dt)
    w = r.randn(d + 2, d).astype(dt)
    u = mdp.utils
    return [u.inv(a), u.pinv(w), u.pinv(a), u.solve(a, b), u.sqrtm(spd(r, d, dt)), u.hermitian(a)]


def f_svd(r, d, dt):
    a = r.randn(d + 2, d).astype(dt)
    u, s, v = mdp.utils.svd(a, compute_uv=True)
    k = len(s)
    return [s, u[:, :k].dot(np.diag(s)).dot(v[:k]), mdp.utils.svd(a, compute_uv=False)]


def f_symeig(r, d, dt):
    a = spd(r, d, dt)
    b = spd(r, d, dt)
    res = []
    for B in (None, b):
        for rng in (None, (1, max(1, d // 2)), (d, d)):
            w, v = mdp.utils.symeig(a, B, range=rng)
            res += [w, v.dot(v.T)]
            res.append(mdp.utils.symeig(a, B, eigenvectors=False, range=rng))
    return res


def f_semidefinite(r, d, dt):
    from mdp.utils import symeig_semidefinite_reg, symeig_semidefinite_pca, symeig_semidefinite_svd
    a = spd(r, d, 'd')
    q = np.linalg.qr(r.randn(d, d))[0]
    b = (q * np.r_[np.zeros(d // 3), r.uniform(.5, 2, d - d // 3)]).dot(q.T)
    b = (b + b.T) / 2
    res = []
    for f in (symeig_semidefinite_reg, symeig_semidefinite_pca, symeig_semidefinite_svd):
        # (the size of the regularization depends on the sign of eigenvalues that are zero up to rounding)
        w, v = f(a.copy(), b.copy() if f is not symeig_semidefinite_reg else spd(r, d, 'd'), True, 'on')
        res += [w, v.dot(v.T)]
    return res


def f_matmult(r, d, dt):
    a, b, c = r.randn(d, d + 1), r.randn(d + 1, 3), r.randn(d, 3)
    res = [mdp.utils.matmult(a.astype(dt), b.astype(dt)), mdp.utils.mult(a, b), mdp.utils.mult_diag(r.randn(d), c), mdp.utils.mult_diag(r.randn(3), c, left=False)]
    if mdp.numx_description == 'scipy':
        m = mdp.utils.matmult
        res += [m(a, b, 2., .5, c), m(a.T, b, trans_a=1), m(a, b.T, -1., 0., None, 0, 1), m(a, b, 1., 1., np.zeros((d, 3)))]
    else:
        res += [2 * a.dot(b) + .5 * c, a.dot(b), -a.dot(b), a.dot(b)]
    return res


def f_quadratic(r, d, dt):
    h = r.randn(d, d)
    h = (h + h.T) / 2
    if r.rand() < .4:
        w, v = np.linalg.eigh(h)
        w[0] = 0
        h = (v * w).dot(v.T)
    q = mdp.utils.QuadraticForm(h, r.randn(d), r.randn(), dtype='d')
    xmax, xmin = q.get_extrema(r.uniform(.5, 3), tol=1e-9)
    res = [q.apply(xmax[None]), q.apply(xmin[None]), q.apply(r.randn(4, d))]
    w, lin = np.linalg.eigvalsh(h), np.abs(q.f).max()
    nu = q.get_invariances(xmax)[1]
    return res + [nu]


def f_misc(r, d, dt):
    u = mdp.utils
    x = r.randn(d + 4, d).astype(dt)
    y = x.copy()
    u.rotate(y, r.rand(), [0, d - 1])
    ht = 1
    cm = u.CovarianceMatrix(dtype=dt)
    cm.update(x)
    dc = u.DelayCovarianceMatrix(1, dtype=dt)
    dc.update(x)
    cc = u.CrossCovarianceMatrix(dtype=dt)
    cc.update(x, x[:, ::-1])
    res = [y, u.gabor((d, 5), (.5, .3), .4, .2, (.2, .3)), u.cov2(x, x), u.norm2(x[0]), u.timediff(x), u.permute(x.T.copy().T[:d].copy(), (0, d - 1), 1, 1)]
    for c in (cm, dc, cc):
        for z in c.fix():
            res.append(np.asarray(z))
    return [np.asarray(z) for z in res if z is not None]


def f_random(r, d, dt):
    mdp.numx_rand.seed(int(r.randint(1 << 30)))
    q = mdp.utils.random_rot(d, dtype=dt)
    return [q, mdp.utils.symrand(d, dt), mdp.utils.symrand(r.randn(d), dt), np.asarray(mdp.utils.weighted_choice(np.array([.2, .5, .3])))]


FUNCS = {k[2:]: v for k, v in list(globals().items()) if k.startswith('f_')}


def run(q):
    r = np.random.RandomState(q['seed'])
    return [np.asarray(z) for z in FUNCS[q['f']](r, q['d'], q['dt'])]
