"""Quadratic forms: values, extrema under a norm constraint, invariances."""
import numpy as np
import mdp
from mdp import utils
from lib.harness import sub, check, close, st, raises
from lib import gen
from lib.gen import seeds, rs

form = {'seed': seeds, 'd': st.integers(2, 7), 'spec': st.sampled_from(['mixed', 'mixed', 'pos', 'neg', 'rank', 'repeat', 'zero', 'diag', 'close']),
        'f': st.sampled_from(['gen', 'gen', 'small', 'big', 'zero', 'none', 'orth']), 'norm': st.sampled_from([0.1, 1., 1., 3., 50.]),
        'scale': st.sampled_from([1., 1., 0.01, 100.])}


def build(case, rng):
    d = case['d']
    w = rng.normal(size=d)
    s = case['spec']
    if s == 'pos':
        w = np.abs(w) + 0.05
    elif s == 'neg':
        w = -np.abs(w) - 0.05
    elif s == 'rank':
        w[:d // 2 + 1] = 0.
        if rng.rand() < .3:
            w = np.abs(w)
        elif rng.rand() < .5:
            w = -np.abs(w)
    elif s == 'repeat':
        w = rng.randint(-1, 2, size=d).astype(float)
    elif s == 'zero':
        w[:] = 0.
    elif s == 'close':
        w = 1 + 1e-3 * rng.normal(size=d)
    q = np.eye(d) if s == 'diag' else gen.rot(rng, d)
    H = (q * w).dot(q.T) * case['scale']
    H = (H + H.T) / 2
    f = {'gen': 1., 'small': 1e-3, 'big': 20., 'zero': 0., 'none': 0., 'orth': 1.}[case['f']] * rng.normal(size=d) * case['scale']
    if case['f'] == 'orth':
        # orthogonal to one of the outer eigenvectors
        v = q[:, w.argmax() if rng.rand() < 0.5 else w.argmin()]
        f = f - v * v.dot(f)
        if s == 'diag':
            f[np.abs(v) > .5] = 0.
    c = rng.normal()
    return H, f, c


def value(H, f, c, x):
    d = len(f)
    return sum(0.5 * x[i] * H[i, j] * x[j] for i in range(d) for j in range(d)) + sum(f[i] * x[i] for i in range(d)) + c


@sub(st.fixed_dictionaries(dict(form, n=st.integers(1, 6), f32=st.booleans(), c=st.booleans(), one=st.booleans())),
     quick=500, thorough=10000, rule="linear term")
def values(case, ctx):
    rng = rs(case['seed'], 1)
    H, f, c = build(case, rng)
    dt = 'f' if case['f32'] else 'd'
    if not case['c']:
        c = 0.
    args = {}
    if case['f'] != 'none':
        args['f'] = f
    else:
        f = np.zeros_like(f)
    if case['c']:
        args['c'] = c
    H0, f0 = H.copy(), f.copy()
    if case['f32']:
        Hf = H.astype('f')
        q = utils.QuadraticForm((Hf + Hf.T) / 2, dtype='f', **args)
    else:
        q = utils.QuadraticForm(H, **args)
    check(q.H.dtype == np.dtype(dt) and q.f.dtype == np.dtype(dt), "dtype of the structures")
    x = (rng.normal(size=(case['n'], case['d'])) * case['norm']).astype(dt)
    if case['one']:
        x = x[0]
    x0 = x.copy()
    y = q.apply(x)
    X = np.atleast_2d(x.astype(float))
    want = np.array([value(H, f, c, r) for r in X])
    sc = np.abs(H).sum() * (X ** 2).max() + np.abs(f).sum() * np.abs(X).max() + abs(c) + 1e-30
    check(y.shape == want.shape, "shape %s", y.shape)
    close(np.asarray(y, float), want, 2e-6 if case['f32'] else 1e-13, "value of the form", scale=sc)
    check(np.array_equal(x, x0) and np.array_equal(H, H0) and np.array_equal(f, f0), "inputs changed")
    bad = H.copy()
    bad[0, 1] += 1e-2 * case['scale']
    raises(utils.QuadraticFormException, lambda: utils.QuadraticForm(bad), "H not symmetric")
    ctx.nontrivial(case['f'] not in ('zero', 'none'))


def sphere_max(H, f, r):
    """Global maximum of 1/2 x'Hx + f'x on the sphere |x| = r, from the secular equation."""
    w, V = np.linalg.eigh(H)
    a = V.T.dot(f)
    top = w[-1]
    g = np.linalg.norm(f)
    big = max(1e-300, np.abs(w).max(), g / r)

    def n2(m):      # |x|^2 at lambda = top + m
        return ((a / (top - w + m)) ** 2).sum()
    lo, hi = 1e-13 * big, g / r + 1e-12 * big
    if n2(lo) < r * r:      # the norm is not reached: the rest lies along the leading eigenvector
        y = a / (top - w + lo)
        y[np.abs(top - w) < 1e-9 * big] = 0.
        rest = max(r * r - (y ** 2).sum(), 0.)
        y[-1] = np.sqrt(rest)
    else:
        for i in range(300):
            mid = 0.5 * (lo + hi)
            if n2(mid) > r * r:
                lo = mid
            else:
                hi = mid
        y = a / (top - w + 0.5 * (lo + hi))
    y = y * r / np.linalg.norm(y)
    x = V.dot(y)
    return 0.5 * x.dot(H).dot(x) + f.dot(x)


@sub(st.fixed_dictionaries(dict(form, tol=st.sampled_from([None, 1e-4, 1e-8]))), quick=1200, thorough=24000, shards=2, rule="linear term and extremum on the sphere")
def extrema(case, ctx):
    rng = rs(case['seed'], 2)
    H, f, c = build(case, rng)
    r = case['norm']
    d = case['d']
    if case['f'] == 'none':
        q = utils.QuadraticForm(H, c=c)
        f = np.zeros(d)
    else:
        q = utils.QuadraticForm(H, f, c)
    tol = case['tol'] or 1e-4
    if case['tol'] is not None:
        tol *= r * r
        xmax, xmin = q.get_extrema(r, tol=tol)
    else:
        xmax, xmin = q.get_extrema(r)
    check(q.xmax is xmax and q.xmin is xmin, "extrema not stored")
    w = np.linalg.eigvalsh(H)
    sc = np.abs(H).max() * r * r + np.linalg.norm(f) * r + 1e-300
    slope = np.abs(H).max() * r + np.linalg.norm(f)
    dr = tol / r + 1e-7 * r
    for x, s, name in ((xmax, 1, 'maximum'), (xmin, -1, 'minimum')):
        check(x.shape == (d,) and np.isfinite(x).all(), "%s: %s", name, x)
        n = np.linalg.norm(x)
        interior = n < r - dr
        if abs(n - r) > dr:
            # only the optimum of a definite form may lie inside of the sphere
            check(n < r and (s * w <= 1e-9 * np.abs(w).max()).all() and case['f'] not in ('zero', 'none'), "%s has norm %.9g instead of %g", name, n, r)
            close(H.dot(x) + f, np.zeros(d), 1e-6, "%s inside of the sphere is not stationary" % name, scale=slope)
        v = s * (value(H, f, 0., x))
        best = sphere_max(s * H, s * f, r)
        slack = 1e-7 * sc + slope * dr * 2
        check(v >= best - slack, "%s: value %.12g beaten by %.12g on the sphere", name, s * v, s * best)
        if not interior:
            check(v <= best + slack, "%s better than the bound: %.12g, %.12g", name, s * v, s * best)
        P = rng.normal(size=(60, d))
        P *= (r / np.linalg.norm(P, axis=1))[:, None]
        P = np.concatenate([P, r * np.eye(d), -r * np.eye(d), (x + 0.01 * n * rng.normal(size=(20, d)))])
        P *= (r / (np.linalg.norm(P, axis=1) + 1e-300))[:, None]
        check((s * (q.apply(P) - c) <= v + slack).all(), "%s beaten by a random point of the sphere", name)
        ctx.nontrivial(not interior and case['f'] in ('gen', 'small', 'big'))


@sub(st.fixed_dictionaries(form), quick=800, thorough=16000, rule="at least three dimensions")
def invariances(case, ctx):
    rng = rs(case['seed'], 3)
    H, f, c = build(case, rng)
    d, r = case['d'], case['norm']
    q = utils.QuadraticForm(H, f, c)
    k = case['seed'] % 4
    if k < 2:
        x = q.get_extrema(r, tol=1e-9 * r * r)[k]
    else:
        x = rng.normal(size=d)
        if k == 3:
            x[rng.randint(d)] = 0.
        x *= r / np.linalg.norm(x)
    n = np.linalg.norm(x)
    if n < 1e-6:
        return
    x0 = x.copy()
    w, nu = q.get_invariances(x)
    check(np.array_equal(x, x0), "the point was changed")
    check(w.shape == (d, d - 1) and nu.shape == (d - 1,), "shapes %s %s", w.shape, nu.shape)
    close(w.T.dot(w), np.eye(d - 1), 1e-9, "directions not orthonormal")
    close(w.T.dot(x) / n, np.zeros(d - 1), 1e-9, "directions not tangential")
    sc = np.abs(H).max() + np.linalg.norm(f) / n + 1e-300
    check((np.diff(np.abs(nu)) >= -1e-9 * sc).all(), "second derivatives not sorted: %s", nu)
    # second derivative of g(x cos t + r w sin t) at t = 0, in units of arc length
    for i in range(d - 1):
        v = w[:, i]
        want = v.dot(H).dot(v) - (x.dot(H).dot(x) + f.dot(x)) / n ** 2
        close(nu[i], want, 1e-9, "second derivative", scale=sc)
        t = 1e-3

        def g(t):
            z = x * np.cos(t) + n * v * np.sin(t)
            return 0.5 * z.dot(H).dot(z) + f.dot(z)
        num = (g(t) - 2 * g(0.) + g(-t)) / (t * n) ** 2
        close(num, nu[i], 2e-4, "numerical second derivative along the sphere", scale=sc)
    # the directions diagonalise the restricted Hessian
    R = w.T.dot(H).dot(w)
    close(R - np.diag(np.diag(R)), np.zeros_like(R), 1e-8, "directions do not diagonalise the second derivative", scale=sc)
    if k < 2 and n > r * (1 - 1e-6):
        g = H.dot(x) + f
        close(g - x * g.dot(x) / n ** 2, np.zeros(d), 1e-3, "gradient at an extremum is not radial", scale=np.abs(H).max() * r + np.linalg.norm(f))
        check((nu * (1 - 2 * k) <= 1e-4 * sc).all(), "extremum of the wrong kind: %s", nu)
    ctx.nontrivial(d > 2)


@sub(st.fixed_dictionaries({'seed': seeds, 'd': st.integers(1, 3), 'whiten': st.booleans(), 'out': st.integers(1, 5)}), quick=100, thorough=1500, rule="every case", timeout=120)
def from_sfa(case, ctx):
    """The quadratic forms of a trained quadratic SFA node are the functions it executes."""
    rng = rs(case['seed'], 4)
    d = case['d']
    x = gen.slow(rng, 200, d, noise=0.3)
    full = d + d * (d + 1) // 2
    node = mdp.nodes.SFA2Node(output_dim=min(case['out'], full))
    node.train(x)
    y = node.execute(x[:20])
    for i in range(y.shape[1]):
        q = node.get_quadratic_form(i)
        close(q.apply(x[:20]), y[:, i], 1e-6, "quadratic form %d" % i)
    z = rng.normal(size=(5, d)) * 3
    y = node.execute(z)
    for i in range(y.shape[1]):
        close(node.get_quadratic_form(i).apply(z), y[:, i], 1e-6, "quadratic form %d at other points" % i)
    ctx.nontrivial()
