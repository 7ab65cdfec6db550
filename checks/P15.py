"""Covariance accumulators, eigenvalue solvers and the numerical helper functions against their definitions."""
import collections
import itertools
import math
import pickle
import warnings
import numpy as np
import mdp
from mdp import utils
from lib.harness import sub, check, close, st, raises
from lib import gen
from lib.gen import seeds, rs

scales = st.sampled_from([1., 1., 1e-3, 1e3])


def data(rng, n, d, scale, off, f32):
    x = (rng.normal(size=(n, d)) * (0.5 + rng.rand(d)) * scale).dot(gen.rot(rng, d)) + off * rng.normal(size=d) * scale
    return x.astype('f') if f32 else x


def csc(x):
    """Size of the accumulated moments, for tolerances."""
    return float((np.abs(x.astype(float)) ** 2).max()) + 1e-300


cov_case = st.fixed_dictionaries({
    'seed': seeds, 'd': st.sampled_from([1, 2, 3, 4, 5, 5, 9, 14]), 'rounds': st.lists(st.tuples(st.one_of(st.integers(2, 40), st.integers(2, 40), st.integers(41, 300)), st.integers(1, 5)), min_size=1, max_size=3),
    'scale': scales, 'off': st.sampled_from([0., 1., 10.]), 'f32': st.sampled_from([False, False, True]), 'bias': st.booleans(),
    'center': st.sampled_from([True, True, False]), 'dtype': st.sampled_from([None, 'd', 'f']), 'layout': st.integers(0, 9), 'pickle': st.booleans()})


@sub(cov_case, quick=800, thorough=16000, rule="two rounds or several chunks", shards=2)
def plain(case, ctx):
    rng = rs(case['seed'], 1)
    d = case['d']
    c = utils.CovarianceMatrix(dtype=case['dtype'], bias=case['bias'])
    for n, k in case['rounds']:
        x = data(rng, n, d, case['scale'], case['off'], case['f32'])
        x0 = x.copy()
        for a in gen.split(x, gen.cuts(rng, n, k)):
            c.update(gen.layouts(rng, a) if case['layout'] > 6 else a)
        if case['pickle']:
            c = pickle.loads(pickle.dumps(c))
        m, avg, t = c.fix() if case['center'] else c.fix(center=False)
        dt = np.dtype(case['dtype'] or ('f' if case['f32'] else 'd'))
        if case['dtype'] is None and case['rounds'][0]:
            pass
        check(m.dtype == dt and avg.dtype == dt, "dtype %s", m.dtype)
        X = x.astype(float)
        N = n if case['bias'] else n - 1
        want = (X - X.mean(axis=0) if case['center'] else X)
        want = want.T.dot(want) / N
        tol = 2e-5 if np.dtype(dt) == np.float32 else 1e-12
        close(m.astype(float), want, tol, "covariance", scale=csc(X) * n / N)
        close(avg.astype(float), X.mean(axis=0), tol, "mean", scale=np.abs(X).max() + 1e-300)
        check(t == n, "count %s instead of %d", t, n)
        check(np.array_equal(x, x0), "data changed")
    ctx.nontrivial(len(case['rounds']) > 1 or case['rounds'][0][1] > 1)


@sub(st.fixed_dictionaries({
    'seed': seeds, 'd': st.sampled_from([1, 2, 3, 4, 9]), 'lag': st.integers(0, 5), 'rounds': st.lists(st.lists(st.sampled_from(list(range(1, 16)) + [40, 150]), min_size=1, max_size=4), min_size=1, max_size=3),
    'scale': scales, 'off': st.sampled_from([0., 1., 10.]), 'f32': st.sampled_from([False, False, True]), 'bias': st.booleans(), 'A': st.booleans(),
    'short': st.booleans()}), quick=800, thorough=16000, rule="positive lag and several blocks")
def delayed(case, ctx):
    rng = rs(case['seed'], 2)
    d, lag = case['d'], case['lag']
    c = utils.DelayCovarianceMatrix(lag, bias=case['bias'])
    for ns in case['rounds']:
        blocks = [data(rng, n + lag + (len(ns) == 1), d, case['scale'], case['off'], case['f32']) for n in ns]
        for i, b in enumerate(blocks):
            if case['short'] and lag:
                raises(mdp.MDPException, lambda: c.update(b[:lag]), "block shorter than the lag")
            c.update(b)
        a = np.concatenate([b[:len(b) - lag] for b in blocks]).astype(float)
        z = np.concatenate([b[lag:] for b in blocks]).astype(float)
        n = len(a)
        N = n if case['bias'] else n - 1
        want = (a - a.mean(axis=0)).T.dot(z - z.mean(axis=0)) / N
        A = rng.normal(size=(rng.randint(1, 4), d)) if case['A'] else None
        if A is not None and case['f32']:
            A = A.astype('f')
        m, av, avd, t = c.fix(A) if case['A'] else c.fix()
        sc = csc(np.concatenate(blocks)) * n / N
        tol = 4e-5 if case['f32'] else 1e-12
        if A is not None:
            want = A.astype(float).dot(want).dot(A.T.astype(float))
            sc *= max(1, (np.abs(A).sum(axis=1).max()) ** 2)
        close(m.astype(float), want, tol, "delayed covariance", scale=sc)
        close(av.astype(float), a.mean(axis=0), tol, "mean", scale=np.sqrt(sc))
        close(avd.astype(float), z.mean(axis=0), tol, "mean of the delayed signal", scale=np.sqrt(sc))
        check(t == n, "count %s instead of %d", t, n)
    ctx.nontrivial(lag > 0 and len(case['rounds'][0]) > 1)


@sub(cov_case, quick=500, thorough=10000, rule="two rounds or several chunks")
def cross(case, ctx):
    rng = rs(case['seed'], 3)
    c = utils.CrossCovarianceMatrix(dtype=case['dtype'], bias=case['bias'])
    for n, k in case['rounds']:
        x = data(rng, n, case['d'], case['scale'], case['off'], case['f32'])
        y = data(rng, n, 1 + case['layout'] % 3, case['scale'], case['off'], case['f32'])
        sizes = gen.cuts(rng, n, k)
        for a, b in zip(gen.split(x, sizes), gen.split(y, sizes)):
            c.update(a, b)
        raises(mdp.MDPException, lambda: c.update(x, y[:-1]), "numbers of samples differ")
        m, ax, ay, t = c.fix()
        X, Y = x.astype(float), y.astype(float)
        N = n if case['bias'] else n - 1
        tol = 2e-5 if case['f32'] or case['dtype'] == 'f' else 1e-12
        sc = max(csc(X), csc(Y)) * n / N
        close(m.astype(float), (X - X.mean(axis=0)).T.dot(Y - Y.mean(axis=0)) / N, tol, "cross covariance", scale=sc)
        close(ax.astype(float), X.mean(axis=0), tol, "mean of x", scale=np.sqrt(sc))
        close(ay.astype(float), Y.mean(axis=0), tol, "mean of y", scale=np.sqrt(sc))
        check(t == n, "count")
        if not case['bias']:
            close(utils.cov2(X, Y), (X - X.mean(axis=0)).T.dot(Y - Y.mean(axis=0)) / N, 1e-11, "cov2", scale=sc)
    if case['dtype'] is None:
        raises(mdp.MDPException, lambda: utils.CrossCovarianceMatrix().update(np.zeros((3, 1)), np.zeros((3, 1), 'f')), "dtypes differ")
    ctx.nontrivial(len(case['rounds']) > 1 or case['rounds'][0][1] > 1)


@sub(st.fixed_dictionaries({
    'seed': seeds, 'd': st.sampled_from([1, 2, 3, 4, 9]), 'rounds': st.lists(st.lists(st.sampled_from(list(range(1, 16)) + [40, 150]), min_size=1, max_size=4), min_size=1, max_size=3),
    'dep': st.booleans(), 'kind': st.sampled_from(['array', 'array', 'none', 'const']), 'f32': st.sampled_from([False, False, True]),
    'off': st.sampled_from([0., 1.]), 'center': st.sampled_from([True, True, False]), 'extra': st.booleans(), 'intdt': st.booleans()}),
    quick=800, thorough=16000, rule="uneven time steps over several chunks")
def vartime(case, ctx):
    rng = rs(case['seed'], 4)
    d, dep, kind = case['d'], case['dep'], case['kind']
    c = utils.VartimeCovarianceMatrix()
    for ns in case['rounds']:
        segs = []      # (x0, x1, dt) of every trapezoid
        last = None
        const = float(rng.choice([0.5, 1., 2., 3.]))
        if case['intdt'] and const > 0.5:
            const = int(const)
        if len(ns) == 1:
            ns = [ns[0] + 1]
        total = []
        for i, n in enumerate(ns):
            if not dep or i == 0:
                n += 1
            x = data(rng, n, d, 1., case['off'], case['f32'])
            total.append(x)
            gap = dep and i > 0
            if kind == 'array':
                dt = rng.rand(n if gap else n - 1) + 0.1
                if case['intdt']:
                    dt = rng.randint(1, 5, size=len(dt))
                if gap:
                    segs.append((last, x[0], dt[0]))
                steps = dt[1:] if gap else dt
                arg = dt
                if i == 0 and case['extra']:
                    arg = np.concatenate([[7.], dt])     # a first element too many is disregarded
            else:
                v = const if kind == 'const' else 1.
                steps = np.ones(n - 1) * v
                if gap:
                    segs.append((last, x[0], v))
                arg = const if kind == 'const' else None
            segs += [(x[j], x[j + 1], steps[j]) for j in range(n - 1)]
            last = x[-1]
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                c.update(x, arg, time_dep=dep)
        T = sum(s for _, _, s in segs)
        m = sum((np.outer(a, a) + np.outer(b, b)).astype(float) * s / 2. for a, b, s in segs) / T
        avg = sum((a + b).astype(float) * s / 2. for a, b, s in segs) / T
        if case['center']:
            m = m - np.outer(avg, avg)
        gm, ga, gt = c.fix() if case['center'] else c.fix(center=False)
        sc = csc(np.concatenate(total))
        tol = 4e-5 if case['f32'] else 1e-11
        close(gt, T, 1e-9, "length of the sequence")
        close(np.asarray(gm, float), m, tol, "covariance with variable time steps", scale=sc)
        close(np.asarray(ga, float), avg, tol, "mean with variable time steps", scale=np.sqrt(sc))
        check(gm.dtype == np.dtype('f' if case['f32'] else 'd'), "dtype")
    ctx.nontrivial(kind == 'array' and max(len(r) for r in case['rounds']) > 1)


@sub(st.fixed_dictionaries({'seed': seeds, 'd': st.integers(2, 5), 'k': st.integers(1, 4), 'f32': st.booleans(),
                            'ops': st.lists(st.sampled_from(['sym', 'weights', 'weight1', 'rotate', 'permute', 'transform', 'copy', 'get']), min_size=1, max_size=8)}),
     quick=400, thorough=8000, rule="three operations")
def multiple(case, ctx):
    rng = rs(case['seed'], 5)
    d, k = case['d'], case['k']
    dt = 'f' if case['f32'] else 'd'
    C = [rng.normal(size=(d, d)).astype(dt) for i in range(k)]
    keep = [a.copy() for a in C]
    m = utils.MultipleCovarianceMatrices(C)
    R = [a.astype(float) for a in C]
    tol = 1e-4 if case['f32'] else 1e-11
    for op in case['ops']:
        i, j = rng.choice(d, 2, replace=False)
        if op == 'sym':
            m.symmetrize()
            R = [(a + a.T) / 2 for a in R]
        elif op == 'weights':
            w = rng.rand(k) + .5
            m.weight(w if rng.rand() < .5 else list(w))
            R = [a * v for a, v in zip(R, w)]
        elif op == 'weight1':
            m.weight(0.7)
            R = [a * 0.7 for a in R]
        elif op == 'rotate':
            t = rng.rand() * 6
            m.rotate(t, [i, j])
            G = np.eye(d)
            G[i, i] = G[j, j] = np.cos(t)
            G[i, j], G[j, i] = np.sin(t), -np.sin(t)
            R = [G.T.dot(a).dot(G) for a in R]
        elif op == 'permute':
            m.permute([i, j])
            p = np.arange(d)
            p[i], p[j] = j, i
            R = [a[p][:, p] for a in R]
        elif op == 'transform':
            T = rng.normal(size=(d, d)).astype(dt)
            T0 = T.copy()
            m.transform(T)
            R = [T.T.astype(float).dot(a).dot(T) for a in R]
            check(np.array_equal(T, T0), "transformation changed")
        elif op == 'copy':
            o = m
            m = m.copy()
            o.rotate(1., [0, 1])
        for q in range(k):
            close(np.asarray(m[q], float), R[q], tol, "matrix %d after %s" % (q, op), scale=1 + np.abs(np.array(R)).max())
        check(m.ncovs == k and m[0].dtype == np.dtype(dt), "number or dtype")
    check(all(np.array_equal(a, b) for a, b in zip(C, keep)), "operations changed the matrices passed in")
    raises((AssertionError, mdp.MDPException, ValueError), lambda: m.weight(np.ones(k + 1)), "wrong number of weights")
    ctx.nontrivial(len(case['ops']) > 2)


# ------------------------------------------------------------ eigenvalue problems

@sub(st.fixed_dictionaries({'seed': seeds, 'd': st.integers(1, 7), 'general': st.booleans(), 'kind': st.sampled_from(['d', 'd', 'd', 'f', 'D', 'F', 'i', 'l']),
                            'scale': scales, 'range': st.one_of(st.none(), st.tuples(st.integers(-1, 9), st.integers(-1, 9))), 'definite': st.booleans(),
                            'vectors': st.sampled_from([True, True, False]), 'multi': st.booleans(), 'layout': st.integers(0, 9), 'bad': st.sampled_from([0, 0, 0, 1])}),
     quick=1500, thorough=30000, rule="at least three dimensions", shards=2)
def symeig(case, ctx):
    rng = rs(case['seed'], 6)
    d, kind = case['d'], case['kind']

    def herm(w):
        q = np.linalg.qr(rng.normal(size=(d, d)) + (1j * rng.normal(size=(d, d)) if kind in 'DF' else 0))[0]
        h = (q * w).dot(q.conj().T)
        return (h + h.conj().T) / 2
    w = rng.normal(size=d)
    if case['definite']:
        w = np.abs(w) + 0.1
    if case['multi']:
        w[:] = np.round(w)
    A = herm(w) * case['scale']
    B = herm(rng.rand(d) + 0.3) if case['general'] else None
    if kind in 'il':
        A = np.round(A * 20 / case['scale'])
        B = np.round(B * 0) + np.diag(rng.randint(1, 5, size=d)) if case['general'] else None
    A = A.astype(kind)
    B = None if B is None else B.astype(kind)
    eps = {'f': 2e-5, 'F': 2e-5}.get(kind, 1e-10)
    if case['layout'] > 5:
        A = np.asfortranarray(A)
    if case['bad'] and case['general']:
        Bn = herm(np.concatenate([rng.rand(d - 1) + 0.3, [-0.5]])).astype(kind if kind not in 'il' else 'd')
        raises(utils.SymeigException, lambda: utils.symeig(A, Bn), "indefinite B")
        return
    A0, B0 = A.copy(), None if B is None else B.copy()
    kw = {}
    if case['range'] is not None:
        lo, hi = case['range']
        kw['range'] = (lo, hi)
        lo, hi = min(max(lo, 1), d), min(hi, d)
        if lo > hi:
            lo, hi = hi, lo
        if lo < 1:
            return
    else:
        lo, hi = 1, d
    full = np.linalg.eigvalsh(A.astype('D') if B is None else np.linalg.solve(np.linalg.cholesky(B.astype('D')), np.linalg.solve(np.linalg.cholesky(B.astype('D')), A.astype('D')).conj().T))
    sc = np.abs(full).max() + 1e-300
    if not case['vectors']:
        w = utils.symeig(A, B, eigenvectors=False, **kw)
        close(np.real(w).astype(float), full[lo - 1:hi], eps * 10, "eigenvalues only", scale=sc)
        return
    w, Z = utils.symeig(A, B, **kw)
    check(np.array_equal(A, A0) and (B is None or np.array_equal(B, B0)), "matrices changed")
    want = np.dtype(kind if kind in 'dfDF' else 'd')
    check(Z.dtype == want and w.dtype in (want, np.dtype(want.char.lower())), "dtype %s, %s for %s", w.dtype, Z.dtype, kind)
    check(np.abs(np.imag(w)).max() == 0, "complex eigenvalues")
    w = np.real(w).astype(float)
    check(w.shape == (hi - lo + 1,) and Z.shape == (d, hi - lo + 1), "range %s of %d gives %s, %s", case['range'], d, w.shape, Z.shape)
    check((np.diff(w) >= -eps * sc).all(), "eigenvalues not ascending: %s", w)
    close(w, full[lo - 1:hi], eps * 10, "eigenvalues", scale=sc)
    BB = np.eye(d) if B is None else B.astype('D')
    Z = Z.astype('D')
    close(Z.conj().T.dot(BB).dot(Z), np.eye(hi - lo + 1).astype('D'), eps * 20, "normalisation")
    close(A.astype('D').dot(Z), BB.dot(Z) * w, eps * 50, "A Z = B Z w", scale=(np.abs(A).max() + sc * np.abs(BB).max()) * 3)
    ctx.nontrivial(d > 2)


class Out(object):
    pass


@sub(st.fixed_dictionaries({'seed': seeds, 'd': st.integers(1, 7), 'drop': st.integers(0, 4), 'blank': st.integers(0, 3), 'first': st.booleans(),
                            'solver': st.sampled_from(['reg', 'pca', 'svd', 'ldl']), 'range': st.one_of(st.none(), st.tuples(st.integers(1, 6), st.integers(1, 6))),
                            'scale': st.sampled_from([1., 1., 0.1, 10.]), 'layout': st.booleans(), 'out': st.booleans(), 'pass': st.sampled_from(['kw', 'pos'])}),
     quick=800, thorough=16000, rule="rank deficit")
def semidefinite(case, ctx):
    rng = rs(case['seed'], 7)
    d = case['d']
    drop = min(case['drop'], d - 1) if case['solver'] != 'ldl' else 0
    r = d - drop
    n = 60
    x = rng.normal(size=(n, r)).cumsum(axis=0)
    x = x - x.mean(axis=0)
    u, s, vt = np.linalg.svd(x, full_matrices=False)
    x = u * np.sqrt(n - 1) * (0.5 + rng.rand(r))
    x = x.dot(np.linalg.qr(rng.normal(size=(d, d)))[0][:r]) * case['scale']
    D = d + case['blank']
    pos = np.sort(rng.choice(D, d, replace=False)) if not case['first'] else np.arange(case['blank'], D)
    X = np.zeros((n, D))
    X[:, pos] = x
    B = X.T.dot(X) / (n - 1)
    dX = np.diff(X, axis=0)
    A = dX.T.dot(dX) / (n - 2)
    B, A = (B + B.T) / 2, (A + A.T) / 2
    if case['layout']:
        A, B = np.asfortranarray(A), np.asfortranarray(B)
    A0, B0 = A.copy(), B.copy()
    f = getattr(utils, 'symeig_semidefinite_' + case['solver'])
    out = Out() if case['out'] else None
    kw = {'dfc_out': out}
    lo, hi = 1, r
    rg = None
    if case['range'] is not None:
        lo, hi = sorted(case['range'])
        if hi > r:
            return
        rg = (lo, hi)
    if case['pass'] == 'kw':
        if rg:
            kw['range'] = rg
        w, Z = f(A, B, **kw)
    else:
        w, Z = f(A, B, True, "on", rg, 1, False, 1e-12, out)
    close(A, A0, 1e-15, "A changed", scale=np.abs(A0).max())
    close(B, B0, 1e-11, "B changed", scale=np.abs(B0).max())
    # reference: the problem in the range of B
    eb, vb = np.linalg.eigh(B0)
    S = vb[:, -r:] / np.sqrt(eb[-r:])
    full = np.linalg.eigvalsh(S.T.dot(A0).dot(S))
    check(w.shape == (hi - lo + 1,) and Z.shape == (D, hi - lo + 1), "%d of %d directions: shapes %s, %s", r, D, w.shape, Z.shape)
    tol = 1e-7
    close(w, full[lo - 1:hi], tol, "eigenvalues (%s)" % case['solver'])
    close(Z.T.dot(B0).dot(Z), np.eye(hi - lo + 1), tol, "normalisation (%s)" % case['solver'])
    close(A0.dot(Z), B0.dot(Z) * w, tol * 10, "A Z = B Z w (%s)" % case['solver'], scale=1 + np.abs(B0.dot(Z)).max())
    if out is not None:
        check(hasattr(out, 'rank_deficit'), "rank deficit not reported")
        # the regularising solver keeps no separate count of blank channels: they are null directions as well
        check(out.rank_deficit == D - r, "rank deficit %s instead of %d", out.rank_deficit, D - r)
    raises(ValueError, lambda: f(A, B, type=2), "type 2")
    ctx.nontrivial(r < D)


# ------------------------------------------------------------ helper functions

@sub(st.fixed_dictionaries({'seed': seeds, 'd': st.integers(1, 8), 'kind': st.sampled_from('dfDF'), 'range': st.booleans()}),
     quick=500, thorough=10000, rule="at least three dimensions")
def matrices(case, ctx):
    """Random matrices of a given kind, square roots, decompositions and their dtypes."""
    rng = rs(case['seed'], 8)
    np.random.seed(case['seed'] % 9999)
    d, k = case['d'], case['kind']
    eps = 2e-5 if k in 'fF' else 1e-11
    r = k.lower()
    q = utils.random_rot(d, dtype=r)
    check(q.dtype == np.dtype(r) and q.shape == (d, d), "dtype or shape of the rotation")
    Q = q.astype(float)
    close(Q.T.dot(Q), np.eye(d), eps * 10, "random_rot not orthogonal")
    close(np.linalg.det(Q), 1., eps * 20, "determinant")
    if d > 1:
        check(not np.allclose(utils.random_rot(d, dtype=r), q), "the same rotation twice")
    h = utils.symrand(d, k)
    check(h.dtype == np.dtype(k) and h.shape == (d, d), "dtype or shape of the symmetric matrix")
    close(h, h.conj().T, 1e-15, "symrand not Hermitian")
    if k in 'df':
        check(np.abs(np.linalg.eigvalsh(h)).max() <= 1 + 1e-5, "eigenvalues outside of (-1,1)")
        ev = rng.normal(size=d)
        g = utils.symrand(ev, k)
        close(np.linalg.eigvalsh(g.astype(float)), np.sort(ev), eps * 10, "symrand with given eigenvalues", scale=np.abs(ev).max())
    raises(mdp.MDPException, lambda: utils.symrand('x'), "unsupported input")
    P = utils.symrand(np.abs(rng.normal(size=d)) + 0.1, r)
    s = utils.sqrtm(P)
    check(s.dtype == np.dtype(r), "dtype of the square root")
    close(s.astype(float), s.T.astype(float), eps * 10, "square root not symmetric")
    close(s.astype(float).dot(s.astype(float)), P.astype(float), eps * 20, "square root", scale=3.)
    check(np.linalg.eigvalsh(s.astype(float)).min() > 0, "square root not positive")
    for name, f in (('inv', utils.inv), ('pinv', utils.pinv)):
        i = f(P)
        check(i.dtype == P.dtype, "dtype of %s", name)
        close(i.astype(float).dot(P), np.eye(d), eps * 1000, name)
    b = rng.normal(size=(d, 2)).astype(r)
    x = utils.solve(P, b)
    check(x.dtype == P.dtype, "dtype of solve")
    close(P.astype(float).dot(x), b.astype(float), eps * 1000, "solve")
    M = rng.normal(size=(d, d + case['seed'] % 3)).astype(k)
    u, sv, v = utils.svd(M)
    check(u.dtype == M.dtype and v.dtype == M.dtype, "dtype of svd")
    close(np.real(sv).astype(float), np.linalg.svd(M.astype('D'), compute_uv=False), eps * 10, "singular values", scale=5.)
    close((u[:, :len(sv)] * sv).dot(v[:len(sv)]), M, eps * 20, "svd", scale=5.)
    close(np.real(utils.svd(M, compute_uv=False)).astype(float), np.real(sv).astype(float), eps * 10, "singular values only", scale=5.)
    rg = tuple(sorted(rng.randint(1, d + 1, size=2).tolist())) if case['range'] else None
    w, Z = utils.nongeneral_svd(P, range=rg)
    lo, hi = rg or (1, d)
    close(w.astype(float), np.linalg.eigvalsh(P.astype(float))[lo - 1:hi], eps * 20, "nongeneral_svd", scale=3.)
    close(P.astype(float).dot(Z), (Z * w).astype(float), eps * 50, "vectors of nongeneral_svd", scale=3.)
    close(utils.hermitian(h), np.conj(h).T, 0., "hermitian")
    D, m = rng.normal(size=d), rng.normal(size=(d, d))
    close(utils.mult_diag(D, m), np.diag(D).dot(m), 1e-13, "mult_diag left")
    close(utils.mult_diag(D, m, left=False), m.dot(np.diag(D)), 1e-13, "mult_diag right")
    close(utils.norm2(D), math.sqrt(sum(t * t for t in D)), 1e-13, "norm2")
    ctx.nontrivial(d > 2)


@sub(st.fixed_dictionaries({'seed': seeds, 'n': st.integers(1, 8), 'd': st.integers(2, 6), 'deg': st.booleans(), 'default': st.booleans(), 'rows': st.booleans(),
                            'cols': st.booleans(), 'layout': st.booleans()}), quick=500, thorough=10000, rule="every case")
def moves(case, ctx):
    """rotate, permute, timediff, replication, casts, cov_maxima."""
    rng = rs(case['seed'], 9)
    n, d = case['n'], case['d']
    x = rng.normal(size=(n, d))
    if case['layout']:
        x = np.asfortranarray(x)
    i, j = rng.choice(d, 2, replace=False).tolist()
    a = rng.rand() * 10 - 5
    y = x.copy()
    kw = {}
    if case['default']:
        i, j = 0, 1
    else:
        kw['columns'] = [i, j]
    if case['deg']:
        r = utils.rotate(y, a * 180 / np.pi, units='degrees', **kw)
    else:
        r = utils.rotate(y, a, **kw)
    want = x.copy()
    for t in range(n):
        want[t, [i, j]] = np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]]).dot(x[t, [i, j]])
    close(y, want, 1e-12, "rotate")
    k, l = rng.randint(n, size=2).tolist()
    y = x.copy()
    if n == d or not (case['rows'] and case['cols']):
        p, q = (k, l) if case['rows'] else (i, j)
        if case['rows'] and case['cols']:
            p, q = min(p, d - 1), min(q, d - 1)
        utils.permute(y, indices=[p, q], rows=int(case['rows']), cols=int(case['cols']))
        want = x.copy()
        if case['rows']:
            want[[p, q]] = want[[q, p]]
        if case['cols']:
            want[:, [p, q]] = want[:, [q, p]]
        check(np.array_equal(y, want), "permute %s rows=%s cols=%s", [p, q], case['rows'], case['cols'])
    close(utils.timediff(x), np.array([x[t + 1] - x[t] for t in range(n - 1)]).reshape(n - 1, d), 0., "timediff")
    m = rng.randint(1, 4)
    z = rng.normal(size=(2, 3, 2))
    check(np.array_equal(utils.lrep(z, m), np.stack([z] * m, 0)), "lrep")
    check(np.array_equal(utils.rrep(z, m), np.stack([z] * m, -1)), "rrep")
    for ax in range(4):
        check(np.array_equal(utils.irep(z, m, ax), np.stack([z] * m, ax)), "irep")
    check(utils.refcast(x, 'd') is x, "refcast copies needlessly")
    check(utils.refcast(x, 'f').dtype == np.float32, "refcast")
    s = utils.scast(1.5, 'f')
    check(s.dtype == np.float32 and s.shape == () and s == 1.5, "scast")
    c = rng.normal(size=(d, d))
    got = utils.cov_maxima(c)
    w, rest = [], np.abs(c)
    while rest.size:
        p, q = np.unravel_index(rest.argmax(), rest.shape)
        w.append(rest[p, q])
        rest = np.delete(np.delete(rest, p, 0), q, 1)
    close(np.array(got), np.array(w), 0., "cov_maxima")
    ctx.nontrivial()


@sub(st.fixed_dictionaries({'seed': seeds, 'N': st.integers(0, 30), 'k': st.integers(0, 30), 'sizes': st.lists(st.integers(0, 4), min_size=0, max_size=4),
                            'z': st.lists(st.sampled_from(['list', 'gen', 'scalar']), min_size=1, max_size=4), 'w': st.lists(st.sampled_from([0, 1, 2, 5]), min_size=1, max_size=5)}),
     quick=400, thorough=8000, rule="every case")
def counting(case, ctx):
    rng = rs(case['seed'], 10)
    N, k = case['N'], case['k']
    check(utils.comb(N, k) == math.comb(N, k), "comb(%d, %d) = %s", N, k, utils.comb(N, k))
    dic = {chr(97 + i): [10 * i + j for j in range(s)] for i, s in enumerate(case['sizes'])}
    got = list(utils.orthogonal_permutations(dic))
    keys = sorted(dic)
    want = [dict(zip(keys, v)) for v in itertools.product(*[dic[q] for q in keys])]

    def canon(l):
        return sorted(tuple(sorted(e.items())) for e in l)
    check(canon(got) == canon(want), "orthogonal_permutations of %s gives %s", dic, got)
    n = [rng.randint(0, 5) for _ in case['z']]
    its = [list(range(m)) if z == 'list' else iter(range(m)) if z == 'gen' else 7 for z, m in zip(case['z'], n)]
    if any(z != 'scalar' for z in case['z']):
        lim = min(m for z, m in zip(case['z'], n) if z != 'scalar')
        want = [tuple(7 if z == 'scalar' else t for z in case['z']) for t in range(lim)]
        check(list(utils.izip_stretched(*its)) == want, "izip_stretched")
    else:
        check(list(itertools.islice(utils.izip_stretched(*its), 3)) == [(7,) * len(its)] * 3, "izip_stretched of scalars")
    w = {i: float(v) for i, v in enumerate(case['w'])}
    if sum(w.values()) > 0:
        import random
        random.seed(case['seed'] % 999)
        w0 = dict(w)
        T = 1500
        c = collections.Counter(utils.weighted_choice(w) for _ in range(T))
        check(w == w0, "weights changed")
        s = sum(w.values())
        for i in w:
            p = w[i] / s
            check(abs(c[i] / float(T) - p) <= 7 * math.sqrt(p * (1 - p) / T) + 1e-12, "key of weight %g drawn %d times of %d", p, c[i], T)
        check(set(c) <= set(w), "other keys drawn")
        half = {'a': 0.25, 'b': 0.25}
        c = collections.Counter(utils.weighted_choice(half, normalize=False) for _ in range(T))
        check(abs(c[None] / float(T) - 0.5) < 0.1 and abs(c['a'] / float(T) - .25) < .1, "weights without normalisation")
    b = rng.rand(6) > 0.5
    check(np.array_equal(utils.bool_to_sign(b), np.where(b, 1, -1)), "bool_to_sign")
    v = rng.randint(-2, 3, size=8)
    check(np.array_equal(utils.sign_to_bool(v), v >= 0) and np.array_equal(utils.sign_to_bool(list(v), zero=False), v > 0), "sign_to_bool")
    ctx.nontrivial()


@sub(st.fixed_dictionaries({'seed': seeds, 'h': st.integers(1, 15), 'w': st.integers(1, 15), 'center': st.booleans(), 'res': st.sampled_from([1, 0.5, 2.]),
                            'ampl': st.sampled_from([1., 3.])}), quick=300, thorough=6000, rule="not square")
def gabor(case, ctx):
    rng = rs(case['seed'], 11)
    h, w = case['h'], case['w']
    alpha, phi, freq = rng.rand() * 6, rng.rand() * 6, rng.rand() * .4
    sg = 1 + 4 * rng.rand(2)
    kw = dict(res=case['res'], ampl=case['ampl'])
    cx, cy = w // 2, h // 2
    if case['center']:
        cx, cy = int(rng.randint(w)), int(rng.randint(h))
        kw['x0'] = (cx, cy)
    g = utils.gabor((h, w), alpha, phi, freq, tuple(sg), **kw)
    check(g.shape == (h, w), "shape %s", g.shape)
    Y, X = np.mgrid[:h, :w].astype(float)
    Y -= cy
    X -= cx
    f = freq * case['res']
    yr, xr = Y * np.cos(alpha) - X * np.sin(alpha), Y * np.sin(alpha) + X * np.cos(alpha)
    want = case['ampl'] * np.exp(-0.5 * (yr ** 2 / sg[0] ** 2 + xr ** 2 / sg[1] ** 2)) * np.cos(2 * np.pi * f * (X * np.cos(alpha) + Y * np.sin(alpha)) + phi)
    close(g, want, 1e-10, "gabor")
    ctx.nontrivial(h != w)
