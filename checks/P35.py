"""Locally linear embedding against an independent reference (brute-force neighbours, constrained least squares, full eigenproblem); planar and rolled data for the Hessian variant."""
import numpy as np
import scipy.linalg
import mdp
from mdp import nodes
from lib.harness import sub, check, close, st, raises
from lib import gen
from lib.gen import seeds, rs


def weights(z, r, d_out):
    """Weights of the rows of z (neighbours minus sample): minimise |w z|^2 + regularisation with sum 1, by the KKT system."""
    k = len(z)
    q = z.dot(z.T)
    sv = np.linalg.svd(z, compute_uv=False) ** 2
    reg = sv[d_out:].sum() if r is None else r * np.trace(q)
    a = q + np.eye(k) * max(reg, 0)
    # (accuracy of the solution)
    c = np.linalg.cond(a)
    if not c < 1e15:
        return np.ones(k) / k, np.inf, 0.
    w = scipy.linalg.solve(a, np.ones(k), assume_a='sym')
    return w / w.sum(), c * np.abs(w / w.sum()).max(), abs(w.sum()) / np.abs(w).sum()


def neighbours(m, x, k, skip=None):
    d = np.sqrt(((m - x) ** 2).sum(axis=1))
    if skip is not None:
        d[skip] = np.inf
    o = np.argsort(d)
    gap = (d[o[k]] - d[o[k - 1]]) / d[o[k - 1]] if k < len(d) and np.isfinite(d[o[k]]) else 1.
    return o[:k], gap


def dataset(case):
    r = rs(case['seed'])
    n, d = case['n'], case['d']
    kind = case['kind']
    if kind == 'normal':
        x = r.normal(size=(n, d))
    elif kind == 'uniform':
        x = r.uniform(-1, 1, size=(n, d)) * (1 + np.arange(d))
    elif kind == 'curve':
        t = np.sort(r.uniform(0, 3, size=n))[r.permutation(n)]
        x = np.stack([np.cos(t), np.sin(t)] + [t ** (i + 1) * 0.3 for i in range(d)], axis=1)[:, :d]
    else:
        u = r.uniform(-1, 1, size=(n, 2))
        x = np.stack([u[:, 0], u[:, 1], u[:, 0] ** 2 - 0.5 * u[:, 1] ** 2] + [np.sin(i + u[:, 0]) for i in range(d)], axis=1)[:, :d]
    return x * 10. ** case['scale'] + (3 * 10. ** case['scale'] if case['shift'] else 0)


CASE = {'n': st.integers(8, 40), 'd': st.integers(2, 5), 'k': st.integers(1, 9), 'out': st.integers(1, 4), 'r': st.sampled_from([0.001, 0.001, 0.01, 1e-4, 0.1, None, None]), 'seed': seeds,
        'kind': st.sampled_from(['normal', 'uniform', 'curve', 'surface']), 'scale': st.integers(-4, 4), 'shift': st.booleans(), 'svd': st.booleans(), 'chunks': st.integers(1, 4)}


def trained(case, cls=nodes.LLENode, **kw):
    x = dataset(case)
    node = cls(case['k'], svd=case['svd'], **kw)
    for c in gen.split(x, gen.cuts(rs(case['seed'], 5), len(x), case['chunks'])):
        node.train(c)
    node.stop_training()
    return node, x


def geometry(case, x):
    """(neighbour lists, local differences) or None if not in general position"""
    out = []
    for i in range(len(x)):
        nb, gap = neighbours(x, x[i], case['k'], i)
        if gap < 1e-6:
            return None
        out.append((nb, x[nb] - x[i]))
    return out


@sub(st.fixed_dictionaries(dict(CASE, float_out=st.sampled_from([None] * 5 + [0.5, 0.8, 0.9, 0.95, 1.0]), new=st.integers(1, 4))),
     quick=5000, thorough=50000, rule='embedding compared with the reference')
def embedding(case, ctx):
    """Training projection: constraints, optimality, reference; execution of training and new samples."""
    x = dataset(case)
    n, d, k, r = len(x), case['d'], case['k'], case['r']
    fl = case['float_out']
    if fl is None and case['out'] > d:
        return 'discard'
    if k >= n:
        raises(mdp.TrainingException, lambda: trained(case, output_dim=1, r=r), 'more neighbours than other samples')
        return
    geo = geometry(case, x)
    if geo is None:
        return 'discard'
    if fl is not None:
        # fractional dimension of every neighbourhood
        est = []
        for nb, z in geo:
            s = np.linalg.svd(z, compute_uv=False) ** 2
            s = s / s.sum()
            c = np.concatenate([[0.], np.cumsum(s)])
            c[-1] = 1.
            j = np.searchsorted(c[1:], fl)
            if fl == 1.:
                # every direction with variance
                est.append(float((s > 1e-13).sum()))
                continue
            est.append(j + (fl - c[j]) / s[j])
        med = np.median(est)
        if abs(med - round(med)) < 1e-6 and not fl == 1.:
            return 'discard'
        d_out = int(np.ceil(med - 1e-9))
    else:
        d_out = case['out']
    if fl == 1.0 and (min(k, d) != d_out or case['kind'] == 'curve'):
        return 'discard'
    ref, acc = [], 0.
    for nb, z in geo:
        w, c, s = weights(z, r, d_out)
        acc = max(acc, c, 1. / max(s, 1e-300))
        ref.append(w)
    if acc > 1e7 or d_out > n - 2:
        return 'discard'
    a = np.eye(n)
    for i, (nb, _) in enumerate(geo):
        a[i, nb] -= ref[i]
    cost = a.T.dot(a)
    ev, vec = np.linalg.eigh(cost)
    top = ev[-1]
    if ev[1] - ev[0] < 1e-9 * top:
        return 'discard'
    node, _ = trained(case, output_dim=fl if fl is not None else d_out, r=r)
    check(node.output_dim == d_out, 'output_dim is %r instead of %r' % (node.output_dim, d_out))
    y = np.asarray(node.training_projection)
    check(y.shape == (n, d_out), 'shape of the embedding')
    err = 1e-12 * acc * top / (ev[1] - ev[0]) + 1e-9
    # centred, decorrelated, equal variance
    close(y.sum(axis=0), np.zeros(d_out), max(err, 1e-7) * n, 'the embedding is not centred')
    close(y.T.dot(y), np.eye(d_out) * (y ** 2).sum() / d_out, 1e-9 * n, 'the embedding is not decorrelated with equal variances')
    # optimal
    got = np.einsum('ij,ij->j', y, cost.dot(y)) / (y ** 2).sum(axis=0)
    close(got, ev[1:d_out + 1], 1e-11 * acc + 1e-9, 'reconstruction cost is not the minimal one', scale=top)
    if d_out + 1 < n and ev[d_out + 1] - ev[d_out] > 1e-6 * top:
        u = y / np.sqrt((y ** 2).sum(axis=0))
        p = vec[:, 1:d_out + 1]
        close(u.dot(u.T), p.dot(p.T), 1e-12 * acc * top / (ev[d_out + 1] - ev[d_out]) + 1e-9 + err, 'the embedding spans another space than the bottom eigenvectors')
        ctx.nontrivial()
        ctx.label('svd' if case['svd'] else 'symeig')
        ctx.label('float' if fl is not None else 'auto' if r is None else 'r')
    # execution
    rr = rs(case['seed'], 9)
    rows = rr.permutation(n)[:4]
    sep = [np.sqrt(((x - x[i]) ** 2).sum(axis=1)) for i in rows]
    new = np.concatenate([x[rr.permutation(n)[:case['new']]], x[rr.permutation(n)[:case['new']]]]).reshape(2, -1, d).mean(axis=0) + rr.normal(size=(min(case['new'], n), d)) * 0.05 * x.std(axis=0)
    want, tol, use = [], [], []
    for i, v in enumerate(new):
        nb, gap = neighbours(x, v, k)
        w, c, s = weights(x[nb] - v, r, d_out)
        if gap > 1e-6 and c < 1e9 and s > 1e-6:
            use.append(i)
            want.append(w.dot(y[nb]))
            tol.append(1e-12 * c / s + 1e-9)
    out = np.asarray(node.execute(new))
    check(out.shape == (len(new), d_out), 'shape of the output')
    for i, w, t in zip(use, want, tol):
        close(out[i], w, t, 'a new sample is not mapped by its own neighbour weights', scale=max(1, np.abs(y).max()))
        single = np.asarray(node.execute(new[i:i + 1]))
        close(single[0], out[i], t, 'a sample alone')
    # the same for training samples, whose first neighbour is the sample
    out = np.asarray(node.execute(x[rows]))
    for i, row in enumerate(rows):
        nb, gap = neighbours(x, x[row], k)
        z = x[nb] - x[row]
        if k == 1:
            close(out[i], y[row], 1e-9, 'execution of a training sample with one neighbour')
            continue
        others = z[1:].dot(z[1:].T)
        c = np.linalg.cond(others)
        reg = (np.linalg.svd(z, compute_uv=False) ** 2)[d_out:].sum() if r is None else r * np.trace(others)
        if c < 1e6 and reg < 1e-9 * np.trace(others):
            # nothing but the sample itself
            close(out[i], y[row], 1e-6, 'execution of a training sample', scale=max(1, np.abs(y).max()))
            ctx.label('training sample')
        elif gap > 1e-6 and reg > 1e-7 * np.trace(others):
            w, c, s = weights(z, r, d_out)
            close(out[i], w.dot(y[nb]), 1e-11 * c + 1e-8, 'execution of a training sample with regularisation', scale=max(1, np.abs(y).max()))


@sub(st.fixed_dictionaries(dict(CASE, r=st.sampled_from([1e-9, 1e-8]), rot=seeds)), quick=2500, thorough=20000, rule='at least 3 neighbours')
def invariance(case, ctx):
    """Training samples are returned (few neighbours, tiny regularisation); the embedding ignores translation, rotation and scale, and the order of the samples."""
    d = case['d']
    case['k'] = k = 1 + case['k'] % d
    if case['kind'] in ('curve',):
        case['kind'] = 'uniform'
    x = dataset(case)
    geo = geometry(case, x)
    if geo is None or case['out'] > d or max(np.linalg.cond(z.dot(z.T)) for _, z in geo) > 1e5:
        return 'discard'
    if min(abs(weights(z, 0., 1)[2]) for _, z in geo) < 1e-4:
        return 'discard'
    node = nodes.LLENode(k, r=case['r'], svd=case['svd'], output_dim=case['out'])
    node.train(x)
    node.stop_training()
    y = node.training_projection
    close(node.execute(x), y, 1e-2 * case['r'] * 1e5 + 1e-6, 'the embedding of training samples', scale=max(1, np.abs(y).max()))
    r = rs(case['rot'])
    p = r.permutation(len(x))
    x2 = (x.dot(gen.rot(r, d)) * 10. ** r.uniform(-3, 3) + r.normal(size=d) * np.abs(x).max())[p]
    n2 = nodes.LLENode(k, r=case['r'], svd=case['svd'], output_dim=case['out'])
    n2.train(x2)
    n2.stop_training()
    y2 = n2.training_projection
    ev = spectrum(x, geo, case['r'])
    c = case['out']
    if ev[1] - ev[0] > 1e-5 * ev[-1] and c + 1 < len(x) and ev[c + 1] - ev[c] > 1e-4 * ev[-1]:
        close(y2.dot(y2.T), y[p].dot(y[p].T), 1e-4, 'translation, rotation, scale or order matters')
        if k > 2:
            ctx.nontrivial()


def spectrum(x, geo, r):
    a = np.eye(len(x))
    for i, (nb, z) in enumerate(geo):
        a[i, nb] -= weights(z, r, 1)[0]
    return np.linalg.eigvalsh(a.T.dot(a))


def affine_fit(u, y):
    """Largest relative residual of u as an affine function of y."""
    a = np.hstack([y / np.abs(y).max(), np.ones((len(y), 1))])
    c = np.linalg.lstsq(a, u, rcond=None)[0]
    return (np.abs(a.dot(c) - u) / u.std(axis=0)).max(), np.sqrt(((a.dot(c) - u) ** 2).mean(axis=0)).max() / u.std(axis=0).min()


@sub(st.fixed_dictionaries({'n': st.integers(20, 70), 'd': st.integers(1, 3), 'extra': st.integers(0, 3), 'k': st.integers(0, 6), 'seed': seeds, 'svd': st.booleans(), 'scale': st.integers(-3, 3),
                            'out': st.sampled_from(['int', 'int', 'float']), 'chunks': st.integers(1, 3), 'lle': st.booleans()}),
     quick=2000, thorough=20000, rule='two or three dimensional planes')
def planes(case, ctx):
    """Flat pieces in higher dimensions are recovered exactly, up to an affine map."""
    r = rs(case['seed'])
    d, D = case['d'], case['d'] + case['extra']
    n = case['n'] + 10 * d
    u = r.uniform(-1, 1, size=(n, d))
    x = u.dot(gen.rot(r, D)[:d]) * 10. ** case['scale'] + r.normal(size=D) * 10. ** case['scale']
    full = 1 + d + d * (d + 1) // 2
    if case['lle']:
        k = d + 3 + case['k']
        node = nodes.LLENode(k, r=1e-7, svd=case['svd'], output_dim=d)
    else:
        k = full + 1 + case['k']
        if case['out'] == 'float' and D > d:
            node = nodes.HLLENode(k, svd=case['svd'], output_dim=0.9999)
        else:
            node = nodes.HLLENode(k, svd=case['svd'], output_dim=d)
    geo = geometry({'k': k}, x)
    if geo is None:
        return 'discard'
    # the neighbourhoods must be connected and not flat themselves
    adj = np.zeros((n, n), dtype=bool)
    for i, (nb, z) in enumerate(geo):
        adj[i, nb] = True
    adj |= adj.T
    reach = np.linalg.matrix_power((adj + np.eye(n)).clip(0, 1), 1)
    seen = np.zeros(n, dtype=bool)
    seen[0] = True
    for _ in range(n):
        seen |= adj[seen].any(axis=0)
    if not seen.all():
        return 'discard'
    if not case['lle']:
        cost = np.zeros((n, n))
        for i, (nb, z) in enumerate(geo):
            c = u[nb] - u[nb].mean(axis=0)
            s = np.linalg.svd(c, compute_uv=False)
            b = np.hstack([np.ones((k, 1)), c / s[0]] + [(c[:, [i]] * c[:, [j]]) / s[0] ** 2 for i in range(d) for j in range(i, d)])
            if np.linalg.cond(b) > 1e3:
                return 'discard'
            q = np.linalg.qr(b)[0][:, d + 1:]
            cost[np.ix_(nb, nb)] += q.dot(q.T)
        ev = np.linalg.eigvalsh(cost)
        if ev[d + 1] < 1e-4 * ev[-1]:
            return 'discard'
    else:
        ev = spectrum(x, geo, 1e-7)
        if ev[d + 1] < 1e-4 * ev[-1] or ev[d] > 1e-9:
            return 'discard'
    for c in gen.split(x, gen.cuts(r, n, case['chunks'])):
        node.train(c)
    node.stop_training()
    check(node.output_dim == d, 'output_dim is %r for a %d dimensional plane' % (node.output_dim, d))
    y = node.training_projection
    # (not centred: all affine functions have the same cost 0)
    g = y.T.dot(y)
    close(g / g[0, 0], np.eye(d), 1e-7, 'the embedding is not decorrelated with equal variances')
    res = affine_fit(u, y)[0]
    check(res < (1e-3 if case['lle'] else 1e-6), 'the plane is not recovered, residual %g' % res)
    # new samples inside
    v = u[r.permutation(n)[:5]] * 0.5 + u[r.permutation(n)[:5]] * 0.5
    xv = v.dot(np.linalg.lstsq(np.hstack([u, np.ones((n, 1))]), x, rcond=None)[0][:-1]) + np.linalg.lstsq(np.hstack([u, np.ones((n, 1))]), x, rcond=None)[0][-1]
    a = np.linalg.lstsq(np.hstack([u, np.ones((n, 1))]), y, rcond=None)[0]
    if not case['lle'] and d < k:
        node.r = 1e-8
        out = node.execute(xv)
        close(out / np.abs(y).max(), (np.hstack([v, np.ones((5, 1))]).dot(a)) / np.abs(y).max(), 1e-3, 'new samples of the plane')
    ctx.label('lle' if case['lle'] else 'hlle')
    if d > 1:
        ctx.nontrivial()


@sub(st.fixed_dictionaries({'n': st.integers(150, 260), 'k': st.integers(8, 12), 'seed': seeds, 'svd': st.just(False), 'kind': st.sampled_from(['cylinder', 'spiral', 'hole']), 'turn': st.floats(0.5, 2.5)}),
     quick=120, thorough=1200, rule='every case')
def rolled(case, ctx):
    """Rolled sheets (isometric to a plane), also with a hole, are unrolled approximately."""
    r = rs(case['seed'])
    n = case['n']
    g = int(np.sqrt(n / 1.5))
    a, b = np.meshgrid(np.arange(int(1.5 * g)), np.arange(g))
    u = np.stack([a.ravel(), b.ravel()], axis=1) + r.uniform(-0.25, 0.25, size=(a.size, 2))
    u = u / float(g)
    if case['kind'] == 'hole':
        u = u[((u - [0.75, 0.5]) ** 2).sum(axis=1) > 0.04]
    t = case['turn']
    if case['kind'] == 'spiral':
        # arc length of a slowly growing curve
        s = np.linspace(0, 1.6, 4001)
        ang = t * s
        px, py = np.cumsum(np.cos(ang * (1 - 0.2 * s))) * s[1], np.cumsum(np.sin(ang * (1 - 0.2 * s))) * s[1]
        x = np.stack([np.interp(u[:, 0], s, px), np.interp(u[:, 0], s, py), u[:, 1]], axis=1)
    else:
        x = np.stack([np.cos(t * u[:, 0]) / t, np.sin(t * u[:, 0]) / t, u[:, 1]], axis=1)
    node = nodes.HLLENode(case['k'], output_dim=2)
    node.train(x)
    node.stop_training()
    y = node.training_projection
    res = affine_fit(u, y)[1]
    check(res < 0.1, 'the sheet is not unrolled: residual %g' % res)
    ctx.nontrivial()


@sub(st.fixed_dictionaries({'n': st.integers(2, 12), 'k': st.integers(1, 14), 'out': st.integers(1, 3), 'hess': st.booleans(), 'seed': seeds}), quick=400, thorough=2000, rule='too many neighbours')
def limits(case, ctx):
    """Numbers of neighbours that are not available are refused."""
    x = rs(case['seed']).normal(size=(case['n'], 3))
    node = (nodes.HLLENode if case['hess'] else nodes.LLENode)(case['k'], output_dim=case['out'])
    node.train(x)
    if case['k'] >= case['n'] or case['hess'] and case['k'] <= case['out']:
        raises(mdp.TrainingException, node.stop_training, 'training with unavailable neighbours')
        ctx.nontrivial()
    elif not case['hess'] and case['out'] <= case['n'] - 1:
        node.stop_training()
        check(node.training_projection.shape == (case['n'], case['out']), 'shape of the embedding')
