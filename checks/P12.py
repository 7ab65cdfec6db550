"""Time windows, hit parades, clipping, histograms, noise, normalisation and 2-D convolution against their definitions."""
import os
import pickle
import numpy as np
import mdp
from mdp.nodes.convolution_nodes import Convolution2DNode
from lib.harness import sub, check, close, st, raises
from lib import gen
from lib.gen import seeds, rs

N = mdp.nodes


def series(rng, n, d, kind):
    if kind == 'S1':
        return np.array([chr(97 + v) for v in rng.randint(26, size=n * d)], dtype='S1').reshape(n, d)
    if kind in 'il':
        return rng.randint(-100, 100, size=(n, d)).astype(kind)
    return rng.normal(size=(n, d)).astype(kind)


@sub(st.fixed_dictionaries({'seed': seeds, 'd': st.integers(1, 4), 'n': st.one_of(*([st.integers(1, 25)] * 5 + [st.sampled_from([70, 150, 300])])), 'tf': st.integers(1, 6), 'gap': st.integers(1, 5),
                            'kind': st.sampled_from(['d', 'd', 'f', 'i', 'S1']), 'idim': st.booleans(), 'layout': st.booleans()}),
     quick=1200, thorough=40000, shards=2, rule="more than one frame and a usable length")
def windows(case, ctx):
    rng = rs(case['seed'], 1)
    d, n, tf, gap = case['d'], case['n'], case['tf'], case['gap']
    x = series(rng, n, d, case['kind'])
    xl = gen.layouts(rng, x) if case['layout'] else x
    kw = {'input_dim': d} if case['idim'] else {}
    T = n - (tf - 1) * gap
    node = N.TimeFramesNode(tf, gap, **kw)
    if T > 0:
        y = node.execute(xl)
        want = np.zeros((T, d * tf), x.dtype)
        for k in range(tf):
            want[:, k * d:(k + 1) * d] = x[k * gap:k * gap + T]
        check(y.shape == want.shape and y.dtype == x.dtype and node.output_dim == d * tf, "time frames: %s %s", y.shape, y.dtype)
        check(np.array_equal(y, want), "time frames of %d rows, %d frames, gap %d", n, tf, gap)
        back = node.pseudo_inverse(y)
        known = sorted(set(t + k * gap for t in range(T) for k in range(tf)))
        check(back.shape == x.shape and back.dtype == x.dtype, "pseudo-inverse %s %s of %s", back.shape, back.dtype, x.shape)
        check(np.array_equal(back[known], x[known]), "pseudo-inverse does not restore the series")
        rest = [i for i in range(n) if i not in set(known)]
        check(np.array_equal(back[rest], np.zeros((len(rest), d), x.dtype)), "pseudo-inverse: rows that occur in no frame are zero")
    delay = N.TimeDelayNode(tf, gap, **kw)
    y = delay.execute(xl)
    want = np.zeros((n, d * tf), x.dtype)
    for k in range(tf):
        for t in range(k * gap, n):
            want[t, k * d:(k + 1) * d] = x[t - k * gap]
    check(y.shape == want.shape and y.dtype == x.dtype and np.array_equal(y, want), "time delay of %d rows, %d frames, gap %d", n, tf, gap)
    raises(NotImplementedError, lambda: delay.pseudo_inverse(y), "pseudo-inverse of the delay node")
    slide = N.TimeDelaySlidingWindowNode(tf, gap, **kw)
    rows = [slide.execute(xl[t:t + 1]) for t in range(n)]
    check(all(r.shape == (1, d * tf) for r in rows), "sliding window row shape")
    check(np.array_equal(np.concatenate(rows), want), "sliding window of %d frames, gap %d differs from the delay node", tf, gap)
    raises(mdp.NodeException, lambda: N.TimeFramesNode(tf, gap).set_output_dim(3), "explicit output dimension")
    ctx.nontrivial(tf > 1 and T > 0)


class Parade(object):
    """Sequential definition: keep n hits, a hit closer than the gap to the last one replaces it when larger."""
    def __init__(self, n, d):
        self.n, self.d = n, d
        self.hits = []          # [value, index], in slot order
        self.last = None

    def push(self, v, i):
        full = len(self.hits) == self.n
        low = min(range(len(self.hits)), key=lambda k: self.hits[k][0]) if full else None
        if full and not v > self.hits[low][0]:
            return
        if self.last is not None and i - self.hits[self.last][1] <= self.d:
            if v > self.hits[self.last][0]:
                self.hits[self.last] = [v, i]
            return
        if full:
            self.hits[low] = [v, i]
            self.last = low
        else:
            self.hits.append([v, i])
            self.last = len(self.hits) - 1


@sub(st.fixed_dictionaries({'seed': seeds, 'c': st.integers(1, 3), 'len': st.one_of(*([st.integers(1, 80)] * 5 + [st.sampled_from([130, 260, 600])])), 'n': st.one_of(*([st.integers(1, 6)] * 5 + [st.sampled_from([9, 15])])), 'd': st.integers(1, 8), 'nch': st.one_of(*([st.integers(1, 6)] * 5 + [st.sampled_from([20, 60])])),
                            'kind': st.sampled_from(['d', 'd', 'f', 'i', 'l']), 'shape': st.sampled_from(['noise', 'walk', 'up', 'down', 'neg'])}),
     quick=1200, thorough=40000, shards=2, rule="more than one hit possible")
def hitparade(case, ctx):
    rng = rs(case['seed'], 2)
    T, c, n, d = case['len'], case['c'], case['n'], case['d']
    # distinct values, so that the parade is unambiguous
    cols = []
    for j in range(c):
        v = rng.permutation(T * 3)[:T].astype(float)
        if case['shape'] == 'walk':
            v = np.argsort(np.argsort(np.cumsum(v - v.mean()))).astype(float)
        elif case['shape'] == 'up':
            v = np.sort(v)
        elif case['shape'] == 'down':
            v = np.sort(v)[::-1]
        elif case['shape'] == 'neg':
            v = v - 1000
        cols.append(v - T)
    x = np.array(cols).T
    if case['kind'] in 'df':
        x = x * 0.37
    x = x.astype(case['kind'])
    node = N.HitParadeNode(n, d)
    for ch in gen.split(x, gen.cuts(rng, T, case['nch'])):
        node.train(ch)
    M, iM = node.get_maxima()
    m, im = node.get_minima()
    check(M.shape == iM.shape == m.shape == im.shape == (n, c) and M.dtype == m.dtype == x.dtype, "shapes and types %s %s %s", M.shape, M.dtype, m.dtype)
    for j in range(c):
        for name, V, I, sgn in (('maxima', M, iM, 1), ('minima', m, im, -1)):
            p = Parade(n, d)
            for i, v in enumerate(x[:, j].tolist()):
                p.push(sgn * v, i)
            want = sorted(p.hits, key=lambda h: -h[0])
            k = len(want)
            got = [(sgn * V[i, j].item(), int(I[i, j])) for i in range(n)]
            check(got[:k] == [(v, i) for v, i in want], "%s of column %d: %s, definition %s", name, j, got, want)
            check(got[0] == (max(sgn * x[:, j].astype(float)), int((sgn * x[:, j].astype(float)).argmax())), "global extremum missing: %s", got)
            for a, b in zip(got[:k], got[1:k]):
                check(a[0] >= b[0], "%s not sorted", name)
            for a in range(k):
                for b in range(a):
                    check(abs(got[a][1] - got[b][1]) > d, "hits %s and %s closer than the gap %d", got[a], got[b], d)
    close(np.asarray(node.execute(x), float), x.astype(float), 0, "analysis node passes data through")
    ctx.nontrivial(T > d + 1 and n > 1)


@sub(st.fixed_dictionaries({'seed': seeds, 'd': st.integers(1, 4), 'n': st.one_of(*([st.integers(5, 60)] * 5 + [st.sampled_from([130, 400, 900])])), 'nch': st.one_of(*([st.integers(1, 4)] * 5 + [st.sampled_from([12, 40])])), 'f32': st.booleans(), 't': st.sampled_from([1, 5, 'T']),
                            'sine': st.booleans()}),
     quick=500, thorough=10000, rule="every case")
def eta(case, ctx):
    rng = rs(case['seed'], 3)
    n, d = case['n'], case['d']
    if case['sine']:
        n = 400 + n
        k = rng.randint(1, 6, size=d)
        x = np.sin(2 * np.pi * np.arange(n + 1)[:, None] / n * k + rng.rand(d) * 6) * rng.uniform(0.1, 9, size=d) + rng.normal(size=d)
        sizes = [n + 1]
    else:
        x = rng.normal(size=(n, d)) * rng.uniform(0.1, 5, size=d) + rng.normal(size=d)
        sizes = gen.cuts(rng, n, case['nch'], mn=1)
    if case['f32']:
        x = x.astype('f')
    node = N.EtaComputerNode()
    for c in gen.split(x, sizes):
        node.train(c)
    X = gen.split(x.astype(float), sizes)
    used = np.concatenate([c[:-1] for c in X])
    T = len(used)
    if T < 2:
        return
    t = T if case['t'] == 'T' else case['t']
    delta = sum((np.diff(c, axis=0) ** 2).sum(axis=0) for c in X) / T / used.var(axis=0, ddof=1)
    want = np.sqrt(delta) / (2 * np.pi) * t
    got = node.get_eta(t=t)
    check(got.shape == (d,) and got.dtype == x.dtype, "eta %s %s", got.shape, got.dtype)
    close(got.astype(float), want, 1e-3 if case['f32'] else 1e-9, "eta values", scale=np.abs(want).max())
    if case['sine']:
        close(node.get_eta(t=T).astype(float), k.astype(float), 0.02, "eta of a sine is its number of oscillations")
    ctx.nontrivial()


@sub(st.fixed_dictionaries({'seed': seeds, 'd': st.integers(1, 4), 'n': st.one_of(*([st.integers(1, 30)] * 5 + [st.sampled_from([130, 600])])), 'lo': st.sampled_from([None, -0.5, 0, -3]), 'up': st.sampled_from([None, 0.5, 0, 3, 1]),
                            'kind': st.sampled_from(['d', 'd', 'f', 'i'])}),
     quick=500, thorough=10000, rule="a bound that cuts something")
def cutoff(case, ctx):
    rng = rs(case['seed'], 4)
    lo, up = case['lo'], case['up']
    x = (rng.normal(size=(case['n'], case['d'])) * 2).astype(case['kind'])
    if case['kind'] == 'i':
        lo = None if lo is None else int(lo)
        up = None if up is None else int(up)
    if lo is not None and up is not None and lo > up:
        return
    x[0, 0] = lo or 0
    node = N.CutoffNode(lower_bound=lo, upper_bound=up)
    x0 = x.copy()
    y = node.execute(x)
    want = np.clip(x.astype(float), -np.inf if lo is None else lo, np.inf if up is None else up)
    check(y.dtype == x.dtype, "dtype %s for %s", y.dtype, x.dtype)
    close(y.astype(float), want, 0, "clipped values")
    check(np.array_equal(x, x0), "input changed")
    ctx.nontrivial(not np.array_equal(want, x))


@sub(st.fixed_dictionaries({'seed': seeds, 'd': st.integers(1, 4), 'n': st.one_of(*([st.integers(2, 200)] * 5 + [st.sampled_from([600, 1500])])), 'nch': st.one_of(*([st.integers(1, 5)] * 5 + [st.sampled_from([12, 40])])), 'lo': st.sampled_from([None, 0.05, 0.25, 0.4]),
                            'up': st.sampled_from([None, 0.05, 0.2, 0.5]), 'frac': st.sampled_from([1.0, 1.0, 0.5, 0.9]), 'file': st.booleans(),
                            'kind': st.sampled_from(['d', 'd', 'f', 'i', 'S1'])}),
     quick=800, thorough=20000, shards=2, rule="learned bounds or a sampled history")
def histogram(case, ctx):
    rng = rs(case['seed'], 5)
    n, d = case['n'], case['d']
    x = series(rng, n, d, case['kind'])
    lo, up = case['lo'], case['up']
    fn = os.path.join(ctx.tmpdir(), 'hist.pickle') if case['file'] else None
    if case['kind'] == 'S1':
        node = N.HistogramNode(hist_fraction=case['frac'], hist_filename=fn)
        lo = up = None
    else:
        node = N.AdaptiveCutoffNode(lo, up, hist_fraction=case['frac'], hist_filename=fn)
    chunks = gen.split(x, gen.cuts(rng, n, case['nch']))
    gen.reseed(case['seed'] % 5000)
    for c in chunks:
        c = c.copy()
        node.train(c)
        c[:] = c[::-1].copy() if len(c) else c          # the history keeps its own copy
    hist = node.data_hist.copy()
    if len(hist) == 0:
        return
    node.stop_training()
    if fn:
        with open(fn, 'rb') as f:
            h2 = pickle.load(f)
        check(h2.dtype == x.dtype and np.array_equal(h2, hist), "pickled history")
        check(node.data_hist is None, "history must be cleared after pickling")
    else:
        check(np.array_equal(node.data_hist, hist), "history changed at the end of training")
    check(hist.dtype == x.dtype, "history dtype %s", hist.dtype)
    if case['frac'] == 1.0:
        check(np.array_equal(hist, x), "history is not the training data")
    else:
        k = 0
        for r in hist:                                   # an ordered subset of the rows
            while k < n and not np.array_equal(x[k], r):
                k += 1
            check(k < n, "history is no ordered subset of the training rows")
            k += 1
        if n > 100:
            check(abs(len(hist) / float(n) - case['frac']) < 0.25, "kept %d of %d rows with fraction %g", len(hist), n, case['frac'])
    if case['kind'] == 'S1':
        check(np.array_equal(node.execute(x), x), "passes data through")
        ctx.nontrivial(case['frac'] < 1)
        return
    y = node.execute(x)
    srt = np.sort(hist.astype(float), axis=0)
    h = len(hist)
    want = x.astype(float)
    if lo is not None:
        b = np.asarray(node.lower_bounds, float)
        check(b.shape == (d,), "one lower bound per channel")
        cut = (hist < b).sum(axis=0)
        check((cut <= lo * h + 1e-9).all() and ((hist <= b).sum(axis=0) >= lo * h - 1e-9).all(), "lower bounds cut %s of %d for fraction %g", cut, h, lo)
        want = np.maximum(want, b)
    else:
        check(node.lower_bounds is None, "no lower cutoff asked for")
    if up is not None:
        b = np.asarray(node.upper_bounds, float)
        cut = (hist > b).sum(axis=0)
        check((cut <= up * h + 1e-9).all() and ((hist >= b).sum(axis=0) >= up * h - 1e-9).all(), "upper bounds cut %s of %d for fraction %g", cut, h, up)
        want = np.minimum(want, b)
    else:
        check(node.upper_bounds is None, "no upper cutoff asked for")
    close(y.astype(float), want, 0, "clipping at the learned bounds")
    check(y.dtype == x.dtype, "dtype %s", y.dtype)
    ctx.nontrivial(lo is not None or up is not None or case['frac'] < 1)


def ramp(a, b, size):
    return (np.arange(np.prod(size)).reshape(size) * a + b)


@sub(st.fixed_dictionaries({'seed': seeds, 'd': st.integers(1, 4), 'n': st.one_of(*([st.integers(1, 20)] * 5 + [st.sampled_from([130, 300])])), 'kind': st.sampled_from(['d', 'd', 'f', 'i']),
                            'type': st.sampled_from(['additive', 'multiplicative', 'normal']), 'func': st.sampled_from(['ramp', 'normal', 'default', 'uniform', 'triangular', 'poisson']),
                            'a': st.sampled_from([0., 1., 2., -0.5]), 'b': st.sampled_from([0., 1., 3.])}),
     quick=500, thorough=10000, rule="noise not zero")
def noise(case, ctx):
    rng = rs(case['seed'], 6)
    n, d = case['n'], case['d']
    x = series(rng, n, d, case['kind'])
    a, b = case['a'], case['b']
    k = case['seed'] % 777
    if case['type'] == 'normal':
        if case['kind'] == 'i':
            return
        node = N.NormalNoiseNode(noise_args=(a, b))
        np.random.seed(k)
        want = x + (np.random.normal(size=x.shape) * b + a).astype(x.dtype)
    else:
        f = {'ramp': ramp, 'normal': np.random.normal, 'uniform': np.random.uniform, 'triangular': np.random.triangular, 'poisson': np.random.poisson, 'default': np.random.normal}[case['func']]
        if case['func'] in ('normal', 'default'):
            b = abs(b)
        args = {'triangular': (a - 1, a, a + 1 + b), 'poisson': (b,)}.get(case['func'], (a, b))
        if case['func'] == 'default':
            node = N.NoiseNode(noise_type=case['type'])
            args = (0, 1)
        else:
            node = N.NoiseNode(f, args, case['type'])
        np.random.seed(k)
        z = np.asarray(f(*args, size=x.shape))
        z = z.astype(x.dtype)
        want = x + z if case['type'] == 'additive' else x * (1 + z)
    np.random.seed(k)
    x0 = x.copy()
    y = node.execute(x)
    check(y.dtype == x.dtype, "dtype %s for %s", y.dtype, x.dtype)
    close(y.astype(float), want.astype(float), 1e-6 if case['kind'] == 'f' else 1e-13, "%s noise" % case['type'])
    check(np.array_equal(x, x0), "input changed")
    # a stored node applies the same noise function (module level functions are pickled by name)
    c = N.NoiseNode(ramp, (a, b), case['type'] if case['type'] != 'normal' else 'additive')
    p = pickle.loads(c.save(None))
    check(np.array_equal(p.execute(x), c.execute(x)), "saved noise node gives other noise")
    raises(mdp.NodeException, lambda: N.NoiseNode(noise_type='other'), "unknown noise type")
    ctx.nontrivial(not np.array_equal(y, x))


@sub(st.fixed_dictionaries({'seed': seeds, 'd': st.integers(1, 5), 'n': st.one_of(*([st.integers(2, 40)] * 5 + [st.sampled_from([130, 400])])), 'nch': st.one_of(*([st.integers(1, 4)] * 5 + [st.sampled_from([12, 40])])), 'f32': st.booleans()}),
     quick=300, thorough=6000, rule="every case")
def normalize(case, ctx):
    rng = rs(case['seed'], 7)
    x = rng.normal(size=(case['n'], case['d'])) * rng.uniform(0.2, 4, size=case['d']) + rng.normal(size=case['d'])
    if case['f32']:
        x = x.astype('f')
    X = x.astype(float)
    if X.std(axis=0).min() < 0.05:
        return
    node = N.NormalizeNode()
    for c in gen.split(x, gen.cuts(rng, case['n'], case['nch'])):
        node.train(c)
    node.stop_training()
    z = rng.normal(size=(4, case['d'])).astype(x.dtype)
    tol = 5e-3 if case['f32'] else 1e-9
    y = node.execute(z)
    close(y.astype(float), (z - X.mean(axis=0)) / X.std(axis=0, ddof=1), tol, "normalised data")
    close(node.inverse(y).astype(float), z.astype(float), tol, "inverse")
    ctx.nontrivial()


def conv(im, flt, mode, boundary, fill):
    """Direct sum: full convolution of the extended image, then cropped."""
    h, w = im.shape
    a, b = flt.shape

    def px(i, j):
        if 0 <= i < h and 0 <= j < w:
            return im[i, j]
        if boundary == 'fill':
            return fill
        if boundary == 'wrap':
            return im[i % h, j % w]

        def m(i, n):
            i = i % (2 * n)
            return i if i < n else 2 * n - 1 - i
        return im[m(i, h), m(j, w)]
    full = np.zeros((h + a - 1, w + b - 1))
    for i in range(h + a - 1):
        for j in range(w + b - 1):
            full[i, j] = sum(flt[p, q] * px(i - p, j - q) for p in range(a) for q in range(b))
    if mode == 'full':
        return full
    if mode == 'same':
        return full[(a - 1) // 2:(a - 1) // 2 + h, (b - 1) // 2:(b - 1) // 2 + w]
    return full[a - 1:h, b - 1:w]


@sub(st.fixed_dictionaries({'seed': seeds, 'h': st.integers(1, 7), 'w': st.integers(1, 7), 'a': st.integers(1, 4), 'b': st.integers(1, 4), 'k': st.integers(1, 3), 'n': st.integers(1, 3),
                            'approach': st.sampled_from(['fft', 'linear', 'linear']), 'mode': st.sampled_from(['valid', 'same', 'full']),
                            'boundary': st.sampled_from(['fill', 'wrap', 'symm']), 'fill': st.sampled_from([0, 0, 2.5]), 'two': st.booleans(), 'flat': st.booleans(),
                            'f32': st.booleans(), 'idim': st.booleans()}),
     quick=500, thorough=15000, shards=2, rule="filter larger than one pixel")
def convolution(case, ctx):
    rng = rs(case['seed'], 8)
    h, w, n, k = case['h'], case['w'], case['n'], case['k']
    a, b = min(case['a'], h), min(case['b'], w)
    x = rng.normal(size=(n, h, w))
    flt = rng.normal(size=(k, a, b))
    if case['f32']:
        x = x.astype('f')
    kw = {}
    if case['flat']:
        kw['input_shape'] = (h, w)
    if case['idim']:
        kw['input_dim'] = h * w
    node = Convolution2DNode(flt, approach=case['approach'], mode=case['mode'], boundary=case['boundary'], fillvalue=case['fill'], output_2d=case['two'], **kw)
    inp = x.reshape(n, h * w) if case['flat'] else x
    i0 = inp.copy()
    y = node.execute(inp)
    check(np.array_equal(inp, i0), "input changed")
    bd, fill = (case['boundary'], case['fill']) if case['approach'] == 'linear' else ('fill', 0)
    want = np.array([[conv(im.astype(float), f, case['mode'], bd, fill) for f in flt] for im in x])
    check(tuple(node.output_shape) == want.shape[2:] and node.output_dim == want[0].size, "output shape %s dim %s", node.output_shape, node.output_dim)
    check(y.dtype == x.dtype, "dtype %s", y.dtype)
    check(y.shape == ((n, node.output_dim) if case['two'] else want.shape), "result shape %s", y.shape)
    close(y.reshape(want.shape).astype(float), want, 1e-4 if case['f32'] else 1e-10, "convolution %s %s %s" % (case['approach'], case['mode'], bd))
    for i in range(n):
        close(np.asarray(node.execute(inp[i:i + 1]), float), y[i:i + 1].astype(float), 1e-5 if case['f32'] else 1e-12, "one image at a time")
    raises(mdp.NodeException, lambda: Convolution2DNode(flt, mode='other'), "unknown mode")
    raises(mdp.NodeException, lambda: Convolution2DNode(flt, approach='other'), "unknown approach")
    raises(mdp.NodeException, lambda: Convolution2DNode(flt, boundary='other'), "unknown boundary")
    raises(mdp.NodeException, lambda: Convolution2DNode(flt[0]), "filters of rank two")
    raises(mdp.NodeException, lambda: Convolution2DNode(flt).execute(x.reshape(n, h * w)), "flat data without a shape")
    ctx.nontrivial(a * b > 1)
