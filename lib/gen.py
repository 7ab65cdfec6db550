"""Data builders: everything derives from integers inside the case."""
import random
import numpy as np
try:
    from hypothesis import strategies as st
except ImportError:
    st = None          # in a worker process


def reseed(k):
    """Seed both global generators used by the library."""
    np.random.seed(k)
    random.seed(k)


def rs(*seeds):
    return np.random.RandomState([int(s) & 0xffffffff for s in seeds])


seeds = st and st.integers(0, 2 ** 31 - 1)


def rot(rng, d):
    q, r = np.linalg.qr(rng.normal(size=(d, d)))
    return q * np.sign(np.diag(r))


def spectral(rng, n, d, ratio=1.7, mean=True, scale=1.0):
    """Full-rank data with well separated principal variances."""
    z = rng.normal(size=(n, d))
    if n > d + 1:
        # make the empirical spectrum itself well separated
        z = z - z.mean(axis=0)
        u, s, vt = np.linalg.svd(z, full_matrices=False)
        z = u * np.sqrt(n - 1.)
    sv = ratio ** -np.arange(d)
    x = (z * sv).dot(rot(rng, d)) * scale
    if mean:
        x = x + rng.normal(size=d) * scale * 2
    return x


def slow(rng, n, d, noise=0.02, mean=True):
    """Multichannel time series with distinct slownesses."""
    t = np.arange(n) / float(n)
    cols = []
    for i in range(d):
        f = (i + 1) * (1.3 + 0.4 * rng.rand())
        cols.append(np.sin(2 * np.pi * f * t + rng.rand() * 6.28))
    s = np.array(cols).T + noise * rng.normal(size=(n, d))
    a = rot(rng, d) * (0.5 + rng.rand(d))
    x = s.dot(a)
    if mean:
        x = x + rng.normal(size=d)
    return x


def sources(rng, n, d):
    """Independent, clearly non-Gaussian unit variance sources."""
    cols = []
    for i in range(d):
        k = (i + rng.randint(3)) % 3
        if k == 0:
            s = rng.uniform(-1, 1, size=n)
        elif k == 1:
            s = rng.laplace(size=n)
        else:
            s = np.sign(rng.normal(size=n)) * (1 + 0.1 * rng.normal(size=n))
        s = s - s.mean()
        cols.append(s / s.std())
    return np.array(cols).T


def cuts(rng, n, k, mn=1):
    """Random partition of n rows in at most k consecutive chunks of >= mn rows."""
    if n < 2 * mn or k <= 1:
        return [n]
    pts = sorted(set(rng.randint(1, n, size=k - 1).tolist()))
    res = []
    last = 0
    for p in pts:
        if p - last >= mn and n - p >= mn:
            res.append(p - last)
            last = p
    res.append(n - last)
    return res


def split(x, sizes):
    out = []
    i = 0
    for s in sizes:
        out.append(x[i:i + s])
        i += s
    return out


def sign_align(a, b):
    """Flip columns of a to agree in sign with b."""
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape or a.ndim != 2:
        return a
    s = np.sign((a * b).sum(axis=0))
    s[s == 0] = 1
    return a * s


def layouts(rng, x):
    """Equal-valued arrays in other memory layouts."""
    k = rng.randint(4)
    if k == 0:
        return np.asfortranarray(x)
    if k == 1:
        big = np.zeros((x.shape[0] * 2, x.shape[1] * 2), dtype=x.dtype)
        v = big[::2, ::2]
        v[...] = x
        return v
    if k == 2:
        big = np.ascontiguousarray(x[::-1])
        return big[::-1]
    y = x.copy()
    y.flags.writeable = False
    return y
