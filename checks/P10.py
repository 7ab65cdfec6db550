"""Classifiers against direct reference implementations of their documented rule, and agreement of
label / prob / rank / execute."""
import numpy as np
import mdp
from lib.harness import sub, check, close, st, raises, Violation
from lib import gen
from lib.gen import seeds, rs

N = mdp.nodes
LABELS = {'int': [3, -1, 7, 0, 12], 'str': ['b', 'a', 'cc', 'zeta', 'm'], 'float': [0.5, -1.25, 3., 7., 2.], 'big': [1000, 10, 1, 100, 5]}


def groups(rng, d, counts, dist=3.0, aniso=True):
    xs, idx = [], []
    for i, c in enumerate(counts):
        a = gen.rot(rng, d) * (0.4 + rng.rand(d) if aniso else 1.)
        xs.append(rng.normal(size=(c, d)).dot(a) + rng.normal(size=d) * dist)
        idx += [i] * c
    x = np.concatenate(xs)
    idx = np.array(idx)
    p = rng.permutation(len(x))
    return x[p], idx[p]


def feed(node, x, idx, names, rng, mode, nch):
    """Train with per-sample labels in several containers, or one class at a time with a single label."""
    if mode == 'single':
        order = rng.permutation(len(names))
        for i in order:
            xi = x[idx == i]
            if not len(xi):
                continue
            for c in gen.split(xi, gen.cuts(rng, len(xi), nch)):
                node.train(c, names[i])
        return
    sizes = gen.cuts(rng, len(x), nch)
    k = 0
    for c, ic in zip(gen.split(x, sizes), gen.split(idx, sizes)):
        lab = [names[i] for i in ic]
        m = mode
        if m == 'mixed':
            m = ['list', 'tuple', 'array', 'single'][rng.randint(4)]
            if m == 'single' and len(set(ic.tolist())) > 1:
                m = 'list'
        if m == 'single':
            node.train(c, lab[0])
        elif m == 'tuple':
            node.train(c, tuple(lab))
        elif m == 'array':
            node.train(c, np.array(lab))
        else:
            node.train(c, lab)
        k += 1


def same_labels(got, want, msg):
    got = list(got)
    check(len(got) == len(want), "%s: %d labels for %d rows", msg, len(got), len(want))
    for i, (a, b) in enumerate(zip(got, want)):
        if b is not None:
            check(a == b, "%s: row %d labelled %r, rule gives %r", msg, i, a, b)


def outputs_agree(node, x, has_prob, dist=None):
    """prob / rank / label / execute_method are views of the same decision."""
    lab = list(node.label(x))
    close(np.asarray(node.execute(x), float), np.asarray(x, float), 1e-6, "a classifier passes its input through")
    if has_prob:
        prob = node.prob(x)
        check(len(prob) == len(x), "one probability dictionary per row")
        rank = node.rank(x)
        for i, p in enumerate(prob):
            v = np.array(list(p.values()), float)
            check((v >= 0).all(), "negative probability %s", p)
            check(abs(v.sum() - 1) < 1e-4, "probabilities sum to %r", v.sum())
            check(sorted(map(str, p)) == sorted(map(str, node.labels)), "labels %s of %s", list(p), list(node.labels))
            check(len(rank[i]) == len(p) and set(rank[i]) == set(p), "ranking %s of %s", rank[i], p)
            r = [p[k] for k in rank[i]]
            check(all(a >= b for a, b in zip(r, r[1:])), "ranking not in decreasing order: %s", r)
            check(p[lab[i]] == max(p.values()), "label %r is not the most probable in %s", lab[i], p)
        th = float(np.random.RandomState(len(x)).choice(list(prob[0].values()) + [0.0, 0.5, 1.0]))
        rt = node.rank(x, threshold=th)
        for i, p in enumerate(prob):
            check(set(rt[i]) == set(k for k in p if p[k] > th), "threshold %r leaves %s of %s", th, rt[i], p)
            check([p[k] for k in rt[i]] == sorted([p[k] for k in rt[i]], reverse=True), "thresholded ranking order")
    for m in ('label', 'prob', 'rank') if has_prob else ('label',):
        c = node.copy()
        c.execute_method = m
        a, b = c.execute(x), getattr(node, m)(x)
        check(len(a) == len(b) and all(p == q for p, q in zip(a, b)), "execute_method=%s gives %s, %s() gives %s", m, a, m, b)
    # row by row
    for i in range(min(3, len(x))):
        check(list(node.label(x[i:i + 1]))[0] == lab[i], "label depends on the other rows")
    return lab


COMMON = {'seed': seeds, 'd': st.integers(1, 5), 'k': st.integers(1, 5), 'names': st.sampled_from(sorted(LABELS)),
          'mode': st.sampled_from(['list', 'tuple', 'array', 'single', 'mixed']), 'nch': st.one_of(*([st.integers(1, 5)] * 5 + [st.sampled_from([12, 30])])), 'f32': st.booleans(),
          'nq': st.one_of(*([st.integers(1, 12)] * 5 + [st.sampled_from([40, 150])])), 'dist': st.sampled_from([0.5, 1.5, 4.]), 'order': st.integers(0, 5)}


def setting(case, mn=1, mx=12):
    rng = rs(case['seed'], 3)
    names = list(LABELS[case['names']])
    names = [names[i] for i in rng.permutation(len(names))][:case['k']]
    counts = [int(rng.randint(mn, mx)) for _ in names]
    x, idx = groups(rng, case['d'], counts, case['dist'])
    q = np.concatenate([x[rng.randint(len(x), size=case['nq'])] + rng.normal(size=(case['nq'], case['d'])),
                        rng.normal(size=(2, case['d'])) * 3])
    if case['f32']:
        x, q = x.astype('f'), q.astype('f')
    return rng, names, x, idx, q


@sub(st.fixed_dictionaries(COMMON), quick=1200, thorough=40000, shards=2, rule="two or more classes")
def nearest_mean(case, ctx):
    rng, names, x, idx, q = setting(case)
    node = N.NearestMeanClassifier()
    feed(node, x, idx, names, rng, case['mode'], case['nch'])
    present = [i for i in range(len(names)) if (idx == i).any()]
    means = np.array([x[idx == i].astype(float).mean(axis=0) for i in present])
    d2 = ((q.astype(float)[:, None, :] - means) ** 2).sum(axis=2)
    s = np.sort(d2, axis=1)
    tie = (s[:, 1] - s[:, 0] < 1e-4 * (1 + s[:, 0])) if len(present) > 1 else np.zeros(len(q), bool)
    want = [None if tie[j] else names[present[d2[j].argmin()]] for j in range(len(q))]
    node.stop_training()
    same_labels(node.label(q), want, "nearest mean")
    check(set(node.label_means) == set(names[i] for i in present), "known labels %s", list(node.label_means))
    for j, i in enumerate(present):
        close(node.label_means[names[i]], means[j], 1e-4, "class mean of %r" % (names[i],))
        check(node.n_label_samples[names[i]] == (idx == i).sum(), "sample count of %r", names[i])
    outputs_agree(node, q, False)
    ctx.nontrivial(len(present) > 1)


@sub(st.fixed_dictionaries(dict(COMMON, nn=st.integers(1, 9))), quick=1500, thorough=50000, shards=2, rule="two or more classes and k > 1")
def nearest_neighbours(case, ctx):
    rng, names, x, idx, q = setting(case)
    node = N.KNNClassifier(k=case['nn'])
    feed(node, x, idx, names, rng, case['mode'], case['nch'])
    node.stop_training()
    K = min(case['nn'], len(x))
    d2 = ((q.astype(float)[:, None, :] - x.astype(float)) ** 2).sum(axis=2)
    want = []
    for j in range(len(q)):
        o = np.argsort(d2[j], kind='stable')
        s = d2[j][o]
        tol = 1e-4 * (1 + (q[j] ** 2).sum())
        if K < len(x) and s[K] - s[K - 1] < tol:
            want.append(None)
            continue
        votes = np.bincount(idx[o[:K]], minlength=len(names))
        top = votes.max()
        want.append(names[votes.argmax()] if (votes == top).sum() == 1 else None)
        if want[-1] is None:
            got = list(node.label(q[j:j + 1]))[0]
            check(got in [names[i] for i in np.nonzero(votes == top)[0]], "label %r has no majority", got)
    same_labels(node.label(q), want, "%d nearest neighbours" % case['nn'])
    if case['nn'] == 1 and not case['f32']:
        same_labels(node.label(x), [names[i] for i in idx], "training samples are their own neighbours")
    outputs_agree(node, q, False)
    ctx.nontrivial(len(set(idx.tolist())) > 1 and K > 1)


@sub(st.fixed_dictionaries(dict(COMMON, method=st.sampled_from([None, False, 'label', 'prob', 'rank']))), quick=1200, thorough=40000, shards=2, rule="two or more classes")
def gaussian(case, ctx):
    d = case['d']
    rng, names, x, idx, q = setting(case, d + 3, d + 25)
    node = N.GaussianClassifier()
    feed(node, x, idx, names, rng, case['mode'], case['nch'])
    node.stop_training()
    if case['seed'] % 3 == 0:
        # far from all classes
        q = np.concatenate([q, (q * 10. ** rng.uniform(.3, 3)).astype(q.dtype)])
    lp = np.zeros((len(q), len(names)))
    mah = np.zeros((len(q), len(names)))
    order = sorted(range(len(names)), key=lambda i: names[i])
    cond = 1.
    for j, i in enumerate(order):
        xi = x[idx == i].astype(float)
        c = np.cov(xi.T).reshape(d, d)
        cond = max(cond, np.linalg.cond(c))
        z = q.astype(float) - xi.mean(axis=0)
        mah[:, j] = np.einsum('ij,jk,ik->i', z, np.linalg.inv(c), z)
        lp[:, j] = -0.5 * mah[:, j] - 0.5 * np.linalg.slogdet(2 * np.pi * c)[1] + np.log((idx == i).sum() / float(len(x)))
    # error of the exponents
    tol = (2e-6 if case['f32'] else 1e-14) * cond * np.maximum(60., mah.max(axis=1))
    ok = tol < .02
    if cond > 1e4 or not ok.any():
        return
    q, lp, tol = q[ok], lp[ok], max(1e-8, tol[ok].max())
    post = np.exp(lp - lp.max(axis=1)[:, None])
    post /= post.sum(axis=1)[:, None]
    labels = [names[i] for i in order]
    check(list(node.labels) == labels, "labels %s, sorted training labels %s", node.labels, labels)
    close(np.asarray(node.class_probabilities(q), float), post, tol, "posterior probabilities")
    pr = node.prob(q)
    close(np.array([[p[l] for l in labels] for p in pr], float), post, tol, "probability dictionaries")
    s = np.sort(post, axis=1)
    want = [None if len(labels) > 1 and s[j, -1] - s[j, -2] < 3 * tol else labels[post[j].argmax()] for j in range(len(q))]
    same_labels(node.label(q), want, "largest posterior")
    close(np.array(node.p, float), np.array([(idx == i).mean() for i in order]), 1e-6, "class frequencies")
    outputs_agree(node, q, True)
    if case['method']:
        n2 = N.GaussianClassifier(execute_method=case['method'])
        feed(n2, x, idx, names, rng, 'list', 1)
        a = n2.execute(q)
        b = getattr(n2, case['method'])(q)
        check(all(p == r for p, r in zip(a, b)) and len(a) == len(q), "execute_method given to the constructor")
        f = mdp.Flow([N.IdentityNode(), n2])
        check(all(p == r for p, r in zip(f.execute(q), b)), "classifier at the end of a flow")
    ctx.nontrivial(len(labels) > 1)


@sub(st.fixed_dictionaries({'seed': seeds, 'd': st.integers(1, 5), 'k': st.integers(1, 3), 'bad': st.sampled_from(['const', 'copy', 'single'])}),
     quick=150, thorough=3000, rule="every case")
def gaussian_singular(case, ctx):
    """A class without a covariance of full rank is refused when training ends."""
    d = case['d']
    rng = rs(case['seed'], 4)
    node = N.GaussianClassifier()
    for i in range(case['k']):
        x = rng.normal(size=(d + 4, d))
        if i == 0:
            if case['bad'] == 'const':
                x[:, rng.randint(d)] = 0.
            elif case['bad'] == 'copy':
                x[:] = x[0].round()
            else:
                x = np.array([[1.] * d, [1.] * d])
        node.train(x, i)
    raises(mdp.NodeException, node.stop_training, "singular class covariance")
    ctx.nontrivial()


@sub(st.fixed_dictionaries({'seed': seeds, 'd': st.integers(1, 5), 'n': st.one_of(*([st.integers(1, 40)] * 5 + [st.sampled_from([130, 400])])), 'nch': st.one_of(*([st.integers(1, 5)] * 5 + [st.sampled_from([15, 50])])), 'f32': st.booleans(),
                            'mode': st.sampled_from(['list', 'tuple', 'array', 'single', 'mixed']), 'rate': st.sampled_from([None, 0.5, 0.01]),
                            'sep': st.booleans()}),
     quick=800, thorough=30000, shards=2, rule="a weight changed during training")
def perceptron(case, ctx):
    rng = rs(case['seed'], 5)
    d, n = case['d'], case['n']
    x = rng.normal(size=(n, d))
    idx = (x.dot(rng.normal(size=d)) + 0.3 * rng.normal() > 0).astype(int) if case['sep'] else rng.randint(2, size=n)
    if case['f32']:
        x = x.astype('f')
    node = N.PerceptronClassifier()
    if case['rate']:
        node.learning_rate = case['rate']
    rate = case['rate'] or 0.1
    w = np.ones(d)
    b = 0.

    class Rec(object):
        """Passes the calls on and runs the textbook rule next to it."""
        def train(self, c, lab):
            nonlocal w, b
            node.train(c, lab)
            ls = lab if isinstance(lab, (list, tuple, np.ndarray)) else [lab] * len(c)
            for xi, li in zip(c, ls):
                a = float(np.dot(xi.astype(float), w) + b)
                self.amin = min(self.amin, abs(a))
                r = rate * (li - np.sign(a))
                w = w + r * xi.astype(float)
                b = b + r
    rec = Rec()
    rec.amin = 1.
    feed(rec, x, idx, [-1, 1], rng, case['mode'], case['nch'])
    if rec.amin < (1e-4 if case['f32'] else 1e-10):
        return
    node.stop_training()
    close(np.asarray(node.weights, float), w, 1e-4 if case['f32'] else 1e-9, "weights")
    close(float(node.offset_weight), b, 1e-4 if case['f32'] else 1e-9, "offset")
    q = rng.normal(size=(8, d)).astype(x.dtype)
    a = q.astype(float).dot(w) + b
    ok = np.abs(a) > 1e-4
    if ok.any():
        same_labels(node.label(q[ok]), np.sign(a[ok]).tolist(), "sign of the linear output")
        outputs_agree(node, q[ok], False)
    ctx.nontrivial(not np.array_equal(w, np.ones(d)))


@sub(st.fixed_dictionaries({'seed': seeds, 'd': st.integers(1, 6), 'n': st.one_of(*([st.integers(1, 20)] * 5 + [st.sampled_from([130, 300])])), 'dtype': st.sampled_from(['d', 'f', 'i', 'l', 'h'])}),
     quick=300, thorough=8000, rule="rows of both signs")
def signum(case, ctx):
    rng = rs(case['seed'], 6)
    x = (rng.normal(size=(case['n'], case['d'])) * 5).astype(case['dtype'])
    x[0] = 0
    if case['d'] > 1 and case['n'] > 1:
        x[1] = 0
        x[1, :2] = [3, -3]
    node = N.SignumClassifier()
    want = np.sign(x.astype(float).sum(axis=1))
    unsure = np.abs(x.astype(float).sum(axis=1)) < 1e-5
    exact = (x == 0).all(axis=1) | (np.arange(len(x)) == 1)
    same_labels(node.label(x), [w if (not u or e) else None for w, u, e in zip(want, unsure, exact)], "sign of the sum")
    outputs_agree(node, x, False)
    ctx.nontrivial((want > 0).any() and (want < 0).any())


@sub(st.fixed_dictionaries({'seed': seeds, 'd': st.integers(1, 3), 'n': st.one_of(*([st.integers(1, 40)] * 5 + [st.sampled_from([130, 400])])), 'sym': st.integers(1, 4), 'k': st.integers(1, 4),
                            'nch': st.integers(1, 4), 'mode': st.sampled_from(['list', 'tuple', 'array', 'single', 'mixed']),
                            'kind': st.sampled_from(['i', 'd', 'f', 'S1', 'U1']), 'names': st.sampled_from(['int', 'str', 'float'])}),
     quick=800, thorough=30000, shards=2, rule="several features and labels")
def markov(case, ctx):
    rng = rs(case['seed'], 7)
    n, d = case['n'], case['d']
    raw = rng.randint(case['sym'], size=(n, d))
    idx = rng.randint(case['k'], size=n)
    names = LABELS[case['names']][:case['k']]
    if case['mode'] in ('single', 'mixed') and case['names'] == 'str':
        names = [3, 4, 5, 6][:case['k']]         # a single string is documented to count as a sequence

    def conv(a):
        if case['kind'] in ('S1', 'U1'):
            return np.array([[chr(97 + v) for v in r] for r in a]).reshape(a.shape).astype(case['kind'])
        return a.astype(case['kind'])
    x = conv(raw)
    node = N.SimpleMarkovClassifier()
    if x.dtype not in node.get_supported_dtypes():
        return
    feed(node, x, idx, names, rng, case['mode'], case['nch'])
    node.stop_training()
    q = np.concatenate([raw[rng.randint(n, size=5)], rng.randint(case['sym'] + 1, size=(3, d))])
    prob = node.prob(conv(q))
    present = set(names[i] for i in idx)
    check(len(prob) == len(q), "one dictionary per row")
    for r, p in zip(q, prob):
        hit = (raw == r).all(axis=1)
        if not hit.any():
            check(p == {}, "unseen feature has probabilities %s", p)
            continue
        check(set(p) == present, "labels %s of %s", list(p), present)
        for l in present:
            w = np.mean([names[i] == l for i in idx[hit]])
            check(abs(p[l] - w) < 1e-9, "P(%r | %s) is %r, counts give %r", l, r.tolist(), p[l], w)
        rk = node.rank(conv(r[None]), threshold=0)[0]
        check(set(rk) == set(l for l in present if p[l] > 0) and [p[l] for l in rk] == sorted([p[l] for l in rk], reverse=True), "ranking %s of %s", rk, p)
    a, b = [], node.rank(conv(q))
    c = node.copy()
    c.execute_method = 'rank'
    check(c.execute(conv(q)) == b, "execute with rank")
    ctx.nontrivial(len(present) > 1 and len(np.unique(raw, axis=0)) > 1)


@sub(st.fixed_dictionaries({'seed': seeds, 'd': st.integers(1, 14), 'p': st.integers(1, 4), 'nch': st.integers(1, 3), 'q': st.integers(1, 5),
                            'theta': st.sampled_from([None, 0., 0.3, 'vec'])}),
     quick=600, thorough=20000, shards=2, rule="several patterns")
def hopfield(case, ctx):
    rng = rs(case['seed'], 8)
    d = case['d']
    pats = rng.randint(2, size=(case['p'], d))
    node = N.DiscreteHopfieldClassifier()
    asbool = case['seed'] % 2
    x = pats.astype(bool) if False else pats.astype('b')
    for c in gen.split(x, gen.cuts(rng, len(x), case['nch'])):
        node.train(c)
    node.stop_training()
    s = pats * 2. - 1
    W = s.T.dot(s) / d
    np.fill_diagonal(W, 0)
    q = rng.randint(2, size=(case['q'], d)).astype('b')
    q0 = q.copy()
    theta = case['theta']
    args = ()
    t = np.zeros(d)
    if theta == 'vec':
        t = rng.normal(size=d) * 0.3
        args = (t,)
    elif theta is not None:
        t = np.zeros(d) + theta
        args = (theta,)
    out = node.label(q, *args)
    check(np.array_equal(q, q0), "query changed")
    check(np.asarray(out).shape == q.shape and np.asarray(out).dtype == bool, "recalled patterns %s", np.asarray(out).dtype)

    def energy(v):
        return -0.5 * v.dot(W).dot(v) + t.dot(v)
    for a, b in zip(q, out):
        v0, v = a * 2. - 1, b * 2. - 1
        f = W.dot(v) - t
        check(((v * f) > -1e-9).all(), "recalled pattern %s is not a fixed point (fields %s)", b.astype(int).tolist(), f)
        check(energy(v) <= energy(v0) + 1e-9, "recall raised the energy from %r to %r", energy(v0), energy(v))
    check(node.memory_size == d and abs(node.load_parameter - case['p'] / float(d)) < 1e-12, "memory size %s load %s", node.memory_size, node.load_parameter)
    if case['p'] == 1 and theta is None and d > 2:
        m = rng.randint(0, (d - 2) // 2 + 1)
        z = pats[0].copy()
        fl = rng.permutation(d)[:m]
        z[fl] = 1 - z[fl]
        if d - 2 * m > 1:
            check(np.array_equal(np.asarray(node.label(z[None].astype('b')))[0].astype(int), pats[0]), "%d of %d wrong bits are not repaired", m, d)
    ctx.nontrivial(case['p'] > 1)


@sub(st.fixed_dictionaries({'seed': seeds, 'd': st.integers(1, 4), 'n': st.one_of(*([st.integers(1, 60)] * 5 + [st.sampled_from([130, 300])])), 'k': st.integers(1, 6), 'nch': st.one_of(*([st.integers(1, 4)] * 5 + [st.sampled_from([12])])),
                            'f32': st.booleans(), 'max_iter': st.sampled_from([None, None, 1, 2, 5]), 'dist': st.sampled_from([0., 2., 6.]),
                            'dup': st.booleans()}),
     quick=500, thorough=15000, shards=2, rule="several clusters")
def kmeans(case, ctx):
    rng = rs(case['seed'], 9)
    d, k = case['d'], case['k']
    n = max(case['n'], k)
    x = groups(rng, d, [n // 3 + 1] * 3, case['dist'])[0][:max(n, k)]
    n = len(x)
    if n < k:
        return
    if case['dup']:
        x = x.round()
    if case['f32']:
        x = x.astype('f')
    kw = {} if case['max_iter'] is None else {'max_iter': case['max_iter']}

    def fit(sizes):
        gen.reseed(case['seed'] % 1000)
        node = N.KMeansClassifier(k, **kw)
        for c in gen.split(x, sizes):
            node.train(c)
        node.stop_training()
        return node
    node = fit(gen.cuts(rng, n, case['nch']))
    lab = np.asarray(node.label(x))
    check(lab.shape == (n,) and lab.min() >= 0 and lab.max() < k, "labels %s", lab)
    q = (rng.normal(size=(6, d)) * 3).astype(x.dtype)
    ql = np.asarray(node.label(q))
    check(ql.min() >= 0 and ql.max() < k, "labels %s", ql)
    check(np.array_equal(np.asarray(fit([n]).label(x)), lab), "chunked and batch training give different clusters")
    outputs_agree(node, x, False)
    used = np.unique(lab)
    if case['max_iter'] is None:
        cen = np.array([x[lab == i].astype(float).mean(axis=0) for i in used])
        for data, l in ((x, lab), (q, ql)):
            d2 = ((data.astype(float)[:, None, :] - cen) ** 2).sum(axis=2)
            for j in range(len(data)):
                if l[j] not in used:
                    continue
                own = d2[j][list(used).index(l[j])]
                check(own <= d2[j].min() + 1e-4 * (1 + d2[j].min()), "row %d is in cluster %d at squared distance %g although a mean is at %g", j, l[j], own, d2[j].min())
        if len(used) < k:
            ctx.label('empty cluster')
    else:
        ctx.label('iteration limit')
    ctx.nontrivial(len(used) > 1)


@sub(st.fixed_dictionaries({'seed': seeds, 'd': st.integers(1, 4), 'n': st.integers(2, 20), 'delta': st.sampled_from([-1, 1, 2]), 'which': st.integers(0, 5),
                            'cont': st.sampled_from(['list', 'tuple', 'array'])}),
     quick=300, thorough=6000, rule="every case")
def wrong_counts(case, ctx):
    """A wrong number of labels is refused, and the refused data leaves no trace."""
    rng = rs(case['seed'], 10)
    n, d = case['n'], case['d']
    x = rng.normal(size=(n, d))
    lab = rng.choice([-1, 1], size=n).tolist()
    lab[:2] = [-1, 1]
    cls = [N.GaussianClassifier, N.NearestMeanClassifier, N.KNNClassifier, N.PerceptronClassifier, N.SimpleMarkovClassifier, None][case['which']]
    if cls is None:
        cls = mdp.ClassifierCumulator
    conv = {'list': list, 'tuple': tuple, 'array': np.array}[case['cont']]
    node, ref = cls(), cls()
    m = n + case['delta']
    bad = conv((lab * 3)[:m])
    good = np.concatenate([rng.normal(size=(10, d)), rng.normal(size=(10, d)) + 2])
    gl = [-1] * 10 + [1] * 10
    node.train(good, gl)
    ref.train(good, gl)
    raises(mdp.TrainingException, lambda: node.train(x, bad), "%d labels for %d rows" % (m, n))
    if cls is mdp.ClassifierCumulator:
        node.train(x, conv(lab))
        node.train(x, 5)
        node.stop_training()
        close(node.data, np.concatenate([good, x, x]), 0, "cumulated data")
        check(node.labels.tolist() == gl + lab + [5] * n, "cumulated labels %s", node.labels.tolist())
        check(node.tlen == 20 + 2 * n, "tlen")
    else:
        q = rng.normal(size=(5, d)) if cls is not N.SimpleMarkovClassifier else good[:5]
        m = 'prob' if cls is N.SimpleMarkovClassifier else 'label'
        check(list(getattr(node, m)(q)) == list(getattr(ref, m)(q)), "refused labels changed the classifier")
    if cls is N.PerceptronClassifier:
        raises(mdp.TrainingException, lambda: N.PerceptronClassifier().train(x, conv([1] * (n - 1) + [2])), "label 2")
        raises(mdp.TrainingException, lambda: N.PerceptronClassifier().train(x, 0), "label 0")
    ctx.nontrivial()
