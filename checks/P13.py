"""Restricted Boltzmann machines against enumeration of the energy and a reference contrastive-divergence step."""
import itertools
import pickle
import numpy as np
import mdp
from lib.harness import sub, check, close, st, raises
from lib.gen import seeds, rs

base = {'seed': seeds, 'nv': st.integers(1, 4), 'nh': st.integers(1, 4), 'nl': st.integers(1, 4),
        'scale': st.sampled_from([0.1, 1., 1., 3., 30.]), 'f32': st.booleans(), 'dims': st.booleans()}


def configs(n):
    return np.array(list(itertools.product([0., 1.], repeat=n))).reshape(-1, n)


def machine(case, rng, labels):
    """A machine with given weights: a first training step with rate zero initialises it."""
    nv, nh, nl = case['nv'], case['nh'], case['nl'] if labels else 0
    dt = 'f' if case['f32'] else 'd'
    s = case['scale']
    w, bv, bh = rng.normal(size=(nv + nl, nh)) * s, rng.normal(size=nv + nl) * s, rng.normal(size=nh) * s
    w, bv, bh = [a.astype(dt) for a in (w, bv, bh)]
    if labels:
        node = mdp.nodes.RBMWithLabelsNode(nh, nl, visible_dim=nv if case['dims'] else None, dtype=dt)
        node.train(np.zeros((2, nv), dt), np.eye(nl)[[0, 0]].astype(dt), epsilon=0.)
    else:
        node = mdp.nodes.RBMNode(nh, visible_dim=nv if case['dims'] else None, dtype=dt)
        node.train(np.zeros((2, nv), dt), epsilon=0.)
    check(node.w.shape == w.shape and node.bv.shape == bv.shape and node.bh.shape == bh.shape, "shapes of the parameters")
    check(node.w.dtype == np.dtype(dt) and node.bv.dtype == np.dtype(dt) and node.bh.dtype == np.dtype(dt), "dtype of the parameters")
    check(np.abs(node.w).max() < 1.5 and np.abs(node.w).max() > 0, "initial weights not small random numbers")
    node.w, node.bv, node.bh = w.copy(), bv.copy(), bh.copy()
    return node, w.astype(float), bv.astype(float), bh.astype(float)


def energy(w, bv, bh, v, h):
    return np.array([-sum(v[t] * bv) - sum(h[t] * bh) - sum(v[t, i] * w[i, j] * h[t, j] for i in range(w.shape[0]) for j in range(w.shape[1]))
                     for t in range(len(v))])


def boltz(e):
    p = np.exp(-(e - e.min()))
    return p / p.sum()


def sigm(a):
    return 0.5 * (1 + np.tanh(0.5 * a))


@sub(st.fixed_dictionaries(dict(base, labels=st.booleans(), stop=st.booleans())),
     quick=400, thorough=8000, rule="at least two visible and two hidden units", shards=2)
def conditionals(case, ctx):
    rng = rs(case['seed'], 1)
    lab = case['labels']
    node, w, bv, bh = machine(case, rng, lab)
    nv, nh, nl = case['nv'], case['nh'], case['nl'] if lab else 0
    dt = node.dtype
    tol = 2e-4 if case['f32'] else 1e-9
    if case['stop']:
        node.stop_training()
    V, Hc = configs(nv), configs(nh)
    if lab:
        X = np.array([np.concatenate([v, l]) for v in V for l in np.eye(nl)])
    else:
        X = V
    pairs = [(a, b) for a in range(len(X)) for b in range(len(Hc))]
    xs = np.array([X[a] for a, b in pairs])
    hs = np.array([Hc[b] for a, b in pairs])
    e = energy(w, bv, bh, xs, hs)
    esc = 1 + np.abs(w).sum() + np.abs(bv).sum() + np.abs(bh).sum()
    if lab:
        got = node.energy(xs[:, :nv].astype(dt), hs.astype(dt), xs[:, nv:].astype(dt))
    else:
        got = node.energy(xs.astype(dt), hs.astype(dt))
    close(np.asarray(got, float), e, 1e-6 if case['f32'] else 1e-12, "energy", scale=esc)
    E = e.reshape(len(X), len(Hc))
    # P(h|v): enumerate h
    want = np.array([boltz(E[a]).dot(Hc) for a in range(len(X))])
    order = rng.randint(len(X), size=rng.randint(1, 2 * len(X) + 1))
    xb = X[order].astype(dt)
    arg = (xb[:, :nv], xb[:, nv:]) if lab else (xb,)
    ph, h = node.sample_h(*arg)
    close(np.asarray(ph, float), want[order], tol, "P(h|v)", scale=1.)
    check(h.shape == (len(order), nh) and np.isin(h, [0, 1]).all(), "hidden samples not binary")
    sure = (want[order] > 1 - 1e-12) | (want[order] < 1e-12)
    check((h[sure] == np.round(want[order][sure])).all(), "sample differs from a certain unit")
    y = node.execute(*arg)
    close(np.asarray(y, float), want[order], tol, "execute gives P(h|v)", scale=1.)
    s = node.execute(*arg, return_probs=False)
    check(s.shape == (len(order), nh) and np.isin(s, [0, 1]).all(), "execute(return_probs=False) not a binary sample")
    # P(v|h), P(l|h): enumerate visibles
    wantv = np.array([boltz(E[:, b]).dot(X) for b in range(len(Hc))])
    order = rng.randint(len(Hc), size=rng.randint(1, 2 * len(Hc) + 1))
    hb = Hc[order].astype(dt)
    if lab:
        pv, pl, v, l = node.sample_v(hb)
        close(np.asarray(pv, float), wantv[order][:, :nv], tol, "P(v|h)", scale=1.)
        close(np.asarray(pl, float), wantv[order][:, nv:], tol, "P(l|h)", scale=1.)
        check(l.shape == (len(order), nl) and np.isin(l, [0, 1]).all() and (l.sum(axis=1) == 1).all(), "labels are not one-hot: %s", l)
        check((l * wantv[order][:, nv:]).sum(axis=1).min() > 1e-12, "label of probability zero drawn")
    else:
        pv, v = node.sample_v(hb)
        close(np.asarray(pv, float), wantv[order], tol, "P(v|h)", scale=1.)
    check(v.shape == (len(order), nv) and np.isin(v, [0, 1]).all(), "visible samples not binary")
    close(np.asarray(node.w, float), w, 0., "sampling changed the weights")
    ctx.nontrivial(nv > 1 and nh > 1)


@sub(st.fixed_dictionaries(dict(base, labels=st.booleans(), scale=st.sampled_from([0.3, 1., 2.]))),
     quick=80, thorough=1200, rule="a unit with probability between 0.1 and 0.9")
def samples(case, ctx):
    """Frequencies of sampled units and labels agree with the probabilities."""
    rng = rs(case['seed'], 2)
    lab = case['labels']
    node, w, bv, bh = machine(case, rng, lab)
    nv, nh, nl = case['nv'], case['nh'], case['nl'] if lab else 0
    dt = node.dtype
    n = 4000
    x = (rng.rand(1, nv) > 0.5).astype(float)
    if lab:
        x = np.concatenate([x, np.eye(nl)[[rng.randint(nl)]]], axis=1)
    xb = np.repeat(x, n, axis=0).astype(dt)
    ph = sigm(x.dot(w) + bh)[0]
    arg = (xb[:, :nv], xb[:, nv:]) if lab else (xb,)
    np.random.seed(case['seed'] % 1000)

    def freq(s, p, what):
        s = np.asarray(s, float)
        dev = np.abs(s.mean(axis=0) - p)
        check((dev <= 6.5 * np.sqrt(p * (1 - p) / n) + 5. / n).all(), "%s: frequencies %s for probabilities %s", what, s.mean(axis=0), p)
        # different rows are drawn independently: the numbers of equal neighbours
        q = p * p + (1 - p) ** 2
        eq = (s[1:] == s[:-1]).mean(axis=0)
        check((np.abs(eq - q) <= 9 * np.sqrt(q * (1 - q) / n) + 10. / n).all(), "%s: neighbouring samples dependent", what)
        if s.shape[1] > 1:
            j = (s[:, 0] * s[:, 1]).mean()
            return j
    j = freq(node.sample_h(*arg)[1], ph, "hidden units")
    if nh > 1:
        q = ph[0] * ph[1]
        check(abs(j - q) <= 6.5 * np.sqrt(q * (1 - q) / n) + 5. / n, "hidden units are not conditionally independent")
    freq(node.execute(*arg, return_probs=False), ph, "hidden units (execute)")
    h = (rng.rand(1, nh) > 0.5).astype(float)
    hb = np.repeat(h, n, axis=0).astype(dt)
    a = (h.dot(w.T) + bv)[0]
    pv = sigm(a[:nv])
    r = node.sample_v(hb)
    j = freq(r[2 if lab else 1], pv, "visible units")
    if nv > 1:
        q = pv[0] * pv[1]
        check(abs(j - q) <= 6.5 * np.sqrt(q * (1 - q) / n) + 5. / n, "visible units are not conditionally independent")
    if lab:
        freq(r[3], boltz(-a[nv:]), "labels")
    ctx.nontrivial(((ph > .1) & (ph < .9)).any())


def cd_step(P, v, nv, n_updates, epsilon, decay, momentum, with_ph, draw):
    """One contrastive divergence step on parameters P = [w, bv, bh, dw, dbv, dbh]."""
    w, bv, bh, dw, dbv, dbh = P[:6]
    n = len(v)

    def sh(v):
        p = sigm(v.dot(w) + bh)
        return p, (p > draw(p.shape)).astype(float)

    def sv(h):
        a = h.dot(w.T) + bv
        p = sigm(a[:, :nv])
        s = (p > draw(p.shape)).astype(float)
        al = a[:, nv:]
        if al.shape[1]:
            pl = np.exp(al - al.max(axis=1)[:, None])
            pl /= pl.sum(axis=1)[:, None]
            s = np.concatenate([s, pl], axis=1)
        return s
    ph0, h0 = sh(v)
    h = h0
    for i in range(n_updates):
        vm = sv(h)
        phm, h = sh(vm)
    dw = momentum * dw + epsilon * ((v.T.dot(ph0) - vm.T.dot(phm)) / n - decay * w)
    dbv = momentum * dbv + epsilon * (v - vm).sum(axis=0) / n
    dbh = momentum * dbh + epsilon * ((ph0 - phm) if with_ph else (h0 - h)).sum(axis=0) / n
    return [w + dw, bv + dbv, bh + dbh, dw, dbv, dbh, ((v - vm) ** 2).sum()]


step = st.fixed_dictionaries({'n': st.one_of(*([st.integers(1, 8)] * 6 + [st.sampled_from([40, 130])])), 'updates': st.sampled_from([1, 1, 2, 5]), 'eps': st.sampled_from([0.1, 0.01, 0.5, 1., 0.]),
                              'decay': st.sampled_from([0., 0., 0.01, 0.3]), 'mom': st.sampled_from([0., 0., 0.5, 0.9]),
                              'ph': st.booleans(), 'verbose': st.sampled_from([False, False, False, True]), 'real': st.booleans(),
                              'same': st.booleans(), 'peek': st.booleans()})


@sub(st.fixed_dictionaries(dict(base, labels=st.booleans(), steps=st.lists(step, min_size=1, max_size=6), defaults=st.booleans(),
                                f32=st.just(False), scale=st.sampled_from([0.1, 1., 3.]), pickle=st.booleans(), copyat=st.integers(0, 6))),
     quick=700, thorough=16000, rule="two steps with momentum or decay", shards=3)
def contrastive(case, ctx):
    rng = rs(case['seed'], 3)
    lab = case['labels']
    node, w, bv, bh = machine(case, rng, lab)
    nv, nh, nl = case['nv'], case['nh'], case['nl'] if lab else 0
    P = [w, bv, bh, np.zeros_like(w), np.zeros_like(bv), np.zeros_like(bh)]
    x = None
    for i, s in enumerate(case['steps']):
        if i == case['copyat']:
            node = node.copy()
        if x is None or not s['same']:
            v = rng.rand(s['n'], nv) if s['real'] else (rng.rand(s['n'], nv) > 0.5).astype(float)
            x = np.concatenate([v, np.eye(nl)[rng.randint(nl, size=s['n'])]], axis=1) if lab else v
        x0 = x.copy()
        arg = (x[:, :nv], x[:, nv:]) if lab else (x,)
        kw = {} if case['defaults'] else dict(n_updates=s['updates'], epsilon=s['eps'], decay=s['decay'], momentum=s['mom'], verbose=s['verbose'])
        with_ph = True
        if not lab and not s['ph'] and not case['defaults']:
            kw['update_with_ph'] = with_ph = False
        k = rng.randint(10000)
        np.random.seed(k)
        node.train(*arg, **kw)
        d = np.random.RandomState(k)
        P = cd_step(P, x, nv, kw.get('n_updates', 1), kw.get('epsilon', 0.1), kw.get('decay', 0.), kw.get('momentum', 0.), with_ph, d.random_sample)
        check(np.array_equal(x, x0), "training changed the data")
        close(node.w, P[0], 1e-9, "weights after step %d" % i, scale=1 + np.abs(P[0]).max())
        close(node.bv, P[1], 1e-9, "visible biases after step %d" % i, scale=1 + np.abs(P[1]).max())
        close(node.bh, P[2], 1e-9, "hidden biases after step %d" % i, scale=1 + np.abs(P[2]).max())
        if hasattr(node, '_train_err'):
            close(node._train_err, P[6], 1e-9, "training error of step %d" % i, scale=1 + P[6])
        if s['peek']:
            c = node.copy()
            y = c.execute(*arg)
            close(y, sigm(x.dot(P[0]) + P[2]), 1e-8, "probabilities while training", scale=1.)
    if case['pickle']:
        node = pickle.loads(node.save(None))
    node.stop_training()
    check(not node.is_training(), "still training")
    close(node.execute(*arg), sigm(x.dot(P[0]) + P[2]), 1e-8, "probabilities after training", scale=1.)
    raises(mdp.TrainingFinishedException, lambda: node.train(*arg), "training after the end")
    close(node.w, P[0], 1e-9, "weights after a refused training")
    ctx.nontrivial(len(case['steps']) > 1 and any(s['mom'] or s['decay'] for s in case['steps'][1:]))


@sub(st.fixed_dictionaries({'seed': seeds, 'labels': st.booleans(), 'nv': st.integers(1, 4), 'nh': st.integers(1, 4), 'n': st.integers(1, 10),
                            'steps': st.integers(1, 5), 'f32': st.booleans()}),
     quick=200, thorough=3000, rule="several steps")
def reproducible(case, ctx):
    """The same seed, data and parameters give the same machine."""
    res = []
    for k in range(2):
        rng = rs(case['seed'], 4)
        dt = 'f' if case['f32'] else 'd'
        node = mdp.nodes.RBMWithLabelsNode(case['nh'], 2, dtype=dt) if case['labels'] else mdp.nodes.RBMNode(case['nh'], dtype=dt)
        np.random.seed(case['seed'] % 9999)
        for i in range(case['steps']):
            v = (rng.rand(case['n'], case['nv']) > 0.4).astype(dt)
            arg = (v, np.eye(2, dtype=dt)[rng.randint(2, size=case['n'])]) if case['labels'] else (v,)
            node.train(*arg, n_updates=2, epsilon=.3, momentum=.5, decay=.01)
        check(node.w.dtype == np.dtype(dt), "dtype of the weights")
        res.append((node.w, node.bv, node.bh, node.execute(*arg)))
    for a, b, what in zip(res[0], res[1], ["w", "bv", "bh", "probabilities"]):
        check(np.array_equal(a, b), "%s differs for the same seed", what)
    ctx.nontrivial(case['steps'] > 1)


@sub(st.fixed_dictionaries({'seed': seeds, 'nv': st.integers(1, 3), 'nh': st.integers(1, 3)}), quick=24, thorough=200, rule="every case", timeout=120)
def learns(case, ctx):
    """Contrastive divergence on data with one pattern raises the model probability of that pattern."""
    rng = rs(case['seed'], 5)
    nv, nh = case['nv'], case['nh']
    node = mdp.nodes.RBMNode(nh, nv)
    pat = (rng.rand(1, nv) > 0.5).astype(float)
    np.random.seed(case['seed'] % 999)
    x = np.repeat(pat, 50, axis=0)

    def logp():
        V, Hc = configs(nv), configs(nh)
        E = np.array([[energy(node.w, node.bv, node.bh, v[None], h[None])[0] for h in Hc] for v in V])
        f = np.log(np.exp(-E).sum(axis=1))
        i = [k for k in range(len(V)) if (V[k] == pat[0]).all()][0]
        return f[i] - np.log(np.exp(f).sum())
    node.train(x, epsilon=0.)
    a = logp()
    for i in range(60):
        node.train(x, epsilon=0.3)
    b = logp()
    check(b > max(a, np.log(0.6)), "log probability of the training pattern from %.3f to %.3f", a, b)
    ctx.nontrivial()
