"""Linear regression against least squares, discriminant analysis against the generalised eigenproblem of the
class scatter, factor analysis against a textbook EM step and Gaussian likelihood."""
import numpy as np
import mdp
from lib.harness import sub, check, close, st, raises
from lib import gen
from lib.gen import seeds, rs


# ---------------------------------------------------------------- regression

@sub(st.fixed_dictionaries({
    'seed': seeds, 'd': st.integers(1, 6), 'k': st.integers(1, 4), 'n': st.integers(0, 60),
    'bias': st.booleans(), 'pinv': st.booleans(), 'nch': st.integers(1, 5),
    'scale': st.sampled_from([1., 1., 1e-2, 1e2]), 'f32': st.booleans(), 'od': st.booleans(),
    'offset': st.sampled_from([0., 1., 5.]), 'noise': st.sampled_from([0., 0.1, 1.]),
    'layout': st.integers(0, 9), 'closing': st.sampled_from(['stop', 'execute'])}),
    quick=1500, thorough=40000, shards=3, rule="at least two inputs and noisy targets")
def regression(case, ctx):
    rng = rs(case['seed'], 1)
    d, k = case['d'], case['k']
    n = case['n'] + d + 2
    x = gen.spectral(rng, n, d, ratio=1.4, mean=False) * case['scale'] + case['offset'] * rng.normal(size=d) * case['scale']
    y = x.dot(rng.normal(size=(d, k))) / case['scale'] + rng.normal(size=k) + case['noise'] * rng.normal(size=(n, k))
    tol = 1e-7
    if case['f32']:
        if case['scale'] != 1.:
            return
        x, y = x.astype('f'), y.astype('f')
        tol = 2e-2
    node = mdp.nodes.LinearRegressionNode(with_bias=case['bias'], use_pinv=case['pinv'],
                                          output_dim=k if case['od'] else None)
    sizes = gen.cuts(rng, n, case['nch'])
    for a, b in zip(gen.split(x, sizes), gen.split(y, sizes)):
        node.train(gen.layouts(rng, a) if case['layout'] > 6 else a, b)
    if case['closing'] == 'stop':
        node.stop_training()
    z = rng.normal(size=(4, d)) * case['scale']
    z = z.astype(x.dtype)
    out = node.execute(z)
    X = x.astype(float)
    if case['bias']:
        X = np.concatenate([np.ones((n, 1)), X], axis=1)
    cond = np.linalg.cond(X)
    if cond ** 2 * (6e-8 if case['f32'] else 1e-16) > tol / 20:
        return
    want, _, rank, sv = np.linalg.lstsq(X, y.astype(float), rcond=None)
    check(node.beta.shape == want.shape, "shape of beta %s", node.beta.shape)
    # beta in units in which all columns count alike
    close(node.beta * np.linalg.norm(X, axis=0)[:, None] / np.sqrt(n), want * np.linalg.norm(X, axis=0)[:, None] / np.sqrt(n), tol, "regression coefficients",
          scale=1 + np.abs(y).max())
    # normal equations: residual orthogonal to the regressors
    res = y - X.dot(node.beta)
    close(X.T.dot(res) / np.linalg.norm(X, axis=0)[:, None], np.zeros((X.shape[1], k)), tol * 10, "residual not orthogonal to the regressors",
          scale=(1 + np.abs(y).max()) * np.sqrt(n))
    b0 = node.beta[0] if case['bias'] else 0.
    b1 = node.beta[1:] if case['bias'] else node.beta
    close(out, z.astype(float).dot(b1) + b0, tol, "execution is the affine map of beta")
    if not case['bias']:
        close(node.execute(np.zeros((1, d), x.dtype)), np.zeros((1, k)), 1e-12, "no bias: zero must be mapped to zero")
    check(node.output_dim == k and node.input_dim == d, "dimensions")
    ctx.nontrivial(d > 1 and case['noise'] > 0)


@sub(st.fixed_dictionaries({
    'seed': seeds, 'd': st.integers(1, 5), 'k': st.integers(1, 3), 'n': st.integers(5, 40), 'bias': st.booleans(),
    'dup': st.integers(1, 3), 'nch': st.integers(1, 3)}),
    quick=400, thorough=10000, rule="redundant inputs")
def redundant(case, ctx):
    """Exactly redundant integer-valued inputs: the pseudo-inverse still fits as well as possible."""
    rng = rs(case['seed'], 2)
    d, k = case['d'], case['k']
    n = case['n'] + d + 3
    x = rng.randint(-4, 5, size=(n, d)).astype(float)
    if np.linalg.matrix_rank(np.concatenate([np.ones((n, 1)), x], axis=1)) < d + 1:
        return
    cols = [x]
    for i in range(case['dup']):
        cols.append(x[:, [rng.randint(d)]] if i % 2 == 0 else np.zeros((n, 1)))
    xx = np.concatenate(cols, axis=1)[:, rng.permutation(d + case['dup'])]
    y = rng.normal(size=(n, k)) + x[:, :1]
    node = mdp.nodes.LinearRegressionNode(with_bias=case['bias'], use_pinv=True)
    sizes = gen.cuts(rng, n, case['nch'])
    for a, b in zip(gen.split(xx, sizes), gen.split(y, sizes)):
        node.train(a, b)
    node.stop_training()
    X = np.concatenate([np.ones((n, 1)), xx], axis=1) if case['bias'] else xx
    want = X.dot(np.linalg.lstsq(X, y, rcond=1e-10)[0])
    close(node.execute(xx), want, 1e-5, "fitted values with redundant inputs", scale=1 + np.abs(y).max())
    ctx.nontrivial()


@sub(st.fixed_dictionaries({
    'seed': seeds, 'd': st.integers(1, 4), 'k': st.integers(1, 3), 'n': st.integers(2, 10),
    'what': st.sampled_from(['rows', 'odim', 'dim'])}), quick=120, thorough=2000, rule="every case")
def regression_refused(case, ctx):
    rng = rs(case['seed'], 3)
    d, k, n = case['d'], case['k'], case['n'] + case['d'] + 2
    x, y = rng.normal(size=(n, d)), rng.normal(size=(n, k))
    node = mdp.nodes.LinearRegressionNode()
    node.train(x, y)
    if case['what'] == 'rows':
        raises(mdp.TrainingException, lambda: node.train(x, y[:-1]), "different number of targets")
    elif case['what'] == 'odim':
        raises(mdp.NodeException, lambda: node.train(x, np.concatenate([y, y], axis=1)), "other target dimension")
    else:
        raises(mdp.NodeException, lambda: node.train(np.concatenate([x, x], axis=1), y), "other input dimension")
    node.stop_training()
    X = np.concatenate([np.ones((n, 1)), x], axis=1)
    if np.linalg.cond(X) < 1e3:
        close(node.beta, np.linalg.lstsq(X, y, rcond=None)[0], 1e-7, "refused data must not count")
    ctx.nontrivial()


# ---------------------------------------------------------------- discriminant analysis

LAB = {
    'int': lambda i: i, 'neg': lambda i: 3 - 2 * i, 'float': lambda i: i / 2. - 1, 'str': lambda i: 'c%d' % (7 - i),
    'bool': lambda i: bool(i % 2),
}


@sub(st.fixed_dictionaries({
    'seed': seeds, 'd': st.integers(1, 6), 'c': st.integers(1, 5), 'n': st.integers(0, 100), 'nch': st.integers(1, 5),
    'nch2': st.integers(1, 5), 'labels': st.sampled_from(sorted(LAB)), 'form': st.sampled_from(['list', 'tuple', 'array', 'single']),
    'od': st.one_of(st.none(), st.integers(1, 6)), 'sep': st.sampled_from([0., 0.5, 2., 6.]), 'scale': st.sampled_from([1., 1., 1e-2, 1e3]),
    'offset': st.sampled_from([0., 3.]), 'rare': st.sampled_from(['', '', 'first', 'last', 'both']), 'use': st.sampled_from(['node', 'flow'])}),
    quick=1500, thorough=40000, shards=3, rule="two or more classes in two or more dimensions")
def fda(case, ctx):
    rng = rs(case['seed'], 4)
    d, c = case['d'], case['c']
    n = case['n'] + d + 3 + c
    if case['od'] is not None and case['od'] > d:
        return
    lab = LAB[case['labels']]
    cl = rng.permutation(np.concatenate([np.arange(c), rng.randint(0, c, size=n - c)]))
    if case['rare'] and c > 1:
        # one class occurs in one or two rows only
        cl[cl == c - 1] = 0
        cl[{'first': [0], 'last': [-1], 'both': [0, -1]}[case['rare']]] = c - 1
    labels = [lab(int(i)) for i in cl]
    means = rng.normal(size=(c, d)) * case['sep'] + case['offset']
    x = (means[cl] + rng.normal(size=(n, d)).dot(rng.normal(size=(d, d)) * 0.3 + np.eye(d))) * case['scale']
    keys = sorted(set(labels))
    mean = x.mean(axis=0)
    ST = (x - mean).T.dot(x - mean) / (n - 1)
    SW = np.zeros((d, d))
    cmeans = {}
    for k in keys:
        rows = x[[i for i in range(n) if labels[i] == k]]
        cmeans[k] = rows.mean(axis=0)
        SW += (rows - cmeans[k]).T.dot(rows - cmeans[k])
    if np.linalg.cond(ST) > 1e6:
        return

    def chunks(k):
        sizes = gen.cuts(rng, n, k)
        out = []
        i = 0
        for s in sizes:
            l = labels[i:i + s]
            xs = x[i:i + s]
            if case['form'] == 'single':
                for key in keys:
                    idx = [j for j in range(s) if l[j] == key]
                    if idx:
                        out.append((xs[idx], key))
            else:
                out.append((xs, {'list': list, 'tuple': tuple, 'array': np.array}[case['form']](l)))
            i += s
        return out
    node = mdp.nodes.FDANode(output_dim=case['od'])
    if case['use'] == 'node':
        for a in chunks(case['nch']):
            node.train(*a)
        node.stop_training()
        for a in chunks(case['nch2']):
            node.train(*a)
        node.stop_training()
    else:
        mdp.Flow([node]).train([chunks(case['nch'])])
    od = case['od'] or d
    check(node.output_dim == od, "output dim %s", node.output_dim)
    close(np.ravel(node.avg), mean, 1e-8, "mean", scale=1e-12 + np.abs(x).max())
    for k in keys:
        close(np.ravel(node.means[k]), cmeans[k], 1e-8, "mean of class %s" % k, scale=1e-12 + np.abs(x).max())
        check(node.tlens[k] == labels.count(k), "count of class %s", k)
    check(len(node.means) == len(keys), "classes %s", list(node.means))
    y = node.execute(x)
    v = node.v
    check(v.shape == (d, od) and y.shape == (n, od), "shapes")
    close(y, (x - mean).dot(v), 1e-9, "output is the projection of the centred data")
    close(v.T.dot(ST).dot(v), np.eye(od), 1e-6, "projections must have unit total variance and no correlation")
    within = v.T.dot(SW).dot(v)
    lam = np.diag(within)
    close(within, np.diag(lam), 1e-6, "within-class scatter of the projections must be diagonal", scale=n)
    L = np.linalg.inv(np.linalg.cholesky(ST))
    w = np.linalg.eigvalsh(L.dot(SW).dot(L.T))
    close(lam, w[:od], 1e-6, "class separation values (smallest within/total ratios, ascending)", scale=n)
    n1 = rng.randint(1, od + 1)
    close(node.execute(x, n=n1), y[:, :n1], 1e-12, "first n components")
    back = node.inverse(y)
    if od == d:
        close(back, x, 1e-6, "inverse", scale=1e-12 + np.abs(x).max() + case['scale'])
    else:
        close(node.execute(back), y, 1e-6, "projection of the inverse")
    ctx.label(case['form'])
    ctx.nontrivial(len(keys) > 1 and d > 1)


@sub(st.fixed_dictionaries({'seed': seeds, 'd': st.integers(1, 4), 'n': st.integers(2, 12), 'form': st.sampled_from(['list', 'tuple', 'array']),
                            'more': st.booleans(), 'phase': st.integers(1, 2)}), quick=150, thorough=3000, rule="every case")
def fda_refused(case, ctx):
    """A label sequence of another length is refused and counts for nothing."""
    rng = rs(case['seed'], 7)
    d, n = case['d'], case['n'] + 2 * case['d'] + 4
    form = {'list': list, 'tuple': tuple, 'array': np.array}[case['form']]
    x = rng.normal(size=(n, d))
    l = [i % 2 for i in range(n)]
    bad = form(l + [1]) if case['more'] else form(l[:-1])
    nodes = [mdp.nodes.FDANode(), mdp.nodes.FDANode()]
    for i, node in enumerate(nodes):
        for phase in (1, 2):
            node.train(x, form(l))
            if i == 0 and phase == case['phase']:
                raises(mdp.TrainingException, lambda: node.train(x[:, ::-1] + 1, bad), "%d labels for %d rows" % (len(bad), n))
            node.stop_training()
    check(np.array_equal(nodes[0].v, nodes[1].v) and np.array_equal(nodes[0].avg, nodes[1].avg), "refused data changed the result")
    ctx.nontrivial()


# ---------------------------------------------------------------- factor analysis

def loglik(C, A, s):
    S = A.dot(A.T) + np.diag(s)
    d = len(s)
    sign, ld = np.linalg.slogdet(S)
    return -0.5 * (d * np.log(2 * np.pi) + ld + np.trace(np.linalg.solve(S, C)))


def em(C, A, s):
    k = A.shape[1]
    S = A.dot(A.T) + np.diag(s)
    beta = np.linalg.solve(S, A).T
    E = np.eye(k) - beta.dot(A) + beta.dot(C).dot(beta.T)
    A2 = C.dot(beta.T).dot(np.linalg.inv(E))
    s2 = np.diag(C - A2.dot(beta).dot(C))
    return A2, s2


@sub(st.fixed_dictionaries({
    'seed': seeds, 'd': st.integers(2, 9), 'k': st.one_of(st.none(), st.integers(1, 4)), 'n': st.integers(10, 150), 'nch': st.integers(1, 4),
    'noise': st.sampled_from([0.05, 0.3, 1.]), 'scale': st.sampled_from([1., 1., 0.1, 10.]), 'steps': st.integers(1, 12),
    'closing': st.sampled_from(['stop', 'execute', 'generate'])}),
    quick=600, thorough=20000, shards=3, rule="fewer factors than channels")
def fa(case, ctx):
    rng = rs(case['seed'], 5)
    d, k = case['d'], case['k']
    if k is not None and k > d:
        return
    n = case['n'] + 3 * d
    kk = k or d
    x = (rng.normal(size=(n, kk)).dot(rng.normal(size=(kk, d))) + case['noise'] * rng.normal(size=(n, d)) * (0.5 + rng.rand(d)) +
         rng.normal(size=d) * 3) * case['scale']
    mean = x.mean(axis=0)
    C = (x - mean).T.dot(x - mean) / n
    if np.linalg.cond(C) > 1e6:
        return
    sizes = gen.cuts(rng, n, case['nch'])

    def fit(cycles, tol=0., chunked=True):
        node = mdp.nodes.FANode(tol=tol, max_cycles=cycles, output_dim=k)
        for c in (gen.split(x, sizes) if chunked else [x]):
            node.train(c)
        gen.reseed(case['seed'] % 1000)
        if case['closing'] == 'stop':
            node.stop_training()
        elif case['closing'] == 'execute':
            node.execute(x[:1])
        else:
            node.generate_input(np.zeros((1, kk))) if k else node.stop_training()
        return node

    sc = case['scale']
    prev = fit(0)
    check(prev.A.shape == (d, kk), "shape of the loadings %s", prev.A.shape)
    close(prev.sigma, np.diag(C), 1e-9, "initial noise variance", scale=sc ** 2)
    hist = [loglik(C, prev.A, prev.sigma)]
    for t in range(1, case['steps'] + 1):
        cur = fit(t)
        # one more EM step of the textbook from the previous parameters, unless the run stopped before
        A2, s2 = em(C, prev.A, prev.sigma)
        if len(cur.lhood) < t:
            close(cur.A, prev.A, 1e-9, "stopped: parameters stay")
            break
        close(cur.A, A2, 1e-6, "loadings after EM step %d" % t, scale=sc * 10)
        close(cur.sigma, s2, 1e-6, "noise variances after EM step %d" % t, scale=sc ** 2 * 10)
        hist.append(loglik(C, cur.A, cur.sigma))
        check(hist[-1] >= hist[-2] - 1e-7 * (1 + abs(hist[-2])), "likelihood decreased from %r to %r", hist[-2], hist[-1])
        check(len(cur.lhood) == t, "one likelihood per cycle")
        close(np.array(cur.lhood), np.array(hist[:t]), 1e-6, "reported likelihoods")
        prev = cur
    node = fit(case['steps'])
    judge_fa(node, x, mean, kk, case, rng)
    ctx.nontrivial(kk < d)


def judge_fa(node, x, mean, kk, case, rng):
    n, d = x.shape
    A, s = node.A, node.sigma
    check(np.all(s > 0), "noise variances must be positive: %s", s)
    close(np.ravel(node.mu), mean, 1e-9, "mean", scale=1e-12 + np.abs(x).max())
    check(node.tlen == n, "tlen")
    S = A.dot(A.T) + np.diag(s)
    post = np.linalg.solve(S, A)
    z = x[:5]
    want = (z - mean).dot(post)
    close(node.execute(z), want, 1e-6, "posterior mean of the factors", scale=1 + np.abs(want).max())
    # the same through the precision form
    prec = np.linalg.inv(np.eye(kk) + (A.T / s).dot(A))
    want2 = (z - mean).dot((A / s[:, None]).dot(prec.T))
    close(node.execute(z), want2, 1e-5, "posterior mean of the factors (precision form)", scale=1 + np.abs(want2).max())
    yy = rng.normal(size=(4, kk))
    close(node.generate_input(yy), yy.dot(A.T) + mean, 1e-9, "generated input", scale=1 + np.abs(x).max())
    g = node.generate_input(3)
    check(g.shape == (3, d), "shape of generated input")
    check(node.output_dim == kk, "output dim")


@sub(st.fixed_dictionaries({
    'seed': seeds, 'd': st.integers(2, 5), 'k': st.integers(1, 3), 'n': st.integers(50, 200),
    'tol': st.sampled_from([1e-2, 1e-4]), 'noise': st.sampled_from([0.3, 1.])}),
    quick=100, thorough=3000, rule="stopped before the limit")
def fa_converge(case, ctx):
    rng = rs(case['seed'], 6)
    d, k, n = case['d'], case['k'], case['n']
    if k > d:
        return
    x = rng.normal(size=(n, k)).dot(rng.normal(size=(k, d))) + case['noise'] * rng.normal(size=(n, d)) + rng.normal(size=d)
    mean = x.mean(axis=0)
    C = (x - mean).T.dot(x - mean) / n
    gen.reseed(case['seed'] % 1000)
    node = mdp.nodes.FANode(tol=case['tol'], max_cycles=2000, output_dim=k)
    node.train(x)
    node.stop_training()
    judge_fa(node, x, mean, k, case, rng)
    l = np.array(node.lhood)
    check(np.all(np.diff(l) >= -1e-9 * (1 + np.abs(l[1:]))), "likelihood decreased")
    fin = loglik(C, node.A, node.sigma)
    check(fin >= l[-1] - 1e-9 * (1 + abs(fin)), "final likelihood below the last one")
    if len(l) < 2000:
        # stopping rule: relative gain below tol for the next step, not before
        gains = l - l[0]
        for i in range(2, len(l)):
            check(gains[i] >= (1 + case['tol']) * gains[i - 1] - 1e-9, "went on although the gain was below the tolerance")
        # sample from the model with noise: variance of the noise
        y0 = np.zeros((4000, k))
        gen.reseed(3)
        e = node.generate_input(y0, noise=True) - np.ravel(mean)
        v = e.var(axis=0)
        check(np.all(np.abs(v / node.sigma - 1) < 0.2), "noise variance of generated data %s, sigma %s", v, node.sigma)
        gen.reseed(3)
        e2 = node.generate_input(4000)
        cc = np.cov(e2.T, bias=True)
        ref = node.A.dot(node.A.T)
        check(np.abs(cc - ref).max() < 0.25 * np.abs(ref).max(), "covariance of generated data")
        ctx.nontrivial()
