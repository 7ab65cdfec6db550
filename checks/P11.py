"""Expansion nodes against direct evaluation of the documented formulas."""
import itertools
import numpy as np
import mdp
from lib.harness import sub, check, close, st, raises
from lib import gen
from lib.gen import seeds, rs

N = mdp.nodes


def monomials(d, degree):
    out = []
    for k in range(1, degree + 1):
        out += list(itertools.combinations_with_replacement(range(d), k))
    return out


@sub(st.fixed_dictionaries({'seed': seeds, 'd': st.integers(1, 7), 'degree': st.integers(1, 6), 'n': st.one_of(*([st.integers(1, 6)] * 6 + [st.sampled_from([40, 130])])),
                            'dtype': st.sampled_from(['d', 'd', 'f', 'i', 'l', 'h']), 'idim': st.booleans(), 'quad': st.booleans(), 'layout': st.booleans()}),
     quick=800, thorough=25000, shards=2, rule="degree and dimension above one")
def polynomial(case, ctx):
    d, degree, n = case['d'], case['degree'], case['n']
    rng = rs(case['seed'], 1)
    while len(monomials(d, degree)) > 500:
        degree -= 1
    if case['quad']:
        degree = 2
    x = rng.normal(size=(n, d)) if case['dtype'] in 'df' else rng.randint(-3, 4, size=(n, d))
    x = x.astype(case['dtype'])
    if case['layout']:
        x = gen.layouts(rng, x)
    kw = {'input_dim': d} if case['idim'] else {}
    node = N.QuadraticExpansionNode(**kw) if case['quad'] else N.PolynomialExpansionNode(degree, **kw)
    mono = monomials(d, degree)
    if case['idim']:
        check(node.output_dim == len(mono), "output_dim %s before execution, %d monomials", node.output_dim, len(mono))
    y = node.execute(x)
    check(node.output_dim == len(mono) and y.shape == (n, len(mono)), "output dim %s shape %s, %d monomials", node.output_dim, y.shape, len(mono))
    check(y.dtype == x.dtype, "dtype %s", y.dtype)
    want = np.array([[np.prod([float(r[i]) for i in m]) for m in mono] for r in x]).reshape(n, len(mono))
    if case['dtype'] not in 'df' and np.abs(want).max() >= np.iinfo(case['dtype']).max:
        return
    close(y.astype(float), want, 1e-5 if case['dtype'] == 'f' else 1e-11, "monomials up to degree %d" % degree)
    check(N.PolynomialExpansionNode(degree).expanded_dim(d) == len(mono), "expanded_dim")
    check(N.expanded_dim(degree, d) == len(mono) if hasattr(N, 'expanded_dim') else True, "expanded_dim function")
    ctx.nontrivial(d > 1 and degree > 1)


def family(name, x, degree):
    """P_0..P_degree of a vector by the closed definition, float64."""
    x = np.asarray(x, float)
    if name == 'standard_poly':
        return [x ** k for k in range(degree + 1)]
    if name == 'legendre_rational':
        x = (x - 1) / (x + 1)
    if name == 'chebyshev_poly':
        return [np.polynomial.chebyshev.Chebyshev.basis(k)(x) for k in range(degree + 1)]
    return [np.polynomial.legendre.Legendre.basis(k)(x) for k in range(degree + 1)]


DOMAIN = {'standard_poly': (-np.inf, np.inf), 'legendre_poly': (-1, 1), 'chebyshev_poly': (-1, 1), 'legendre_rational': (0, np.inf)}


def multi(d, degree):
    return [a for a in itertools.product(range(degree + 1), repeat=d) if sum(a) <= degree]


def tensor(fam, x, degree, with0):
    d = x.shape[1]
    cols = [fam(x[:, i], degree) for i in range(d)]
    out = []
    for a in multi(d, degree):
        if not with0 and sum(a) == 0:
            continue
        v = np.ones(len(x))
        for i, k in enumerate(a):
            v = v * cols[i][k]
        out.append(v)
    return np.array(out).T.reshape(len(x), len(out))


def same_columns(y, want, tol, msg):
    check(y.shape == want.shape, "%s: shape %s, definition gives %s", msg, y.shape, want.shape)
    scale = 1 + np.abs(want).max(axis=0)
    left = list(range(want.shape[1]))
    for j in range(y.shape[1]):
        dev = np.array([np.abs(y[:, j] - want[:, k]).max() / scale[k] for k in left])
        b = dev.argmin()
        check(dev[b] <= tol, "%s: column %d is no remaining tensor product (closest deviates by %g)", msg, j, dev[b])
        left.pop(b)


def myinit(result, x, pos, cur_var):
    result[:, pos] = np.sin(x[:, cur_var])
    return pos + 1, 2, pos


def myrec(result, x, special, n, cur_var, pos):
    return np.sin(n * x[:, cur_var])


def sines(x, degree):
    return [np.ones(len(x))] + [np.sin(k * np.asarray(x, float)) for k in range(1, degree + 1)]


@sub(st.fixed_dictionaries({'seed': seeds, 'd': st.integers(1, 5), 'degree': st.integers(0, 8), 'n': st.integers(3, 8),
                            'fam': st.sampled_from(sorted(DOMAIN) + ['custom']), 'with0': st.booleans(), 'check': st.booleans(), 'f32': st.booleans(),
                            'idim': st.booleans(), 'out': st.booleans()}),
     quick=900, thorough=30000, shards=2, rule="degree above one and two or more variables")
def recursive(case, ctx):
    d, degree, n = case['d'], case['degree'], case['n']
    rng = rs(case['seed'], 2)
    while len(multi(d, degree)) > 250:
        degree -= 1
    lo, hi = DOMAIN.get(case['fam'], (-2, 2))
    a, b = max(lo, -2), min(hi, 3)
    x = rng.uniform(a, b, size=(n, d))
    if case['f32']:
        x = x.astype('f')
    recf = case['fam'] if case['fam'] != 'custom' else (myinit, myrec, -2, 2)
    kw = {'input_dim': d} if case['idim'] else {}
    node = N.RecursiveExpansionNode(degree, recf=recf, check=case['check'], with0=case['with0'], **kw)
    if case['fam'] == 'custom':
        fam = sines
    else:
        def fam(v, k):
            return family(case['fam'], v, k)
    want = tensor(fam, x, degree, case['with0'])
    if case['idim']:
        check(node.output_dim == want.shape[1], "output_dim %s before execution, definition %d", node.output_dim, want.shape[1])
    y = node.execute(x)
    check(node.output_dim == want.shape[1], "output_dim %s, definition %d", node.output_dim, want.shape[1])
    check(y.shape == want.shape and y.dtype == x.dtype, "shape %s dtype %s, definition %s", y.shape, y.dtype, want.shape)
    tol = 2e-3 if case['f32'] else 1e-9
    same_columns(y.astype(float), want, tol, "%s degree %d" % (case['fam'], degree))
    if case['with0']:
        close(y[:, 0], np.ones(n), 0, "first column is the constant")
    if d == 1:
        close(y.astype(float), want, tol, "orders of a single variable in order")
    check((node.lower, node.upper) == (DOMAIN[case['fam']] if case['fam'] != 'custom' else (-2, 2)), "domain %s %s", node.lower, node.upper)
    if case['check'] and case['out'] and np.isfinite([lo, hi]).any():
        z = x.copy()
        z[rng.randint(n), rng.randint(d)] = hi + 0.01 if np.isfinite(hi) and rng.randint(2) or not np.isfinite(lo) else lo - 0.01
        raises(mdp.NodeException, lambda: node.execute(z), "value outside of the domain")
        raises(mdp.NodeException, lambda: node.check_domain(z), "value outside of the domain")
    ctx.nontrivial(d > 1 and degree > 1)


@sub(st.fixed_dictionaries({'seed': seeds, 'd': st.integers(1, 4), 'degree': st.integers(1, 5), 'n': st.integers(2, 30), 'nch': st.integers(1, 4),
                            'fam': st.sampled_from(sorted(DOMAIN)), 'with0': st.booleans(), 'f32': st.booleans(), 'check': st.booleans(),
                            'where': st.sampled_from(['in', 'shift', 'wide', 'const', 'edge'])}),
     quick=700, thorough=20000, shards=2, rule="data outside of the domain")
def normalizing(case, ctx):
    d, degree, n = case['d'], case['degree'], case['n']
    rng = rs(case['seed'], 3)
    if len(multi(d, degree)) > 200:
        degree = 3
    lo, hi = DOMAIN[case['fam']]
    w = case['where']
    base = rng.uniform(0.1, 0.9, size=(n, d))
    if w == 'shift':
        base = base + rng.uniform(-5, 5)
    elif w == 'wide':
        base = (base - 0.4) * rng.uniform(3, 20) + rng.uniform(-3, 3)
    elif w == 'const':
        base[:] = rng.uniform(-4, 4)
    elif w == 'edge' and base.size > 1:
        # about as wide as the domain
        base = (base - base.min()) / (base.max() - base.min())
        base = base * (2. if np.isinf(hi) else hi - lo) * (1 + rng.choice([-1, 1]) * 10. ** rng.uniform(-3, -1)) + rng.uniform(-2, 2)
    x = base.astype('f') if case['f32'] else base
    node = N.NormalizingRecursiveExpansionNode(degree, recf=case['fam'], check=case['check'], with0=case['with0'])
    for c in gen.split(x, gen.cuts(rng, n, case['nch'])):
        node.train(c)
    node.stop_training()
    x0 = x.copy()
    y = node.execute(x)
    close(x, x0, 0, "input changed")
    X = x.astype(float)
    mx, mn = X.max(), X.min()
    if np.isinf(lo) and np.isinf(hi) or (mx < hi and mn > lo):
        t = X
    elif np.isinf(hi):
        t = X - np.minimum(X.min(axis=0) - lo, 0)     # shortest translation into the domain, per variable
    else:
        mid, dev = (lo + hi) / 2., hi - lo
        t = (X - (mx + mn) / 2.) * (1. if mx - mn < dev else dev / (mx - mn)) + mid
    tol = 1e-2 if case['f32'] else 1e-8
    close(np.asarray(node.domain_transformation(x), float), t, 1e-5 if case['f32'] else 1e-10, "transformed data")
    want = tensor(lambda v, k: family(case['fam'], v, k), t, degree, case['with0'])
    check(y.shape == want.shape == (n, node.output_dim), "shape %s definition %s", y.shape, want.shape)
    same_columns(y.astype(float), want, tol, "%s after normalisation" % case['fam'])
    if case['check'] and np.isfinite(hi):
        z = x.copy()
        z[0] = mx + 2 * (abs(mx - mn) + hi - lo)
        raises(mdp.NodeException, lambda: node.execute(z), "value outside of the domain")
    ctx.nontrivial(t is not X)


@sub(st.fixed_dictionaries({'seed': seeds, 'd': st.integers(1, 5), 'k': st.one_of(*([st.integers(1, 6)] * 6 + [st.sampled_from([12, 30])])), 'n': st.one_of(*([st.integers(1, 10)] * 6 + [st.sampled_from([40, 130])])),
                            'kind': st.sampled_from(['scalar', 'list', 'cov', 'covs']), 'cont': st.sampled_from(['array', 'list']), 'ints': st.booleans(),
                            'f32': st.sampled_from([0, 0, 1, 2])}),
     quick=800, thorough=20000, rule="two or more centers")
def rbf(case, ctx):
    rng = rs(case['seed'], 4)
    d, k, n = case['d'], case['k'], case['n']
    ints = case['ints']
    cen = rng.randint(-3, 4, size=(k, d)) if ints else rng.normal(size=(k, d))

    def cov():
        if ints:
            a = rng.randint(-2, 3, size=(d, d))
            return a.dot(a.T) + np.eye(d, dtype=int)
        a = rng.normal(size=(d, d)) * 0.5
        return a.dot(a.T) + 0.3 * np.eye(d)

    def var():
        return int(rng.randint(1, 9)) if ints else float(rng.uniform(0.1, 5))
    if case['kind'] == 'scalar':
        s = var()
        S = [s] * k
    elif case['kind'] == 'list':
        s = S = [var() for i in range(k)]
    elif case['kind'] == 'cov':
        s = cov()
        S = [s] * k
    else:
        s = S = [cov() for i in range(k)]
    x = rng.normal(size=(n, d)) * 2
    kw = {}
    if case['f32']:
        x = x.astype('f')
        if case['f32'] == 2:
            kw['dtype'] = 'f'
    if case['cont'] == 'list':
        c_arg = cen.tolist()
        s_arg = [np.asarray(v).tolist() for v in s] if isinstance(s, list) else (s.tolist() if isinstance(s, np.ndarray) else s)
    else:
        c_arg = cen.copy()
        s_arg = s if not isinstance(s, list) else list(s)
    node = N.RBFExpansionNode(c_arg, s_arg, **kw)
    check((node.input_dim, node.output_dim) == (d, k), "dimensions %s %s", node.input_dim, node.output_dim)
    y = node.execute(x)
    want = np.zeros((n, k))
    for j in range(k):
        z = x.astype(float) - cen[j]
        Sj = np.asarray(S[j], float)
        q = (z ** 2).sum(axis=1) / Sj if Sj.ndim == 0 else np.einsum('ij,jk,ik->i', z, np.linalg.inv(Sj), z)
        want[:, j] = np.exp(-0.5 * q)
    close(y.astype(float), want, 2e-4 if case['f32'] else 1e-9, "radial basis functions (%s)" % case['kind'])
    if case['kind'] in ('list', 'covs') and k > 1:
        raises(mdp.NodeException, lambda: N.RBFExpansionNode(c_arg, s_arg[:-1]), "too few sizes")
    if case['kind'] in ('cov', 'covs') and d > 1:
        bad = [np.eye(d + 1)] * k if case['kind'] == 'covs' else np.eye(d + 1)
        raises(mdp.NodeException, lambda: N.RBFExpansionNode(c_arg, bad), "size matrices of wrong dimension")
    ctx.nontrivial(k > 1)


def ident(x):
    return x


def sq(x):
    return x ** 2


def norm(x):
    return ((x ** 2).sum(axis=1) ** 0.5).reshape((-1, 1))


def pairs(x):
    return np.array([x[:, i] * x[:, j] for i in range(x.shape[1]) for j in range(i)]).T.reshape(len(x), -1)


def first(x):
    return x[:, :1] * 3 + 1


FUNCS = {'ident': ident, 'sq': sq, 'norm': norm, 'pairs': pairs, 'first': first}


@sub(st.fixed_dictionaries({'seed': seeds, 'd': st.integers(1, 6), 'n': st.one_of(*([st.integers(1, 8)] * 6 + [st.sampled_from([40, 130])])), 'funcs': st.lists(st.sampled_from(sorted(FUNCS)), min_size=1, max_size=6),
                            'idim': st.booleans(), 'f32': st.booleans()}),
     quick=400, thorough=8000, rule="several functions")
def general(case, ctx):
    rng = rs(case['seed'], 5)
    d, n = case['d'], case['n']
    x = rng.normal(size=(n, d))
    if case['f32']:
        x = x.astype('f')
    fs = [FUNCS[f] for f in case['funcs']]
    node = N.GeneralExpansionNode(fs, **({'input_dim': d} if case['idim'] else {}))
    want = np.concatenate([np.asarray(f(x)) for f in fs], axis=1)
    sizes = [f(x).shape[1] for f in fs]
    check(list(node.output_sizes(d)) == sizes, "output sizes %s", list(node.output_sizes(d)))
    if case['idim']:
        check(node.output_dim == want.shape[1], "output dim before execution %s", node.output_dim)
    y = node.execute(x)
    check(y.shape == want.shape and node.output_dim == want.shape[1] and node.expanded_dim(d) == want.shape[1], "shape %s", y.shape)
    check(y.dtype == x.dtype, "dtype %s", y.dtype)
    close(y, want, 1e-5 if case['f32'] else 1e-12, "concatenated functions")
    raises(mdp.NodeException, lambda: N.GeneralExpansionNode(fs).set_output_dim(3), "explicit output dimension")
    ctx.nontrivial(len(fs) > 1)


@sub(st.fixed_dictionaries({'seed': seeds, 'd': st.integers(1, 3), 'n': st.integers(20, 150), 'max': st.integers(2, 12), 'lam': st.integers(5, 20), 'nch': st.integers(1, 3)}),
     quick=120, thorough=3000, rule="more than two centers")
def gng(case, ctx):
    """Centers are the network's nodes, sizes the mean squared distance to the graph neighbours."""
    rng = rs(case['seed'], 6)
    x = rng.normal(size=(case['n'], case['d']))
    gen.reseed(case['seed'] % 1000)
    node = N.GrowingNeuralGasExpansionNode(max_nodes=case['max'], lambda_=case['lam'])
    for c in gen.split(x, gen.cuts(rng, case['n'], case['nch'])):
        node.train(c)
    node.stop_training()
    pos = node.get_nodes_position()
    k = len(pos)
    check(k == len(node.graph.nodes) <= case['max'] and node.output_dim == k, "output dim %s, %d nodes, at most %d", node.output_dim, k, case['max'])
    where = {id(nd): nd.data.pos for nd in node.graph.nodes}
    cen = np.array([nd.data.pos for nd in node.graph.nodes])
    siz = []
    for nd in node.graph.nodes:
        nb = set()
        for e in node.graph.edges:
            if e.head is nd:
                nb.add(id(e.tail))
            elif e.tail is nd:
                nb.add(id(e.head))
        siz.append(np.mean([((nd.data.pos - where[b]) ** 2).sum() for b in nb]) if nb else np.nan)
    siz = np.array(siz)
    if not np.isfinite(siz).all() or siz.min() < 1e-12:
        return
    q = rng.normal(size=(5, case['d']))
    y = node.execute(q)
    want = np.exp(-0.5 * ((q[:, None, :] - cen) ** 2).sum(axis=2) / siz)
    close(y, want, 1e-8, "expansion around the network's nodes")
    ctx.nontrivial(k > 2)
