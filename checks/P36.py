"""P36: options that only report (verbose, debug) do not change what is computed."""
import contextlib
import io
import os
import numpy as np
import mdp
import bimdp
from mdp import nodes, hinet
from mdp import parallel as par
from mdp.utils import CovarianceMatrix
from bimdp import BiFlow
from bimdp.parallel import ParallelBiFlow
from lib.harness import sub, check, close, st, raises, Violation
from lib import gen, flowzoo
from lib.gen import seeds, rs, reseed


@contextlib.contextmanager
def captured():
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        yield buf


def leaves(o, path='', depth=0, seen=None):
    """The arrays and numbers inside an object, by path."""
    seen = set() if seen is None else seen
    if isinstance(o, np.ndarray) or isinstance(o, (int, float, complex, str, bytes, np.generic, type(None))):
        yield path, o
    elif id(o) in seen or depth > 7 or isinstance(o, np.random.RandomState):
        return
    else:
        seen.add(id(o))
        if isinstance(o, dict):
            for k in sorted(o, key=repr):
                if k not in ('verbose', '_verbose', '_info'):     # _info: the layout of the report
                    for r in leaves(o[k], '%s.%s' % (path, k), depth + 1, seen):
                        yield r
        elif isinstance(o, (list, tuple)):
            for i, v in enumerate(o):
                for r in leaves(v, '%s[%d]' % (path, i), depth + 1, seen):
                    yield r
        elif hasattr(o, '__dict__') and type(o).__module__.split('.')[0] in ('mdp', 'bimdp', 'checks', 'lib'):
            for r in leaves(o.__dict__, path, depth + 1, seen):
                yield r


def same_state(a, b, what, skip=()):
    la, lb = dict(leaves(a)), dict(leaves(b))
    check(set(la) == set(lb), "%s: other attributes: %s", what, sorted(set(la) ^ set(lb))[:5])
    for k, v in la.items():
        w = lb[k]
        if any(k.endswith(s) for s in skip):
            continue
        if isinstance(v, np.ndarray) or isinstance(w, np.ndarray):
            if np.asarray(v).dtype == object:
                continue
            check(np.shape(v) == np.shape(w) and np.array_equal(v, w, equal_nan=np.asarray(v).dtype.kind in 'fc'), "%s: attribute %s differs", what, k)
        elif isinstance(v, float) and isinstance(w, float) and v != v:
            check(w != w, "%s: attribute %s: %r and %r", what, k, v, w)
        else:
            check(v == w, "%s: attribute %s: %r and %r", what, k, v, w)


def outcome(f):
    try:
        return ('ok', f())
    except Exception as e:
        return ('error', type(e), str(e))


def same(a, b, what):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        check(isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=a.dtype.kind in 'fc'), "%s: results differ", what)
    elif isinstance(a, (list, tuple)):
        check(type(a) is type(b) and len(a) == len(b), "%s: results differ: %r and %r", what, type(a), type(b))
        for v, w in zip(a, b):
            same(v, w, what)
    elif isinstance(a, dict):
        check(isinstance(b, dict) and set(a) == set(b), "%s: results differ", what)
        for k in a:
            same(a[k], b[k], what)
    else:
        check(a == b or a != a, "%s: results differ: %r and %r", what, a, b)


# ------------------------------------------------------------------ nodes
def b_fa(c, d, r, v):
    return lambda: nodes.FANode(output_dim=max(1, d // 2), max_cycles=c % 7 + 1, tol=(1e-4, 1e-2)[c % 2], verbose=v)


def b_cubica(c, d, r, v):
    return lambda: nodes.CuBICANode(limit=(1e-3, 0.1)[c % 2], telescope=bool(c // 2 % 2), whitened=False, verbose=v)


def b_jade(c, d, r, v):
    return lambda: nodes.JADENode(limit=(1e-3, 0.1)[c % 2], max_it=(1, 1000)[c // 2 % 5 > 0], verbose=v)


def b_fastica(c, d, r, v):
    q = rs(c)
    g = ['pow3', 'tanh', 'gaus', 'skew'][q.randint(4)]
    fine = [None, 'pow3', 'tanh', 'gaus', 'skew'][q.randint(5)]
    kw = dict(approach=['symm', 'defl'][q.randint(2)], g=g, fine_g=fine, mu=[1, 0.6][q.randint(2)], sample_size=[1, 0.7][q.randint(2)],
              max_it=[3, 100, 100][q.randint(3)], max_it_fine=[2, 100][q.randint(2)], failures=q.randint(1, 4), primary_limit=[1e-2, 1e-4][q.randint(2)])
    kw['coarse_limit'] = None if q.randint(2) else 0.1
    kw['limit'] = kw.pop('primary_limit')
    return lambda: nodes.FastICANode(verbose=v, **kw)


def b_tdsep(c, d, r, v):
    return lambda: nodes.TDSEPNode(lags=c % 3 + 1, limit=(1e-5, 0.1)[c % 2], max_iter=(1, 10000)[c // 2 % 4 > 0], verbose=v)


def b_isfa(c, d, r, v):
    q = rs(c)
    kw = dict(lags=q.randint(1, 4), whitened=False, icaweights=[1., 0.][q.randint(2)], sfaweights=1., eps_contrast=[1e-6, 1e-2][q.randint(2)], max_iter=[2, 10000][int(q.randint(4) > 0)],
              sfa_ica_coeff=[(1., 1.), (1., 0.5)][q.randint(2)], output_dim=q.randint(1, d + 1))
    return lambda: nodes.ISFANode(verbose=v, **kw)


def b_xsfa(c, d, r, v):
    return lambda: nodes.XSFANode(basic_exp=(nodes.PolynomialExpansionNode, (2,), {}), intern_exp=(nodes.PolynomialExpansionNode, (2,), {}), svd=bool(c % 2), output_dim=min(2, d), verbose=v)


def b_lle(c, d, r, v):
    return lambda: nodes.LLENode(k=c % 5 + 5, r=1e-3, svd=bool(c % 2), output_dim=(1, min(2, d), 0.9)[c % 3], verbose=v)


def b_hlle(c, d, r, v):
    return lambda: nodes.HLLENode(k=c % 5 + 9, r=1e-3, svd=bool(c % 2), output_dim=(1, min(2, d))[c // 2 % 2], verbose=v)


GMODES = ['regular', 'unlabeled', 'clustered', 'serial', 'mixed', 'window2', 'fwindow1', 'mirror_window2', 'smirror_window2', 'graph', 'graph_old', 'compact_classes2', 'DualSerial2', 'ignore_data', None,
          'classification', 'serial_regression5', 'list', 'wrong']


def gsfa_kw(c, x):
    m = GMODES[c % len(GMODES)]
    n = len(x)
    q = rs(c, n)
    kw = {'train_mode': m}
    if m in ('clustered', 'serial', 'mixed', 'compact_classes2') or c % 3 == 0:
        kw['block_size'] = 10
    if m == 'DualSerial2':
        kw['block_size'] = 10
    if m in ('graph', 'graph_old'):
        kw['node_weights'] = q.rand(n) + 0.5
        e = q.rand(n, n)
        kw['edge_weights'] = e + e.T if m == 'graph' else {(i, j): 1. for i in range(n) for j in range(n) if abs(i - j) == 1}
    if m == 'classification':
        kw['train_mode'] = (m, q.randint(3, size=n), 1.)
    if m == 'serial_regression5':
        kw['train_mode'] = (m, q.rand(n), 1.)
    if m == 'list':
        kw['train_mode'] = ['regular', ('classification', q.randint(3, size=n), 0.5), 'unlabeled']
    return kw


def b_gsfa(c, d, r, v):
    return lambda: nodes.GSFANode(output_dim=r.randint(1, d + 1), verbose=v)


def ident(x):
    return x


def sq(x):
    return x ** 2


def b_igsfa(c, d, r, v):
    q = rs(c)
    kw = dict(expansion_funcs=[ident, sq], delta_threshold=[1.99, 1, 2.][q.randint(3)], max_length_slow_part=[None, 1, 2][q.randint(3)], reconstruct_with_sfa=bool(q.randint(2)),
              slow_feature_scaling_method=[None, 'sensitivity_based', 'data_dependent', 'QR_decomposition'][q.randint(4)], output_dim=q.randint(1, 2 * d + 1))
    if q.randint(2):
        kw.update(pre_expansion_node_class=nodes.WhiteningNode, pre_expansion_out_dim=q.randint(1, d + 1))
    return lambda: nodes.iGSFANode(verbose=v, **kw)


BUILD = {f.__name__[2:]: f for f in (b_fa, b_cubica, b_jade, b_fastica, b_tdsep, b_isfa, b_xsfa, b_lle, b_hlle, b_gsfa, b_igsfa)}


@sub(st.fixed_dictionaries({'kind': st.sampled_from(sorted(BUILD) + ['fastica', 'gsfa', 'igsfa', 'isfa', 'fastica', 'gsfa']), 'c': st.integers(0, 400), 'd': st.integers(2, 4), 'seed': seeds, 'chunks': st.integers(1, 3), 'data': st.sampled_from(['mix', 'mix', 'signal', 'noise', 'flat'])}),
     quick=700, thorough=20000, shards=8, timeout=60, rule='something is reported and the node is trained')
def verbose_nodes(case, ctx):
    """A node with verbose=True computes and raises exactly what it does without."""
    d, c = case['d'], case['c']
    n = 70 if case['kind'] in ('lle', 'hlle', 'gsfa', 'igsfa') else 200
    r = rs(case['seed'], 1)
    if case['data'] == 'mix':
        x = gen.sources(r, n, d).dot(gen.rot(r, d))
    elif case['data'] == 'signal':
        x = flowzoo.signal(r, n, d)
    elif case['data'] == 'noise':
        x = r.normal(size=(n, d))
    else:
        x = r.normal(size=(n, d))
        x[:, -1] = 0.
    runs = []
    texts = []
    for v in (False, True):
        reseed(case['seed'])
        node = None
        with captured() as buf:
            def job():
                res = []
                for ch in gen.split(x, gen.cuts(rs(case['seed'], 2), n, case['chunks'], 30)):
                    kw = gsfa_kw(c, ch) if 'gsfa' in case['kind'] else {}
                    if case['kind'] == 'igsfa' and not isinstance(kw['train_mode'], (str, type(None))):
                        kw = {'train_mode': 'regular'}
                    node.train(ch.copy(), **kw)
                while node.is_training():
                    node.stop_training()
                res.append(node.execute(x))
                if node.is_invertible():
                    res.append(outcome(lambda: node.inverse(res[0])))
                return res
            node = BUILD[case['kind']](c, d, rs(case['seed'], 3), v)()
            with np.errstate(all='ignore'):
                out = outcome(job)
        runs.append((out, node))
        texts.append(buf.getvalue())
    (a, na), (b, nb) = runs
    check(a[0] == b[0] and (a[0] == 'ok' or a[1:] == b[1:]), "%s: %s without and %s with verbose", case['kind'], a if a[0] != 'ok' else 'ok', b if b[0] != 'ok' else 'ok')
    if a[0] == 'ok':
        same(a[1], b[1], case['kind'])
        if texts[1]:
            ctx.nontrivial()
    else:
        ctx.label('error')
    same_state(na, nb, case['kind'])
    if case['kind'] != 'igsfa':
        check(not texts[0], "%s: reports without verbose: %r", case['kind'], texts[0][:80])
    ctx.label(case['kind'])


@sub(st.fixed_dictionaries({'lab': st.booleans(), 'v': st.integers(1, 4), 'h': st.integers(1, 4), 'n': st.integers(1, 12), 'up': st.integers(1, 3), 'eps': st.sampled_from([0.1, 0.5]), 'decay': st.sampled_from([0., 0.1]), 'mom': st.sampled_from([0., 0.5]),
                            'ph': st.booleans(), 'steps': st.integers(1, 4), 'seed': seeds}), quick=150, rule='several steps')
def verbose_rbm(case, ctx):
    """The learning of a Boltzmann machine does not depend on what it reports."""
    r = rs(case['seed'])
    v = (r.rand(case['n'], case['v']) < 0.5).astype('d')
    l = np.eye(2)[r.randint(2, size=case['n'])]
    got = []
    for verb in (False, True):
        reseed(case['seed'])
        node = nodes.RBMWithLabelsNode(case['h'], 2, visible_dim=case['v']) if case['lab'] else nodes.RBMNode(case['h'], case['v'])
        args = (l,) if case['lab'] else ()
        with captured() as buf:
            for _ in range(case['steps']):
                kw = dict(n_updates=case['up'], epsilon=case['eps'], decay=case['decay'], momentum=case['mom'], verbose=verb)
                if not case['lab']:
                    kw['update_with_ph'] = case['ph']
                node.train(v.copy(), *args, **kw)
            node.stop_training()
        check(verb or not buf.getvalue(), "reports without verbose")
        got.append(node)
    if case['steps'] > 1:
        ctx.nontrivial()
    a, b = got
    for k in ('w', 'bv', 'bh'):
        check(np.array_equal(getattr(a, k), getattr(b, k)), "%s depends on verbose", k)


# ------------------------------------------------------------------ debug
DEBUG = {
    'pca': lambda o: nodes.PCANode(output_dim=o), 'pcasvd': lambda o: nodes.PCANode(output_dim=o, svd=True), 'pcareduce': lambda o: nodes.PCANode(output_dim=o, reduce=True),
    'white': lambda o: nodes.WhiteningNode(output_dim=o), 'sfa': lambda o: nodes.SFANode(output_dim=o), 'sfanodct': lambda o: nodes.SFANode(output_dim=o, include_last_sample=False),
    'sfareg': lambda o: nodes.SFANode(output_dim=o, rank_deficit_method='reg'), 'sfa2': lambda o: nodes.SFA2Node(output_dim=o), 'gsfa': lambda o: nodes.GSFANode(output_dim=o), 'nipals': lambda o: nodes.NIPALSNode(output_dim=o),
}


@sub(st.fixed_dictionaries({'kind': st.sampled_from(sorted(DEBUG)), 'd': st.integers(1, 4), 'o': st.integers(0, 3), 'n': st.integers(3, 40), 'bad': st.sampled_from([None, None, 'copy', 'zero']), 'seed': seeds, 'chunks': st.integers(1, 3)}),
     quick=500, rule='the covariance matrices are kept')
def debug(case, ctx):
    """stop_training(debug=True) gives the same node (or the same error) and keeps the covariance matrices."""
    d, o = case['d'], min(case['o'], case['d']) or None
    r = rs(case['seed'])
    x = flowzoo.signal(r, case['n'], d)
    if case['bad'] == 'copy':
        x = np.hstack([x, x[:, :1]])
    elif case['bad'] == 'zero':
        x = np.hstack([x, 0 * x[:, :1]])
    cs = gen.split(x, gen.cuts(r, len(x), case['chunks'], 3))
    got = []
    for dbg in (False, True):
        reseed(case['seed'])
        node = DEBUG[case['kind']](o)

        def job():
            for c in cs:
                node.train(c.copy())
            with np.errstate(all='ignore'):
                node.stop_training(debug=dbg)
                return node.execute(x)
        got.append((outcome(job), node))
    (a, na), (b, nb) = got
    if a[0] != b[0] or a[0] == 'error' and a[1] != b[1]:
        # rounding decides whether the matrix is singular
        check(case['bad'] is not None or case['n'] < 12, "%s: %s without and %s with debug", case['kind'], a, b)
        return 'discard'
    if a[0] == 'ok':
        same(a[1], b[1], case['kind'])
    if case['kind'] in ('nipals', 'pcasvd'):
        return
    # the matrices that remain
    if hasattr(nb, 'cov_mtx') and nb.cov_mtx is not None and case['kind'] != 'gsfa':
        y = x
        if case['kind'] == 'sfa2':
            y = nodes.QuadraticExpansionNode()(x)
        if case['kind'].startswith('sfa'):
            inc = case['kind'] == 'sfa2' or case['kind'] == 'sfa' or case['kind'] == 'sfareg'
            pieces = [(nodes.QuadraticExpansionNode()(c) if case['kind'] == 'sfa2' else c) for c in cs]
            y = np.vstack([p if inc else p[:-1] for p in pieces])
            dy = np.vstack([np.diff(p, axis=0) for p in pieces])
            dc = CovarianceMatrix()
            dc.update(dy)
            close(nb.dcov_mtx, dc.fix(center=False)[0], 1e-8, "%s: covariance of the derivatives kept for debugging" % case['kind'], scale=max(1, abs(dy).max() ** 2))
        if case['kind'] == 'sfareg' and a[0] == 'error':
            return
        if case['kind'].startswith('pca') and case['n'] < x.shape[1]:
            return
        want = np.cov(y, rowvar=False).reshape(y.shape[1], y.shape[1])
        close(nb.cov_mtx, want, 1e-8, "%s: covariance kept for debugging" % case['kind'], scale=max(1, abs(y).max() ** 2))
        ctx.nontrivial()
    elif b[0] == 'ok' and case['kind'] in ('pca', 'white', 'sfa', 'sfa2', 'sfanodct'):
        check(False, "%s: no covariance matrix after debug", case['kind'])


# ------------------------------------------------------------------ flows
KINDS = ['rec', 'affine', 'pca', 'norm', 'quad', 'id', 'switch', 'flownode', 'layer', 'reg', 'cls', 'sfa']


def flow_class(name, nds, verbose):
    if name == 'flow':
        return mdp.Flow(nds, verbose=verbose)
    if name == 'biflow':
        return BiFlow(nds, verbose=verbose)
    if name == 'pflow':
        return par.ParallelFlow(nds, verbose=verbose)
    if name == 'pbiflow':
        return ParallelBiFlow(nds, verbose=verbose)
    if name == 'pcheck':
        return par.ParallelCheckpointFlow(nds, verbose=verbose)
    return mdp.CheckpointFlow(nds, verbose=verbose)


@sub(st.fixed_dictionaries({'cls': st.sampled_from(['flow', 'biflow', 'pflow', 'pbiflow', 'check', 'pcheck']), 'kinds': st.lists(st.sampled_from(KINDS), min_size=1, max_size=4), 'd': st.integers(1, 4), 'seed': seeds,
                            'fail': st.none() | st.none() | st.none() | st.integers(0, 3), 'sched': st.sampled_from(['none', 'serial', 'thread']), 'sv': st.booleans(), 'arr': st.booleans()}), quick=400, thorough=10000, shards=8, timeout=60, rule='at least two nodes and something is reported')
def verbose_flows(case, ctx):
    """Flows with verbose=True train and execute the same; errors are the same."""
    ps = flowzoo.parts(case['kinds'], case['d'], case['seed'])
    runs = []
    texts = []
    sched = None
    for v in (False, True):
        reseed(case['seed'])
        nds = [p.new() for p in ps]
        r = rs(case['seed'], 2)
        data = flowzoo.mkdata(ps, r, True, case['d'])
        if case['fail'] is not None:
            nds.insert(min(case['fail'], len(nds)), Broken())
            data.insert(min(case['fail'], len(data)), None)
        its = [None if dd is None or not nd.is_trainable() else [tuple([x] + list(a)) if a else x for x, a in dd] for dd, nd in zip(data, nds)]
        with captured() as buf:
            def job():
                f = flow_class(case['cls'], nds, v)
                if case['cls'] in ('pflow', 'pbiflow', 'pcheck') and case['sched'] != 'none':
                    kw['scheduler'] = sched[0] = par.Scheduler(verbose=v and case['sv']) if case['sched'] == 'serial' else par.ThreadScheduler(n_threads=1, verbose=v and case['sv'])
                args = [its]
                if case['cls'] in ('check', 'pcheck'):
                    args.append([mdp.CheckpointFunction() for _ in nds])
                f.train(*args, **kw)
                x = np.vstack([c for c, _ in [dd for dd in data if dd is not None][0]]) if data and any(dd is not None for dd in data) else r.normal(size=(5, case['d']))
                res = [f.execute([x[:4], x[4:]], **({'scheduler': kw['scheduler']} if kw and case['cls'] != 'pcheck' else {}))]
                return res
            kw = {}
            sched = [None]
            with np.errstate(all='ignore'):
                out = outcome(job)
            if sched[0] is not None:
                sched[0].shutdown()
        texts.append(buf.getvalue())
        runs.append((out, nds))
    (a, na), (b, nb) = runs
    check(a[0] == b[0], "%s: %s without and %s with verbose", case['cls'], a, b)
    if a[0] == 'ok':
        same(a[1], b[1], case['cls'])
        if len(ps) > 1 and texts[1]:
            ctx.nontrivial()
    else:
        check(a[1] is b[1], "%s: error %s without and %s with verbose", case['cls'], a[1], b[1])
        ctx.label('error')
    check(not texts[0] or 'task' in texts[0] or a[0] == 'error', "reports without verbose: %r", texts[0][:100])
    if case['cls'] in ('flow', 'biflow', 'check'):
        for x, y in zip(na, nb):
            same_state(x, y, case['cls'])


class Broken(mdp.Node):
    def is_trainable(self):
        return False

    def _execute(self, x):
        raise mdp.NodeException('planned')


ON = {'center': lambda: nodes.OnlineCenteringNode(), 'ccipca': lambda: nodes.CCIPCANode(output_dim=2), 'timediff': lambda: nodes.OnlineTimeDiffNode(), 'mca': lambda: nodes.MCANode(output_dim=2), 'id': lambda: nodes.IdentityNode(),
      'incsfa': lambda: nodes.IncSFANode(output_dim=2), 'affine': lambda: flowzoo.Affine(2., 1.)}


@sub(st.fixed_dictionaries({'kinds': st.lists(st.sampled_from(sorted(ON)), min_size=1, max_size=4), 'seed': seeds, 'circular': st.booleans(), 'loops': st.integers(1, 3), 'ignore': st.booleans(), 'n': st.integers(2, 15), 'execd': st.booleans()}),
     quick=150, rule='several nodes')
def verbose_online_flows(case, ctx):
    """Online flows train the same with verbose=True."""
    d = 4 if not case['circular'] else 2
    got = []
    for v in (False, True):
        reseed(case['seed'])
        kinds = case['kinds'] if not case['circular'] else [k for k in case['kinds'] if k not in ('timediff',)] or ['id']
        nds = [ON[k]() for k in kinds]
        for nd in nds:
            if isinstance(nd, mdp.OnlineNode):
                nd.numx_rng = np.random.RandomState(case['seed'] % 1000)
        x = flowzoo.signal(rs(case['seed']), case['n'], d)
        with captured() as buf:
            def job():
                if case['circular']:
                    f = mdp.CircularOnlineFlow(nds, verbose=v)
                    f.set_flow_iterations(case['loops'])
                    if case['ignore']:
                        f.ignore_input(True)
                        f.set_stored_input(x[:1])
                else:
                    f = mdp.OnlineFlow(nds, verbose=v)
                f.train(x)
                return [f.execute(x)]
            with np.errstate(all='ignore'):
                got.append((outcome(job), nds))
        check(v or not buf.getvalue(), "reports without verbose: %r", buf.getvalue()[:100])
    (a, na), (b, nb) = got
    check(a[0] == b[0] and (a[0] == 'ok' or a[1] is b[1]), "%s without and %s with verbose", a, b)
    if a[0] == 'ok':
        same(a[1], b[1], 'online flow')
        if len(na) > 1:
            ctx.nontrivial()
    else:
        ctx.label('error')
    for x, y in zip(na, nb):
        same_state(x, y, 'online flow')


# ------------------------------------------------------------------ extensions
@sub(st.fixed_dictionaries({'ops': st.lists(st.tuples(st.sampled_from(['on', 'off', 'both_on', 'both_off']), st.sampled_from(['gradient', 'parallel', 'html', 'cache_execute'])), min_size=1, max_size=10)}), quick=60, rule='at least two operations')
def verbose_extensions(case, ctx):
    """Activation and deactivation with verbose=True leave the same classes."""
    def snap():
        res = []
        for c in (mdp.Node, nodes.PCANode, nodes.SFANode, hinet.Layer, mdp.hinet.FlowNode, nodes.QuadraticExpansionNode, mdp.Flow):
            res.append(sorted((k, id(v)) for k, v in c.__dict__.items() if '__' not in k[:2] and k != '_abc_impl'))
        return res, sorted(mdp.get_active_extensions())
    names = [n for n in ('gradient', 'parallel', 'html', 'cache_execute') if n in mdp.get_extensions()]
    out = []
    try:
        for v in (False, True):
            trace = [snap()]
            with captured() as buf:
                for op, name in case['ops']:
                    if name not in names:
                        continue
                    other = names[(names.index(name) + 1) % len(names)]
                    if op == 'on':
                        mdp.activate_extension(name, verbose=v)
                    elif op == 'off':
                        mdp.deactivate_extension(name, verbose=v)
                    elif op == 'both_on':
                        mdp.activate_extensions([name, other], verbose=v)
                    else:
                        mdp.deactivate_extensions([name, other], verbose=v)
                    trace.append(snap())
                mdp.deactivate_extensions(mdp.get_active_extensions(), verbose=v)
                trace.append(snap())
            out.append((trace, buf.getvalue()))
    finally:
        mdp.deactivate_extensions(mdp.get_active_extensions())
    if len(case['ops']) > 1:
        ctx.nontrivial()
    check(not out[0][1], "reports without verbose")
    check(out[0][0] == out[1][0], "the classes depend on verbose")
    check(out[0][0][0] == out[0][0][-1], "the classes are not restored")
