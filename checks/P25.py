"""Online nodes, online flows, circular flows and online composites against their unrolled recursion."""
import numpy as np
import mdp
from mdp import nodes, hinet
from lib.harness import sub, check, close, st, raises
from lib import gen
from lib.gen import seeds, rs
from lib.onodes import Leaky, Noisy, Mixer, Super, Phases, Fixed, Total

ALL_EXC = (mdp.MDPException, TypeError, ValueError, AttributeError, IndexError)


def rng_of(k):
    return np.random.RandomState(k & 0xffffffff)


# ------------------------------------------------------------------ node zoo
SAME = ['leaky', 'phases', 'legacy', 'fixed', 'center', 'ema', 'tdiff', 'pca']
ANY = SAME + ['noisy', 'mixer', 'ccipca', 'white', 'mca', 'incsfa', 'fixed']


def build(kind, d, o, seed, batch=False):
    """(node, output dimension)"""
    r = rng_of(seed)
    if kind == 'leaky':
        n = Leaky(a=.3 + .6 * (seed % 7) / 7., input_dim=d)
    elif kind == 'noisy':
        n = Noisy(input_dim=d, numx_rng=r)
    elif kind in ('phases', 'legacy'):
        n = Phases(nph=1 + seed % 3, legacy=kind == 'legacy', input_dim=d)
    elif kind == 'super':
        n = Super(input_dim=d)
    elif kind == 'fixed':
        n = Fixed(seed, input_dim=d, output_dim=o)
    elif kind == 'center':
        n = nodes.OnlineCenteringNode(input_dim=d)
    elif kind == 'ema':
        n = nodes.OnlineCenteringNode(avg_n=2 + seed % 9, input_dim=d)
    elif kind == 'tdiff':
        n = nodes.OnlineTimeDiffNode(input_dim=d)
    elif kind == 'mixer':
        n = Mixer(seed, input_dim=d, output_dim=o)
    elif kind == 'ccipca':
        o = min(o, d)
        n = nodes.CCIPCANode(input_dim=d, output_dim=o, numx_rng=r)
    elif kind == 'white':
        o = min(o, d)
        n = nodes.CCIPCAWhiteningNode(input_dim=d, output_dim=o, numx_rng=r)
    elif kind == 'mca':
        o = min(o, d)
        n = nodes.MCANode(eps=.05, input_dim=d, output_dim=o, numx_rng=r)
    elif kind == 'incsfa':
        o = min(o, d)
        n = nodes.IncSFANode(eps=.02, input_dim=d, output_dim=o, numx_rng=r)
    elif kind == 'pca':
        n = nodes.PCANode(input_dim=d)
        n.train(rng_of(seed + 1).normal(size=(40, d)) * (1 + np.arange(d)))
        n.stop_training()
    elif kind == 'stopped':
        n = Leaky(input_dim=d)
        n.train(rng_of(seed + 2).normal(size=(5, d)))
        n.stop_training()
    else:
        raise AssertionError(kind)
    if kind not in ('fixed', 'mixer', 'ccipca', 'white', 'mca', 'incsfa'):
        o = d
    if batch and isinstance(n, mdp.OnlineNode) and kind in ('leaky', 'noisy', 'phases', 'legacy', 'mixer', 'super', 'tdiff'):
        if n.is_training():
            n.set_training_type('batch')
    return n, o


def snap(n):
    """Observable summary of a leaf."""
    res = [n.is_training(), n.input_dim, n.output_dim]
    if isinstance(n, mdp.OnlineNode):
        res += [n.get_current_train_iteration()]
    for a in ('log', 'stops'):
        if hasattr(n, a):
            res.append(list(getattr(n, a)) if isinstance(getattr(n, a), list) else getattr(n, a))
    return res


def same_leaf(a, b, msg, probe_seed=0):
    check(snap(a) == snap(b), '%s: %r has %s, expected %s' % (msg, a, snap(a), snap(b)))
    for k in ('s', 'm', 'w', 'avg', 'v', 'd', 'sf', 'x_prev', 'x_cur'):
        if hasattr(b, k):
            x, y = getattr(a, k), getattr(b, k)
            check((x is None) == (y is None), '%s: %s of %r' % (msg, k, a))
            if y is not None:
                close(x, y, 1e-7, '%s: %s of %s' % (msg, k, type(a).__name__), scale=1 + np.abs(y).max())
    if hasattr(b, 'acc') and b.acc is not None:
        close(np.array(a.acc), np.array(b.acc), 1e-7, msg + ': phases', scale=1 + np.abs(np.array(b.acc)).max())


def same_out(a, b, msg):
    a, b = np.asarray(a), np.asarray(b)
    check(a.shape == b.shape, '%s: shape %s, expected %s' % (msg, a.shape, b.shape))
    close(a, b, 1e-7, msg, scale=1 + np.abs(b).max())


def data(seed, n, d, k=0):
    r = rs(seed, n, d, k)
    return r.normal(size=(n, d)) * (.5 + r.rand(d)) + .3 * r.normal(size=d)


# ------------------------------------------------------------------ 1. one node against a model
class PhaseModel(object):
    def __init__(self, nph, gains, legacy, d):
        self.nph, self.gains, self.legacy = nph, gains, legacy
        self.acc = [np.zeros(d) for _ in range(nph)]
        self.log = []
        self.count = 0
        self.training = True
        self.started = False

    def train(self, x, mode):
        self.started = True
        for blk in ([x] if mode == 'batch' else [x[i:i + 1] for i in range(len(x))]):
            cur = blk
            for i in range(self.nph):
                self.log.append((i, len(cur)))
                self.acc[i] = .8 * self.acc[i] + cur.sum(axis=0)
                if not self.legacy:
                    cur = self.gains[i] * cur + np.tanh(self.acc[i])
            self.count += len(blk)

    def ex(self, x):
        return x + np.tanh(sum(self.acc))

    def inv(self, y):
        return y - np.tanh(sum(self.acc))


OPS = ['train', 'train', 'train', 'ex', 'inv', 'type', 'stop', 'copy', 'rng', 'bad']


@sub(st.fixed_dictionaries(dict(
    s=seeds, d=st.integers(1, 4), nph=st.integers(1, 3), legacy=st.booleans(), given=st.booleans(),
    mode=st.sampled_from([None, 'incremental', 'batch']),
    ops=st.lists(st.tuples(st.sampled_from(OPS), st.integers(1, 6), seeds), min_size=3, max_size=14))),
    quick=150, thorough=4000, rule='at least two chunks of several rows were trained')
def node_model(case, ctx):
    d = case['d']
    n = Phases(nph=case['nph'], legacy=case['legacy'], input_dim=d if case['given'] else None)
    m = PhaseModel(case['nph'], n.gains, case['legacy'], d)
    mode = case['mode']
    if mode:
        n.set_training_type(mode)
    check(n.training_type == mode, 'training type')
    big = 0
    for op, k, s in case['ops']:
        x = data(s, k, d)
        cur = mode or 'incremental'
        if op == 'train':
            if not m.training:
                raises((mdp.TrainingFinishedException,), lambda: n.train(x), 'training a stopped node')
                continue
            keep = x.copy()
            n.train(x)
            check(np.array_equal(keep, x), 'train changed its data')
            m.train(x, cur)
            big += k > 1
        elif op in ('ex', 'inv'):
            if not m.started:
                if op == 'inv':
                    continue
                m.train(x, cur)       # the first execution trains the node with its data
            same_out(n.execute(x) if op == 'ex' else n.inverse(x), m.ex(x) if op == 'ex' else m.inv(x), op)
        elif op == 'type':
            if s % 5 == 0:
                raises(ALL_EXC, lambda: n.set_training_type('sometimes'), 'unknown training type accepted')
            else:
                mode = 'batch' if s % 2 else 'incremental'
                n.set_training_type(mode)
        elif op == 'stop':
            if not m.started:
                raises((mdp.TrainingException,), n.stop_training, 'stop before the first training')
            elif m.training:
                n.stop_training()
                m.training = False
                check(sorted(n.stops) == list(range(m.nph)), 'stop functions called %s' % n.stops)
            else:
                raises((mdp.TrainingFinishedException,), n.stop_training, 'stopped twice')
        elif op == 'copy':
            old = n
            n = n.copy()
            if m.training:
                old.train(x)          # must not be seen by the copy
        elif op == 'rng':
            r = np.random.RandomState(s)
            n.set_numx_rng(r)
            check(n.numx_rng is r, 'numx_rng not kept')
            raises(ALL_EXC, lambda: n.set_numx_rng(s), 'a number was accepted as a generator')
            check(n.numx_rng is r, 'numx_rng lost')
        elif op == 'bad':
            if n.input_dim is not None and m.training:
                raises(ALL_EXC, lambda: n.train(data(s, k, d + 1)), 'wrong dimension trained')
        check(n.get_current_train_iteration() == m.count, 'counted %d samples, expected %d' % (n.get_current_train_iteration(), m.count))
        check(n.log == m.log, 'training calls %s, expected %s' % (n.log, m.log))
        check(n.is_training() == m.training, 'is_training')
        check(n.get_remaining_train_phase() == (m.nph if m.training else 0), 'remaining phases')
        if m.started:
            close(np.array(n.acc), np.array(m.acc), 1e-9, 'state', scale=1 + np.abs(np.array(m.acc)).max())
    ctx.nontrivial(big >= 2)
    ctx.label(mode or 'default')


# ------------------------------------------------------------------ 2. chunk independence
CHUNKY = ['leaky', 'mixer', 'phases', 'center', 'ema', 'tdiff', 'ccipca', 'white', 'mca', 'incsfa', 'incsfa_w',
          'incsfa_nomean', 'layer', 'samelayer', 'clone', 'flownode', 'circnode', 'mca_init', 'ccipca_init', 'super']


def chunk_node(kind, d, o, seed):
    r = rng_of(seed)
    if kind == 'incsfa_w':
        w = max(1, min(d, o + 1))
        return nodes.IncSFANode(eps=.02, whitening_output_dim=w, output_dim=min(o, w), avg_n=5, numx_rng=r)
    if kind == 'incsfa_nomean':
        return nodes.IncSFANode(eps=.02, remove_mean=False, output_dim=min(o, d), numx_rng=r)
    if kind == 'mca_init':
        return nodes.MCANode(eps=.05, init_eigen_vectors=.1 * r.normal(size=(d, min(o, d))), gamma=1.5, normalize=True)
    if kind == 'ccipca_init':
        return nodes.CCIPCANode(amn_params=(3, 8, 10, 2), init_eigen_vectors=.1 * r.normal(size=(d, min(o, d))))
    if kind in ('layer', 'samelayer', 'clone'):
        a, oa = build('ccipca', d, o, seed)
        b, ob = build('leaky', d, d, seed + 1)
        if kind == 'clone':
            return hinet.CloneOnlineLayer(a, 2, numx_rng=r)
        if kind == 'layer':
            return hinet.OnlineLayer([a, b], numx_rng=r)
        return hinet.SameInputOnlineLayer([a, b], numx_rng=r)
    if kind in ('flownode', 'circnode'):
        f = [build('center', d, d, seed)[0], build('fixed', d, d, seed)[0], build('mixer', d, d, seed)[0]]
        if kind == 'flownode':
            return hinet.OnlineFlowNode(mdp.OnlineFlow(f), numx_rng=r)
        c = mdp.CircularOnlineFlow(f)
        c.set_flow_iterations(1 + seed % 3)
        return hinet.CircularOnlineFlowNode(c, numx_rng=r)
    return build(kind, d, o, seed)[0]


@sub(st.fixed_dictionaries(dict(
    s=seeds, kind=st.sampled_from(CHUNKY), d=st.integers(2, 5), o=st.integers(1, 5), n=st.one_of(*([st.integers(3, 40)] * 6 + [st.sampled_from([130, 300])])),
    k=st.one_of(*([st.integers(2, 8)] * 6 + [st.sampled_from([20, 60])])), peek=st.booleans(), f32=st.booleans())),
    quick=150, thorough=4000, rule='several chunks, at least one with several rows')
def chunking(case, ctx):
    kind, d, o = case['kind'], case['d'], case['o']
    r = rs(case['s'])
    mult = 2 if kind in ('layer', 'clone') else 1
    x = gen.slow(r, case['n'], d * mult) if 'sfa' in kind else data(case['s'], case['n'], d * mult)
    args = (.7, -.4) if kind == 'super' else ()
    dt = 'f' if case['f32'] and kind not in ('leaky', 'mixer', 'phases', 'layer', 'samelayer', 'clone', 'flownode',
                                             'circnode', 'super', 'mca_init', 'ccipca_init') else 'd'
    x = x.astype(dt)
    tol = 2e-3 if dt == 'f' else 1e-8
    a, b, c = [chunk_node(kind, d, o, case['s'] % 100000) for _ in range(3)]
    for i in range(len(x)):
        a.train(x[i:i + 1], *args)
    sizes = gen.cuts(r, len(x), case['k'])
    pos = 0
    for part in gen.split(x, sizes):
        b.train(part, *args)
        pos += len(part)
        check(b.get_current_train_iteration() == pos, 'sample count %d after %d samples' % (b.get_current_train_iteration(), pos))
        if case['peek']:
            b.execute(part)       # does not change anything
            b.execute(x[:1])
            check(b.is_training(), 'executing ended the training')
    c.train(x, *args)
    for other, name in ((b, 'in %s' % sizes), (c, 'at once')):
        check(other.get_current_train_iteration() == a.get_current_train_iteration() == len(x), 'sample count')
        y, z = other.execute(x), a.execute(x)
        check(y.shape == z.shape, '%s: shape' % name)
        check(y.dtype == z.dtype, 'dtype')
        close(y, z, tol, '%s: stream %s differs from row by row' % (kind, name), scale=1 + np.abs(z).max())
    ctx.nontrivial(len(sizes) > 1 and max(sizes) > 1)
    ctx.label(kind)


# ------------------------------------------------------------------ 3. online flows
def node_list(spec, d, extra=()):
    res, dims = [], [d]
    for kind, o, s, b in spec:
        n, o = build(kind, dims[-1], o, s % 100000, b)
        res.append(n)
        dims.append(o)
    return res, dims


def unrolled_train(ns, x, args=None):
    for i, n in enumerate(ns):
        if n.is_training():
            a = args[i] if args is not None and isinstance(n, Super) else ()
            n.train(np.array(x), *a)
        if isinstance(n, mdp.OnlineNode) or not n.is_training():
            x = n.execute(np.array(x))
    return x


def unrolled_ex(ns, x):
    for n in ns:
        x = n.execute(np.array(x))
    return x


# bounded values: the plain MCA recursion is only stable for inputs of moderate size
FLOWK = ['leaky', 'phases', 'legacy', 'fixed', 'center', 'ema', 'tdiff', 'pca', 'stopped', 'mixer', 'super', 'ccipca']
spec_st = st and st.lists(st.tuples(st.sampled_from(FLOWK), st.integers(1, 4), seeds, st.booleans()), min_size=1, max_size=5)
FORMS = ['2d', '3d', 'list', 'iter', 'tuples', 'lists']


def feed(form, seed, d, chunks, ns):
    """(object given to train, list of (chunk, args))"""
    r = rs(seed, 77)
    if form == '2d':
        x = data(seed, sum(chunks), d)
        return x, [(x[i:i + 1], None) for i in range(len(x))]
    if form == '3d':
        x = data(seed, len(chunks) * chunks[0], d).reshape(len(chunks), chunks[0], d)
        return x, [(b, None) for b in x]
    parts = [data(seed, c, d, k) for k, c in enumerate(chunks)]
    if form in ('list', 'iter'):
        return (list(parts) if form == 'list' else iter(list(parts))), [(p, None) for p in parts]
    out, ref = [], []
    for p in parts:
        a = []
        for n in ns:
            if isinstance(n, Super):
                a.append((float(r.normal()), float(r.rand())))
            else:
                a.append(None if r.rand() < .7 else ())
        out.append((p,) + tuple(a) if form == 'tuples' else [p] + a)
        ref.append((p, a))
    return out, ref


@sub(st.fixed_dictionaries(dict(
    s=seeds, d=st.integers(1, 4), spec=spec_st, form=st.sampled_from(FORMS),
    rounds=st.lists(st.lists(st.integers(1, 4), min_size=1, max_size=5), min_size=1, max_size=3),
    last=st.sampled_from([None, None, 'total', 'pca', 'sfa']), verbose=st.just(False))),
    quick=150, thorough=4000, rule='two or more nodes were trained on three or more chunks')
def flow_train(case, ctx):
    d = case['d']
    ns, dims = node_list(case['spec'], d)
    ref, _ = node_list(case['spec'], d)
    fixed = [(i, n.copy()) for i, n in enumerate(ns) if not n.is_training()]
    sup = any(isinstance(n, Super) for n in ns)
    form = case['form']
    if sup and form not in ('tuples', 'lists'):
        form = 'tuples'
    last = case['last']
    if last:
        mk = {'total': lambda: Total(nph=1), 'pca': nodes.PCANode, 'sfa': nodes.SFANode}[last]
        ns.append(mk())
        ref.append(mk())
    flow = mdp.OnlineFlow(ns)
    given = None
    total = 0
    for k, chunks in enumerate(case['rounds']):
        if last in ('sfa', 'pca'):
            chunks = [c + 4 for c in chunks]
            form = form if form != '2d' else 'list'
        arg, items = feed(form, case['s'] + k, d, chunks, ns)
        outs = []
        for x, a in items:
            y = unrolled_train(ref, x, a)
            outs.append(y)
            total += 1
        if last and k == 0:
            if last in ('sfa', 'pca') and outs and np.linalg.matrix_rank(np.concatenate(outs) - np.concatenate(outs).mean(axis=0), tol=1e-3) < dims[-1]:
                return
            try:
                ref[-1].stop_training()
            except mdp.NodeException:
                return              # degenerate data for a batch algorithm
        flow.train(arg)
        for i, (p, q) in enumerate(zip(ns, ref)):
            if i < len(case['spec']):
                same_leaf(p, q, 'node %d of %s after training' % (i, [type(n).__name__ for n in ns]))
        if last:
            check(not ns[-1].is_training(), 'the terminal node is still in training')
            if last == 'total':
                if k == 0:
                    got = np.concatenate(ns[-1].rows[0])
                    same_out(got, np.concatenate(outs), 'data seen by the terminal node')
                    given = got
                check(ns[-1].stopped == [0] and len(np.concatenate(ns[-1].rows[0])) == len(given), 'terminal node trained again')
        else:
            check(all(n.is_training() for n, kd in zip(ns, case['spec']) if kd[0] not in ('fixed', 'pca', 'stopped')),
                  'training of an online node was ended by the flow')
        x = data(case['s'], 3, d, 99 + k)
        same_out(flow(x), unrolled_ex(ref, x), 'execution of the flow')
        same_out(flow([x[:1], x[1:]]), np.concatenate([unrolled_ex(ref, x[:1]), unrolled_ex(ref, x[1:])]), 'execution in pieces')
        if all(n.is_invertible() for n in ns):
            y = flow(x)
            z = y
            for n in ref[::-1]:
                z = n.inverse(z)
            same_out(flow.inverse(y), z, 'inverse of the flow')
        for i, c in fixed:
            xx = data(1, 3, c.input_dim)
            if isinstance(c, Leaky) or not isinstance(c, mdp.OnlineNode):
                check(np.array_equal(ns[i].execute(xx), c.execute(xx)), 'a trained node was changed by the training')
    ctx.nontrivial(total >= 3 and sum(n.is_training() for n in ns) >= 2)
    ctx.label(form)
    ctx.label('terminal %s' % last)


@sub(st.fixed_dictionaries(dict(
    s=seeds, d=st.integers(2, 4), front=st.lists(st.sampled_from(['fixed', 'pca', 'stopped', 'leaky', 'center', 'phases']), max_size=3),
    nph=st.integers(1, 3), pre=st.integers(0, 2), chunks=st.lists(st.integers(2, 6), min_size=1, max_size=5), fda=st.booleans())),
    quick=40, thorough=1000, rule='several phases left')
def terminal_phases(case, ctx):
    """The last node may be an ordinary node with unfinished training, with several phases too."""
    d = case['d']
    fr = [build(k, d, d, case['s'] % 1000 + i)[0] for i, k in enumerate(case['front'])]
    parts = [data(case['s'], c, d, k) for k, c in enumerate(case['chunks'])]
    own = [n.copy() for n in fr]
    adaptive = any(n.is_training() for n in fr)

    def front(x, learn=False):
        # the nodes in front learn from each sample once
        for n in own:
            if learn and n.is_training():
                n.train(x)
            x = n.execute(x)
        return x
    if adaptive:
        ctx.label('online nodes in front')
        case = dict(case, pre=0, s=case['s'] * 3 + 1)
    if case['fda']:
        node = nodes.FDANode()
        ref = nodes.FDANode()
        labels = [rs(case['s'], k).randint(2, size=len(p)) for k, p in enumerate(parts)]
        labels[0][:2] = [0, 1]
        if len(np.concatenate(parts)) < d + 4:
            return
        if case['pre'] == 1:
            for n in (node, ref):
                for p, l in zip(parts, labels):
                    n.train(front(p), l)
                n.stop_training()
        first = True
        while ref.is_training():
            for p, l in zip(parts, labels):
                ref.train(front(p, adaptive and first), l)
            first = False
            try:
                ref.stop_training()
            except mdp.NodeException:
                return
        mdp.OnlineFlow(fr + [node]).train([(p,) + (None,) * len(fr) + ((l,),) for p, l in zip(parts, labels)])
        check(not node.is_training(), 'terminal node still in training')
        x = parts[0]
        close(gen.sign_align(node.execute(front(x))[:, :1], ref.execute(front(x))[:, :1]), ref.execute(front(x))[:, :1],
              1e-6, 'terminal node with labels', scale=1 + np.abs(ref.execute(front(x))).max())
        ctx.nontrivial(case['pre'] != 1)
        return
    nph = case['nph']
    pre = min(case['pre'], nph - 1)
    node = Total(nph=nph)
    for i in range(pre):
        node.train(parts[0])
        node.stop_training()
    if case['s'] % 3 == 0:
        node.train(front(parts[0]))           # partially trained
    before = [len(r) for r in node.rows]
    f = mdp.OnlineFlow(fr + [node])
    if nph - pre == 1 and case['s'] % 2:
        f.train(iter(parts))                  # an iterator is enough for a single phase
    else:
        f.train(parts)
    check(not node.is_training(), 'terminal node still in training')
    check(node.stopped == list(range(nph)), 'phases closed: %s' % node.stopped)
    for i in range(pre, nph):
        got = np.concatenate(node.rows[i][before[i]:])
        same_out(got, np.concatenate([front(p, adaptive and i == 0) for p in parts]), 'phase %d data' % i)
    for a, b in zip(fr, own):
        x = data(case['s'], 3, d)
        same_out(a.execute(x), b.execute(x), 'node in front after the training')
    ctx.nontrivial(nph - pre > 1)
    if nph - pre > 1:
        node = Total(nph=nph)
        raises((mdp.MDPException,), lambda: mdp.OnlineFlow(fr + [node]).train(iter(parts)), 'an iterator served two phases')


# ------------------------------------------------------------------ 4. containers and compatibility
def mk_any(kind, d, s):
    if kind == 'untrained':
        return Total(input_dim=d)
    if kind == 'wrong':
        return Leaky(input_dim=d + 1)
    if kind == 'nonode':
        return 3
    return build(kind, d, d, s)[0]


COPS = ['append', 'extend', 'insert', 'set', 'setslice', 'del', 'delslice', 'pop', 'add', 'iadd', 'radd', 'addflow', 'iaddflow', 'slice', 'train']
CK = ['leaky', 'fixed', 'center', 'pca', 'stopped', 'untrained', 'wrong', 'nonode']


@sub(st.fixed_dictionaries(dict(
    s=seeds, d=st.integers(1, 3), circ=st.booleans(), out=st.integers(0, 3),
    ops=st.lists(st.tuples(st.sampled_from(COPS), st.sampled_from(CK), st.integers(0, 5), st.integers(0, 3), seeds), min_size=2, max_size=8))),
    quick=150, thorough=4000, rule='a modification was accepted and one was refused')
def containers(case, ctx):
    d = case['d']
    cls = mdp.CircularOnlineFlow if case['circ'] else mdp.OnlineFlow
    cur = [build(k, d, d, case['s'] % 1000 + i)[0] for i, k in enumerate(['leaky', 'fixed', 'center', 'leaky'])]
    flow = cls(list(cur))
    out = 3
    if case['circ']:
        flow.set_output_node(case['out'])
        out = case['out']
    acc = ref = 0

    def ok(lst):
        """None: only the length or position rules decide"""
        if not all(isinstance(n, mdp.Node) for n in lst):
            return False
        if any(n.input_dim == d + 1 for n in lst) and len(lst) > 1:
            return False
        bad = [i for i, n in enumerate(lst) if n.is_training() and not isinstance(n, mdp.OnlineNode)]
        if not bad:
            return True
        if case['circ'] or bad != [len(lst) - 1]:
            return False
        return None
    for op, kind, i, j, s in case['ops']:
        new = mk_any(kind, d, s % 1000)
        i = i % (len(cur) + 1)
        j = min(len(cur), i + j)
        exp, res = None, None
        idx = list(range(len(cur)))
        nidx = list(idx)
        exp = list(cur)
        fresh = False
        if op == 'append':
            act = lambda: flow.append(new)
            exp.append(new)
            nidx.append(None)
        elif op == 'extend':
            if not isinstance(new, mdp.Node):
                continue
            try:
                other = mdp.OnlineFlow([new, build('leaky', d, d, 5)[0]])
            except ALL_EXC:
                continue
            act = lambda: flow.extend(other)
            exp += list(other.flow)
            nidx += [None, None]
        elif op == 'insert':
            act = lambda: flow.insert(i, new)
            exp.insert(i, new)
            nidx.insert(i, None)
        elif op == 'set':
            if i >= len(cur):
                continue

            def act():
                flow[i] = new
            exp[i] = new
            nidx[i] = None
        elif op == 'setslice':
            vals = [new] + ([build('fixed', d, d, 3)[0]] if s % 2 else [])

            def act():
                flow[i:j] = vals
            exp[i:j] = vals
            nidx[i:j] = [None] * len(vals)
        elif op == 'del':
            if i >= len(cur):
                continue

            def act():
                del flow[i]
            del exp[i]
            del nidx[i]
        elif op == 'delslice':
            if j <= i:
                continue

            def act():
                del flow[i:j]
            del exp[i:j]
            del nidx[i:j]
        elif op == 'pop':
            if i >= len(cur):
                continue

            def act():
                check(flow.pop(i) is cur[i], 'popped another node')
            del exp[i]
            del nidx[i]
        elif op in ('add', 'iadd'):
            exp.append(new)
            nidx.append(None)
            fresh = op == 'add'
            if case['circ'] and isinstance(new, mdp.Node) and not isinstance(new, mdp.OnlineNode):
                continue            # only online nodes can be added this way

            def act():
                if op == 'add':
                    return flow + new
                nonlocal_flow[0] += new
            nonlocal_flow = [flow]
        elif op in ('addflow', 'iaddflow'):
            if not isinstance(new, mdp.Node):
                continue
            try:
                other = mdp.OnlineFlow([build('leaky', d, d, 7)[0], new])
            except ALL_EXC:
                continue
            exp += list(other.flow)
            nidx += [None, None]
            fresh = op == 'addflow'
            nonlocal_flow = [flow]

            def act():
                if op == 'addflow':
                    return flow + other
                nonlocal_flow[0] += other
        elif op == 'radd':
            if case['circ'] or not isinstance(new, mdp.OnlineNode) or kind == 'wrong':
                continue
            got = new + flow
            check(isinstance(got, mdp.OnlineFlow) and len(got) == len(cur) + 1, 'node + flow')
            check([type(n) for n in got.flow] == [type(n) for n in [new] + cur], 'node + flow: order')
            continue
        elif op == 'slice':
            if j <= i:
                continue
            got = flow[i:j]
            check(type(got) is cls and all(a is b for a, b in zip(got.flow, cur[i:j])) and len(got) == j - i, 'slice')
            continue
        elif op == 'train':
            if any(not isinstance(n, mdp.OnlineNode) and n.is_training() for n in cur) or any(n.input_dim == d + 1 for n in cur):
                continue
            before = [n.get_current_train_iteration() if n.is_training() else None for n in cur]
            flow.train(data(s, 3, d))
            for n, b in zip(cur, before):
                if b is not None:
                    k = sum(1 for q in cur if q is n)
                    check(n.get_current_train_iteration() == b + 3 * k, 'not every trainable node was trained after a change')
            continue
        if not exp:
            continue
        want = ok(exp)
        try:
            got = act()
            done = True
        except ALL_EXC:
            done = False
        if want is not None:
            check(done == want, '%s with %s: %s' % (op, kind, 'accepted' if done else 'refused'))
        if done:
            acc += 1
            if fresh:
                check(type(got) is cls, 'result is a %s' % type(got))
                check(len(got) == len(exp) and all(a is b for a, b in zip(got, exp)), 'sum has other nodes')
                if case['circ']:
                    check(got.output_node_idx == len(exp) - 1, 'output node of the sum')
            else:
                cur = exp
                if case['circ']:
                    out = nidx.index(out) if out in nidx else len(cur) - 1
        else:
            ref += 1
        check(len(flow) == len(cur) and all(a is b for a, b in zip(flow, cur)), '%s (%s) left other nodes' % (op, 'done' if done else 'refused'))
        if case['circ']:
            check(flow.output_node_idx == out, '%s: output node %s, expected %s' % (op, flow.output_node_idx, out))
            if not any(n.is_training() and not isinstance(n, mdp.OnlineNode) for n in cur):
                x = data(s, 2, cur[0].input_dim, 5)
                if all(n.input_dim == cur[0].input_dim for n in cur):
                    c = [n.copy() for n in cur]
                    same_out(flow.copy()(x), unrolled_ex(c[:out + 1], x), 'execution after %s' % op)
    ctx.nontrivial(acc > 0 and ref > 0)
    ctx.label('circular' if case['circ'] else 'plain')


@sub(st.fixed_dictionaries(dict(
    s=seeds, kinds=st.lists(st.sampled_from(['leaky', 'super', 'fixed']), min_size=1, max_size=4),
    bad=st.sampled_from(['few tuples', 'many tuples', 'few args', 'many args', 'array']))),
    quick=30, thorough=600, rule='a node needs arguments')
def train_args(case, ctx):
    """Missing or surplus arguments are refused."""
    ns = [build(k, 2, 2, 1)[0] for k in case['kinds']]
    flow = mdp.OnlineFlow(ns)
    x = data(case['s'], 2, 2)
    full = [(1., .5) if k == 'super' else None for k in case['kinds']]
    need = 'super' in case['kinds']
    bad = case['bad']
    if bad == 'few tuples':
        item = (x,) + tuple(full[:-1])
        if len(full) == 1:
            item = (x,)
    elif bad == 'many tuples':
        item = (x,) + tuple(full) + (None,)
    elif bad == 'array':
        item = x
    else:
        item = (x,) + tuple((a if a is None else (a[:1] if bad == 'few args' else a + (2.,))) for a in full)
    if bad in ('few tuples', 'many tuples') or need:
        raises((mdp.MDPException, TypeError, IndexError), lambda: flow.train([item]), 'arguments %s accepted' % bad)
    else:
        flow.train([item])
    ctx.nontrivial(need)


# ------------------------------------------------------------------ 5. circular flows
CIRC = ['leaky', 'phases', 'fixed', 'center', 'ema', 'pca', 'stopped', 'tdiff', 'bleaky']
CIOPS = ['train', 'train', 'train', 'input', 'output', 'iters', 'ignore', 'stored', 'ex', 'inv', 'reset', 'copy', 'bad', 'ins', 'del']


class Ring(object):
    def __init__(self, ns):
        self.ns, self.out, self.iters, self.ign, self.stored = ns, len(ns) - 1, 1, False, None

    def step(self, x):
        if self.ign:
            x = self.stored
        for _ in range(self.iters):
            for n in self.ns:
                if n.is_training():
                    n.train(np.array(x))
                x = n.execute(np.array(x))
            self.stored = np.array(x)

    def ex(self, x):
        return unrolled_ex(self.ns[:self.out + 1], x)

    def inv(self, y):
        for n in self.ns[:self.out + 1][::-1]:
            y = n.inverse(y)
        return y


@sub(st.fixed_dictionaries(dict(
    s=seeds, d=st.integers(1, 3), o=st.integers(1, 3), unknown=st.booleans(),
    kinds=st.lists(st.tuples(st.sampled_from(CIRC), seeds), min_size=1, max_size=7), wide=st.booleans(), allinv=st.booleans(),
    ops=st.lists(st.tuples(st.sampled_from(CIOPS), st.integers(0, 9), st.integers(1, 3), seeds), min_size=3, max_size=12))),
    quick=150, thorough=4000, rule='trained with several iterations, a stored input or a moved input or output node')
def circular(case, ctx):
    d, o = case['d'], case['o']

    def mk():
        res = []
        for k, s in case['kinds']:
            if case['allinv']:
                k = {'phases': 'center', 'fixed': 'ema', 'tdiff': 'pca'}.get(k, k)
            res.append(build(k.replace('bl', 'l'), d, d, s % 1000, k == 'bleaky')[0])
        if case['wide']:
            res.append(build('mixer', d, o, 3)[0])
            res.append(build('leaky', o, o, 4)[0])
            res.append(build('fixed', o, d, 5)[0])
        elif case['unknown']:
            res[0] = nodes.OnlineCenteringNode()
        return res
    flow = mdp.CircularOnlineFlow(mk())
    ring = Ring(mk())
    changed = trained = 0
    for op, i, k, s in case['ops']:
        din = ring.ns[0].input_dim or d
        i = i % len(ring.ns)
        if op == 'train':
            if ring.ign and ring.stored is None:
                if s % 3 == 0:
                    raises(ALL_EXC, lambda: flow.train(data(s, k, din)), 'trained without any input')
                    return
                continue
            if ring.ign and ring.stored.shape[1] != din:
                continue           # the ring was turned or stored input of another node
            chunks = [1 + (s >> q) % 3 for q in range(k)]
            arg, items = feed(['2d', '3d', 'list', 'iter'][s % 4], s, din, chunks, ring.ns)
            if ring.iters > 1 and ring.ns[-1].output_dim not in (None, din):
                continue
            flow.train(arg)
            for x, _ in items:
                ring.step(x)
            trained += 1
            changed += ring.iters > 1 or ring.ign or ring.out != len(ring.ns) - 1
        elif op == 'input':
            flow.set_input_node(i)
            out = ring.ns[ring.out]
            ring.ns = ring.ns[i:] + ring.ns[:i]
            ring.out = [q for q, n in enumerate(ring.ns) if n is out][0]
        elif op == 'output':
            flow.set_output_node(i)
            ring.out = i
        elif op == 'reset':
            flow.reset_output_node()
            ring.out = len(ring.ns) - 1
        elif op == 'iters':
            flow.set_flow_iterations(k)
            ring.iters = k
        elif op == 'ignore':
            flow.ignore_input(bool(s % 2))
            ring.ign = bool(s % 2)
        elif op == 'stored':
            x = data(s, k, din)
            flow.set_stored_input(x)
            ring.stored = x.copy()
            same_out(flow.get_stored_input(), x, 'stored input')
            if ring.ns[0].input_dim is not None:
                raises(ALL_EXC, lambda: flow.set_stored_input(data(s, k, din + 1)), 'stored input of a wrong size')
        elif op in ('ex', 'inv'):
            if not trained:
                continue
            x = data(s, k, din)
            y = ring.ex(x)
            same_out(flow(x), y, 'execution up to node %d' % ring.out)
            same_out(flow([x, x[:1]]), np.concatenate([y, ring.ex(x[:1])]), 'execution of pieces')
            if (op == 'inv' or case['allinv']) and all(n.is_invertible() for n in ring.ns):
                ctx.label('inverse')
                same_out(flow.inverse(y), ring.inv(y), 'inverse from node %d' % ring.out)
        elif op == 'copy':
            old, flow = flow, flow.copy()
            if ring.ns[0].input_dim and not ring.ign and ring.iters == 1:
                old.train(data(s, 2, ring.ns[0].input_dim))
        elif op == 'bad':
            n = len(ring.ns)
            for f in (flow.set_input_node, flow.set_output_node):
                raises(ALL_EXC, lambda: f(n + s % 3), 'node index behind the end accepted')
                raises(ALL_EXC, lambda: f(-1 - s % 3), 'negative node index accepted')
        elif op in ('ins', 'del') and not case['wide'] and not case['unknown']:
            idx = list(range(len(ring.ns)))
            if op == 'ins':
                flow.insert(i, build('leaky', d, d, s % 1000)[0])
                ring.ns.insert(i, build('leaky', d, d, s % 1000)[0])
                idx.insert(i, None)
            elif len(ring.ns) > 1:
                del flow[i]
                del ring.ns[i]
                del idx[i]
            ring.out = idx.index(ring.out) if ring.out in idx else len(ring.ns) - 1
        check(len(flow) == len(ring.ns), 'number of nodes')
        check(flow.output_node_idx == ring.out, 'after %s: output node %s, expected %s' % (op, flow.output_node_idx, ring.out))
        for q, (a, b) in enumerate(zip(flow, ring.ns)):
            same_leaf(a, b, 'after %s: node %d of the ring' % (op, q))
        if ring.stored is None:
            check(flow.get_stored_input() is None, 'stored input appeared')
        else:
            same_out(flow.get_stored_input(), ring.stored, 'after %s: stored input' % op)
    ctx.nontrivial(changed > 0)
    ctx.label('wide' if case['wide'] else 'square')


# ------------------------------------------------------------------ 6. composites
class RLeaf(object):
    def __init__(self, node):
        self.node = node
        self.trainable = node.is_training()

    def batch(self):
        return isinstance(self.node, mdp.OnlineNode) and self.node.training_type == 'batch'

    def train(self, x, *a):
        if self.node.is_training():
            self.node.train(np.array(x), *a)

    def ex(self, x):
        return np.array(self.node.execute(np.array(x)))

    def inv(self, y):
        return np.array(self.node.inverse(np.array(y)))

    def stop(self):
        if self.node.is_training():
            self.node.stop_training()

    def leaves(self):
        return [self.node]

    def invertible(self):
        return self.node.is_invertible()


class RComp(object):
    def __init__(self, kids, mode=None):
        self.kids = kids
        self.trainable = any(k.trainable for k in kids)
        self.mode = mode or ('batch' if any(k.batch() for k in kids) else None)

    def batch(self):
        return self.mode == 'batch'

    def chunks(self, x):
        return [x] if self.mode == 'batch' else [x[i:i + 1] for i in range(len(x))]

    def train(self, x, *a):
        if not self.trainable:
            return
        for c in self.chunks(x):
            self.one(c, *a)

    def stop(self):
        for k in self.kids:
            k.stop()

    def leaves(self):
        res = []
        for k in self.kids:
            for n in k.leaves():
                if not any(n is q for q in res):
                    res.append(n)
        return res

    def invertible(self):
        return all(k.invertible() for k in self.kids)


class RSeq(RComp):
    def one(self, x, *a):
        for k in self.kids:
            k.train(x, *a)
            x = k.ex(x)

    def ex(self, x):
        for k in self.kids:
            x = k.ex(x)
        return x

    def inv(self, y):
        for k in self.kids[::-1]:
            y = k.inv(y)
        return y


class RRing(RComp):
    def __init__(self, kids, mode, out, iters, ign, stored):
        RComp.__init__(self, kids, mode)
        self.out, self.iters, self.ign, self.stored = out, iters, ign, stored

    def one(self, x, *a):
        if self.ign:
            x = self.stored
        for _ in range(self.iters):
            for k in self.kids:
                k.train(x)
                x = k.ex(x)
        self.stored = x

    def ex(self, x):
        for k in self.kids[:self.out + 1]:
            x = k.ex(x)
        return x

    def inv(self, y):
        for k in self.kids[:self.out + 1][::-1]:
            y = k.inv(y)
        return y


class RPar(RComp):
    def __init__(self, kids, same, ins, outs, mode=None):
        RComp.__init__(self, kids, mode)
        self.same, self.ins, self.outs = same, ins, outs

    def parts(self, x, w):
        i = 0
        res = []
        for k in w:
            res.append(x[:, i:i + k])
            i += k
        return res

    def inp(self, x):
        return [x] * len(self.kids) if self.same else self.parts(x, self.ins)

    def one(self, x, *a):
        for k, p in zip(self.kids, self.inp(x)):
            k.train(p, *a)

    def ex(self, x):
        return np.concatenate([k.ex(p) for k, p in zip(self.kids, self.inp(x))], axis=1)

    def inv(self, y):
        return np.concatenate([k.inv(p) for k, p in zip(self.kids, self.parts(y, self.outs))], axis=1)

    def invertible(self):
        return not self.same and all(k.invertible() for k in self.kids)


LEAFK = ['noisy'] * 4 + ['leaky', 'phases', 'fixed', 'center', 'ema', 'tdiff', 'pca', 'stopped', 'mixer', 'ccipca']
leaf_st = st and st.tuples(st.just('leaf'), st.sampled_from(LEAFK), st.integers(1, 3), seeds, st.sampled_from([False, False, True]))
tree_st = st and st.recursive(
    leaf_st,
    lambda kids: st.tuples(st.sampled_from(['seq', 'seq', 'ring', 'layer', 'same', 'clone']), st.lists(kids, min_size=1, max_size=3), seeds, st.booleans()),
    max_leaves=6)


def grow(t, d, twice):
    """Build [real, reference node] for input dimension d -> (real, ref, output dim)"""
    if t[0] == 'leaf':
        _, kind, o, s, b = t
        n, out = build(kind, d, o, s % 1000, b)
        m, _ = build(kind, d, o, s % 1000, b)
        return n, RLeaf(m), out
    kind, kids, s, forced = t
    rng = rng_of(s)
    if kind in ('seq', 'ring'):
        real, ref = [], []
        cur = d
        for k in kids:
            a, b, cur = grow(k, cur, twice)
            real.append(a)
            ref.append(b)
        if kind == 'seq':
            node = hinet.OnlineFlowNode(mdp.OnlineFlow(real), numx_rng=rng)
            r = RSeq(ref)
        else:
            if cur != d:
                a, _ = build('fixed', cur, d, s % 1000)
                b, _ = build('fixed', cur, d, s % 1000)
                real.append(a)
                ref.append(RLeaf(b))
            f = mdp.CircularOnlineFlow(real)
            out = s % len(real)
            f.set_output_node(out)
            f.set_flow_iterations(1 + s % 3)
            f.ignore_input(s % 5 == 0)
            stored = None
            if s % 5 == 0:
                stored = data(s, 2, d)
                f.set_stored_input(stored.copy())
            cur = real[out].output_dim
            node = hinet.CircularOnlineFlowNode(f, numx_rng=rng)
            r = RRing(ref, None, out, 1 + s % 3, s % 5 == 0, stored)
    else:
        kids = kids[:1] if kind == 'clone' else kids
        if kind == 'clone':
            reps = 1 + s % 3
            # the widths have to be equal
            w = d // reps if d % reps == 0 else d
            reps = d // w
            a, b, o = grow(kids[0], w, twice)
            node = hinet.CloneOnlineLayer(a, reps, numx_rng=rng)
            r = RPar([b] * reps, False, [w] * reps, [o] * reps)
            cur = o * reps
        else:
            if kind == 'same':
                ins = [d] * len(kids)
            else:
                kids = kids[:d]
                ins = [1] * (len(kids) - 1) + [d - len(kids) + 1]
            real, ref, outs = [], [], []
            for k, w in zip(kids, ins):
                a, b, o = grow(k, w, twice)
                real.append(a)
                ref.append(b)
                outs.append(o)
            cls = hinet.SameInputOnlineLayer if kind == 'same' else hinet.OnlineLayer
            node = cls(real, numx_rng=rng)
            r = RPar(ref, kind == 'same', ins, outs)
            cur = sum(outs)
    check(node.training_type == r.mode, '%s: training type %s inferred, expected %s' % (kind, node.training_type, r.mode))
    if r.mode == 'batch':
        raises(ALL_EXC, lambda: node.set_training_type('incremental'), 'an inferred training type was changed')
        node.set_training_type('batch')      # the same one is no change
    elif forced:
        node.set_training_type('batch')
        r.mode = 'batch'
    for n in (node.flow if isinstance(node, hinet.FlowNode) else node.nodes):
        if isinstance(n, mdp.OnlineNode):
            check(n.numx_rng is rng, 'the generator is not shared with the inner nodes')
    return node, r, cur


TOPS = ['train', 'train', 'train', 'ex', 'inv', 'stop', 'copy']


def all_leaves(node):
    if isinstance(node, hinet.FlowNode):
        kids = list(node.flow)
    elif hasattr(node, 'nodes'):
        kids = list(node.nodes)
    else:
        return [node]
    res = []
    for k in kids:
        for n in all_leaves(k):
            if not any(n is q for q in res):
                res.append(n)
    return res


@sub(st.fixed_dictionaries(dict(
    s=seeds, d=st.integers(1, 4), t=tree_st, inflow=st.booleans(),
    ops=st.lists(st.tuples(st.sampled_from(TOPS), st.integers(1, 4), seeds), min_size=2, max_size=8))),
    quick=800, thorough=5000, rule='composite with trainable nodes, trained with several rows')
def composites(case, ctx):
    d = case['d']
    t = case['t']
    if t[0] == 'leaf':
        t = ('seq', [t], case['s'], False)
    node, ref, out = grow(t, d, True)
    shared = rng_of(t[2])
    for n in ref.leaves():
        if isinstance(n, mdp.OnlineNode):
            n.set_numx_rng(shared)
    multi = False
    started = not ref.trainable
    stopped = not ref.trainable
    check(node.is_trainable() == ref.trainable, 'is_trainable %s, expected %s' % (node.is_trainable(), ref.trainable))
    count = 0
    for op, k, s in case['ops']:
        x = data(s, k, d)
        if op == 'train':
            if stopped:
                raises((mdp.TrainingFinishedException, mdp.IsNotTrainableException), lambda: node.train(x), 'trained after the end of the training')
                continue
            if case['inflow'] and ref.trainable:
                mdp.OnlineFlow([node]).train([x])
            else:
                node.train(x)
            ref.train(x)
            started = True
            count += k
            multi = multi or k > 1
            check(node.get_current_train_iteration() == count, 'sample count %d, expected %d' % (node.get_current_train_iteration(), count))
        elif op == 'ex':
            if not started:
                ref.train(x)
                started = True
                count += k
            same_out(node.execute(x), ref.ex(x), 'execution')
            check(node.output_dim == out, 'output dimension %s, expected %s' % (node.output_dim, out))
        elif op == 'inv' and started:
            if node.is_invertible() and ref.invertible() and ref.trainable:
                y = ref.ex(x)
                same_out(node.inverse(y), ref.inv(y), 'inverse')
        elif op == 'stop':
            if stopped:
                continue
            if not started:
                raises((mdp.TrainingException,), node.stop_training, 'stopped before any training')
                continue
            node.stop_training()
            ref.stop()
            stopped = True
            check(not node.is_training(), 'still in training')
        elif op == 'copy':
            if isinstance(ref, RRing):
                other = node.copy()
                before = list(other.flow)
                other.flow.set_input_node(k % len(before))
                j = k % len(before)
                check([id(q) for q in other.flow] == [id(q) for q in before[j:] + before[:j]], 'order of the ring of a copy after set_input_node')
            node = node.copy()
        check(node.is_training() == (not stopped), 'is_training')
        la, lb = all_leaves(node), ref.leaves()
        check(len(la) == len(lb), 'number of leaves')
        for q, (a, b) in enumerate(zip(la, lb)):
            same_leaf(a, b, 'after %s: leaf %d' % (op, q))
        if isinstance(ref, RRing) and started and ref.trainable:
            same_out(node.get_stored_input(), ref.stored, 'stored input')
    ctx.nontrivial(ref.trainable and multi)
    ctx.label(t[0])


@sub(st.fixed_dictionaries(dict(
    s=seeds, kind=st.sampled_from(['layer', 'same', 'clone', 'flow']), k=st.integers(1, 3), d=st.integers(1, 3), batch=st.booleans(),
    chunks=st.lists(st.integers(1, 4), min_size=1, max_size=4))),
    quick=40, thorough=800, rule='several samples in a chunk')
def forwarded_args(case, ctx):
    """Additional arguments reach every inner node with every sample."""
    kind, d, k = case['kind'], case['d'], case['k']
    ns = [build('super', d, d, i, case['batch'])[0] for i in range(1 if kind == 'clone' else k)]
    ref = [build('super', d, d, i, case['batch'])[0] for i in range(len(ns))]
    r = rng_of(case['s'])
    node = {'layer': lambda: hinet.OnlineLayer(ns, numx_rng=r), 'same': lambda: hinet.SameInputOnlineLayer(ns, numx_rng=r),
            'clone': lambda: hinet.CloneOnlineLayer(ns[0], k, numx_rng=r),
            'flow': lambda: hinet.OnlineFlowNode(mdp.OnlineFlow(ns), numx_rng=r)}[kind]()
    w = d * k if kind in ('layer', 'clone') else d
    for q, c in enumerate(case['chunks']):
        x = data(case['s'], c, w, q)
        lab, g = float(q), .3 * q - .5
        if q % 2:
            node.train(x, lab, gain=g)
        else:
            node.train(x, lab, g)
        for blk in ([x] if case['batch'] else [x[i:i + 1] for i in range(len(x))]):
            if kind == 'flow':
                for n in ref:
                    n.train(blk, lab, g)
                    blk = n.execute(blk)
            elif kind == 'same':
                for n in ref:
                    n.train(blk, lab, g)
            else:
                for i in range(k):
                    ref[0 if kind == 'clone' else i].train(blk[:, i * d:(i + 1) * d], lab, g)
    for a, b in zip(ns, ref):
        same_leaf(a, b, 'inner node')
    ctx.nontrivial(max(case['chunks']) > 1)


@sub(st.fixed_dictionaries(dict(s=seeds, d=st.integers(1, 3), bad=st.sampled_from(['untrained', 'nonode', 'half']),
                                kind=st.sampled_from(['flow', 'circ', 'layer', 'same', 'clone', 'fnode', 'cnode', 'plainflow']))),
     quick=40, thorough=400, rule='always')
def refusals(case, ctx):
    """Nodes that can only be trained as a whole are not accepted where streams are processed."""
    d = case['d']
    ok = build('leaky', d, d, 1)[0]
    bad = {'untrained': lambda: Total(input_dim=d, output_dim=d), 'nonode': lambda: 'node', 'half': lambda: Total(nph=2, input_dim=d, output_dim=d)}[case['bad']]()
    if case['bad'] == 'half':
        bad.train(data(1, 3, d))
        bad.stop_training()
    kind = case['kind']
    if kind == 'flow':
        f = lambda: mdp.OnlineFlow([bad, ok])
    elif kind == 'circ':
        f = lambda: mdp.CircularOnlineFlow([ok, bad])
    elif kind == 'layer':
        f = lambda: hinet.OnlineLayer([ok, bad])
    elif kind == 'same':
        f = lambda: hinet.SameInputOnlineLayer([bad, ok])
    elif kind == 'clone':
        f = lambda: hinet.CloneOnlineLayer(bad, 2)
    elif kind == 'fnode':
        f = lambda: hinet.OnlineFlowNode(mdp.OnlineFlow([ok, bad]))
    elif kind == 'cnode':
        f = lambda: hinet.CircularOnlineFlowNode(mdp.OnlineFlow([ok]))
    else:
        f = lambda: hinet.OnlineFlowNode(mdp.Flow([ok]))
    raises(ALL_EXC, f, '%s accepted a %s node' % (kind, case['bad']))
    ctx.nontrivial()
    # the sum of nodes is an online flow only if both are online nodes
    a, b = build('leaky', d, d, 1)[0], build('fixed', d, d, 2)[0]
    check(type(a + build('center', d, d, 1)[0]) is mdp.OnlineFlow, 'online + online')
    check(type(a + b) is mdp.Flow, 'online + ordinary node')
