"""Parallel training and execution equal the serial result."""
import pickle
import numpy as np
import mdp
import mdp.parallel as par
from mdp import nodes, hinet
from lib.harness import sub, check, close, st, raises, Violation
from lib import gen
from lib.gen import seeds, rs, reseed
from lib.nodetab import TAB, Cfg, Entry
from lib.parnodes import CountNode, SumNode, RecSum, BadTrain, EnvNode
from lib.flowzoo import (ZOO, Part, parts, signal, manual_train, RecBase, SRC, source, mkdata, gener)


def sgn(a, b):
    return gen.sign_align(a, b)


# ------------------------------------------------------------------ nodes that can be forked
def labels(x, salt):
    return [np.arange(len(x)) % 3]


def labels6(x, salt):
    return [(np.arange(len(x)) * 5 + salt) % 6]


def _lay(seed, d, new, targs=None):
    return Cfg(new, d, lambda n, salt: rs(seed, salt, 3).normal(size=(n, d)).dot(gen.rot(rs(seed, 5), d)) * (1 + np.arange(d)) + rs(seed, 8).normal(size=d), targs)


def comp(name, build, **kw):
    return Entry(name, build, **kw)


COMP = {
    'Layer': comp('Layer', lambda rng, d, seed: _lay(seed, 5, lambda: hinet.Layer([nodes.PCANode(input_dim=3), nodes.SFANode(input_dim=2)]))),
    'Layer3': comp('Layer3', lambda rng, d, seed: _lay(seed, 6, lambda: hinet.Layer([nodes.FDANode(input_dim=2, output_dim=1), nodes.IdentityNode(input_dim=2),
                                                                                    nodes.FDANode(input_dim=2, output_dim=2)]), labels), phases=2),
    'CloneLayer': comp('CloneLayer', lambda rng, d, seed: _lay(seed, 6, lambda: hinet.CloneLayer(nodes.SFANode(input_dim=2), n_nodes=3))),
    'CloneLayer2': comp('CloneLayer2', lambda rng, d, seed: _lay(seed, 4, lambda: hinet.CloneLayer(hinet.FlowNode(mdp.Flow([nodes.PCANode(input_dim=2), nodes.QuadraticExpansionNode(), nodes.SFANode()])), n_nodes=2)), phases=2),
    'SameInputLayer': comp('SameInputLayer', lambda rng, d, seed: _lay(seed, 3, lambda: hinet.SameInputLayer([nodes.PCANode(input_dim=3, output_dim=2), nodes.SFANode(input_dim=3), nodes.WhiteningNode(input_dim=3)]))),
    'FlowNode': comp('FlowNode', lambda rng, d, seed: _lay(seed, 3, lambda: hinet.FlowNode(mdp.Flow([nodes.PCANode(output_dim=2), nodes.QuadraticExpansionNode(), nodes.SFANode(output_dim=3)]))), phases=2),
    'FlowNodeFDA': comp('FlowNodeFDA', lambda rng, d, seed: _lay(seed, 3, lambda: hinet.FlowNode(mdp.Flow([nodes.FDANode(output_dim=2), nodes.GaussianClassifier()])), labels), phases=3),
    'LayerFlow': comp('LayerFlow', lambda rng, d, seed: _lay(seed, 5, lambda: hinet.Layer([hinet.FlowNode(mdp.Flow([nodes.PCANode(input_dim=3), nodes.SFANode(input_dim=3)])), hinet.FlowNode(mdp.Flow([nodes.SFANode(input_dim=2), nodes.SFANode(input_dim=2)]))])), phases=2),
    'FDA6': comp('FDA6', lambda rng, d, seed: _lay(seed, 4, lambda: nodes.FDANode(output_dim=3), labels6), phases=2),
    'Mean6': comp('Mean6', lambda rng, d, seed: _lay(seed, 3, lambda: nodes.NearestMeanClassifier(), labels6)),
    'Gauss6': comp('Gauss6', lambda rng, d, seed: _lay(seed, 2, lambda: nodes.GaussianClassifier(), labels6)),
    'KNN6': comp('KNN6', lambda rng, d, seed: _lay(seed, 2, lambda: nodes.KNNClassifier(k=2), labels6)),
    'CloneLayer6': comp('CloneLayer6', lambda rng, d, seed: _lay(seed, 12, lambda: hinet.CloneLayer(nodes.SFANode(input_dim=2), n_nodes=6))),
    'Layer7': comp('Layer7', lambda rng, d, seed: _lay(seed, 14, lambda: hinet.Layer([(nodes.PCANode, nodes.SFANode, nodes.WhiteningNode)[(seed + i) % 3](input_dim=2) for i in range(7)]))),
    'FlowLong': comp('FlowLong', lambda rng, d, seed: _lay(seed, 3, lambda: hinet.FlowNode(mdp.Flow([SumNode(1), nodes.IdentityNode(), SumNode(2), nodes.IdentityNode(), SumNode(1), nodes.PCANode(), SumNode(2)]))), phases=7),
    'SumNode': comp('SumNode', lambda rng, d, seed: _lay(seed, 3, lambda: SumNode(3)), phases=3),
    'FlowSum': comp('FlowSum', lambda rng, d, seed: _lay(seed, 3, lambda: hinet.FlowNode(mdp.Flow([SumNode(2), nodes.PCANode(), SumNode(2)]))), phases=5),
    'PCAopts': comp('PCAopts', lambda rng, d, seed: _lay(seed, 4, lambda: nodes.PCANode(output_dim=0.9, svd=True, reduce=True))),
    'SFAopts': comp('SFAopts', lambda rng, d, seed: _lay(seed, 4, lambda: nodes.SFANode(output_dim=2, include_last_sample=False, rank_deficit_method='pca'))),
    'SFA2opts': comp('SFA2opts', lambda rng, d, seed: _lay(seed, 3, lambda: nodes.SFA2Node(output_dim=3, include_last_sample=False))),
    'KNNopts': comp('KNNopts', lambda rng, d, seed: _lay(seed, 3, lambda: nodes.KNNClassifier(k=3), labels)),
    'HistOpts': comp('HistOpts', lambda rng, d, seed: _lay(seed, 3, lambda: nodes.AdaptiveCutoffNode(0.1, 0.2))),
}


def forkable():
    """Entries of the table with parallel support, and the composites."""
    res = dict(COMP)
    with mdp.extension('parallel'):
        for n, e in TAB.items():
            if not e.trainable or e.rng_train or e.stochastic:
                continue
            try:
                e.cfg(3).new().fork()
            except par.NotForkableParallelException:
                continue
            res[n] = e
    return res


FORK = None


def table():
    global FORK
    if FORK is None:
        FORK = forkable()
    return FORK


def state(o, depth=0):
    """Numbers in a node, for detecting changes."""
    if isinstance(o, np.ndarray):
        return (o.shape, o.dtype.str, o.tobytes() if o.dtype != object else str(o))
    if isinstance(o, dict):
        return sorted((str(k), state(v, depth + 1)) for k, v in o.items())
    if isinstance(o, (list, tuple)):
        return [state(v, depth + 1) for v in o]
    if isinstance(o, (int, float, str, bool, type(None), np.number)):
        return o
    if hasattr(o, '__dict__') and depth < 6:
        return sorted((k, str(state(v, depth + 1))) for k, v in vars(o).items() if k != '_train_seq')
    return str(type(o))


names = st.integers(0, 59)


def outs(cfg, e, nd, xs):
    r = []
    for x in xs:
        r += cfg.outputs(nd, x)
    return r


def compare(got, want, e, what):
    check(len(got) == len(want), "%s: number of outputs", what)
    for g, w in zip(got, want):
        g, w = np.asarray(g), np.asarray(w)
        if w.dtype.kind in 'iufc' and w.ndim == 2 and g.shape == w.shape:
            g = sgn(g, w)
        close(g, w, max(e.tol, 1e-6), what)


@sub(st.fixed_dictionaries({'name': names, 'seed': seeds, 'k': st.integers(1, 4), 'nchunks': st.integers(1, 6), 'assign': st.lists(st.integers(0, 4), min_size=6, max_size=6),
                            'order': seeds, 'refork': st.booleans(), 'pickled': st.booleans(), 'preset': st.booleans()}),
     quick=700, thorough=20000, shards=8, rule="at least two forks received data")
def forks(case, ctx):
    """Any assignment of chunks to forks (0 is the node itself), forks trained in turns, joined in any order."""
    T = table()
    name = sorted(T)[case['name'] % len(T)]
    e = T[name]
    ctx.label(name)
    cfg = e.cfg(case['seed'])
    n = max(e.n, 60)
    x = cfg.data(n, 0)
    targs = cfg.targs(x, 0)
    mn = max(e.min_chunk, 12)
    sizes = gen.cuts(rs(case['seed'], 9), n, case['nchunks'], mn)
    pieces = []
    i = 0
    for s in sizes:
        pieces.append((x[i:i + s], [t[i:i + s] if isinstance(t, (np.ndarray, list)) and len(t) == n else t for t in targs]))
        i += s
    used = 0
    with mdp.extension('parallel'):
        try:
            ref = e.train(cfg.new(), cfg, x.copy(), targs=targs, sizes=sizes)
        except Exception:
            ctx.label('serial failure')
            return
        node = cfg.new()
        if case.get('preset') and node.input_dim is None:
            # dimension known, type still open
            node.input_dim = x.shape[1]
        ph = 0
        while node.is_training():
            assign = [(case['assign'][(j + ph) % 6]) % (case['k'] + 1) for j in range(len(pieces))]
            fs = {}
            for j, (c, a) in enumerate(pieces):
                w = assign[j]
                if w == 0:
                    node.train(c.copy(), *a)
                    continue
                if w not in fs:
                    src = node
                    if case['refork'] and fs:
                        # a fork of a fork
                        src = fs[sorted(fs)[0]]
                    fs[w] = src.fork()
                    check(type(fs[w]) is type(node), "class of the fork: %s", type(fs[w]).__name__)
                    check(fs[w] is not node, "fork returns the node itself")
                # (composites share finished nodes, which may note their dimensions)
                simple = not isinstance(node, (hinet.Layer, hinet.FlowNode))
                snap = {v: state(f) for v, f in fs.items() if v != w} if simple else {}
                snap0 = state(node) if simple else None
                fs[w].train(c.copy(), *a)
                if simple:
                    check(state(node) == snap0, "training a fork changes the original")
                    for v in snap:
                        check(state(fs[v]) == snap[v], "training a fork changes another fork")
            order = [sorted(fs)[q] for q in rs(case['order'], ph).permutation(len(fs))]
            for w in order:
                f = fs[w]
                if case['pickled']:
                    f = pickle.loads(pickle.dumps(f, -1))
                node.join(f)
            used = max(used, len(set(assign)))
            node.stop_training()
            ph += 1
            check(ph <= 10, "training does not end")
        check((node.input_dim, node.output_dim, str(node.dtype)) == (ref.input_dim, ref.output_dim, str(ref.dtype)), "dimensions and type %s instead of %s"
              % ((node.input_dim, node.output_dim, node.dtype), (ref.input_dim, ref.output_dim, ref.dtype)))
        y = cfg.data(15, 1)
        got, want = cfg.outputs(node, y), cfg.outputs(ref, y)
        # a node knows its samples
        got += cfg.outputs(node, x[:20])
        want += cfg.outputs(ref, x[:20])
        compare(got, want, e, name)
        if ref.is_invertible() and not isinstance(ref, (hinet.Layer, hinet.FlowNode)):
            z = np.array(ref.execute(y))
            s = np.sign((np.array(node.execute(y)) * z).sum(axis=0))
            s[s == 0] = 1
            close(node.inverse(z * s), ref.inverse(z), 1e-6, name + " inverse")
        for at in ('avg', 'd', 'tlen', 'explained_variance', 'total_variance', 'mean'):
            if hasattr(ref, at) and isinstance(getattr(ref, at), (int, float, np.ndarray, np.number)):
                a, b = getattr(node, at), getattr(ref, at)
                close(np.asarray(a), np.asarray(b), 1e-7, "%s.%s" % (name, at))
    ctx.nontrivial(used > 1)


# ------------------------------------------------------------------ flows
def z_sum(d, rng, **kw):
    ph = rng.randint(1, 4)
    loc = [i for i in range(ph) if rng.rand() < 0.3]
    return (lambda: SumNode(ph, loc)), [], ph, d, False


def z_count(d, rng):
    return (lambda: CountNode()), None, 0, d, False


def z_gauss(d, rng):
    return (lambda: nodes.GaussianClassifier()), ['lab'], 1, d, False


def z_knn(d, rng):
    return (lambda: nodes.KNNClassifier()), ['lab'], 1, d, False


def z_clone(d, rng):
    if d % 2:
        return ZOO['pca'](d, rng)
    return (lambda: hinet.CloneLayer(nodes.PCANode(input_dim=d // 2), n_nodes=2)), [], 1, d, False


def z_same(d, rng):
    return (lambda: hinet.SameInputLayer([nodes.PCANode(input_dim=d, output_dim=1), nodes.SFANode(input_dim=d, output_dim=1)])), [], 1, 2, False


def z_mixflow(d, rng):
    g = int(rng.randint(1, 3))
    return (lambda: hinet.FlowNode(mdp.Flow([RecSum(g), nodes.PCANode(input_dim=d)]))), [], 1 + g, d, False


def z_laycount(d, rng):
    k = rng.randint(3)
    g = d // 2
    if k == 0 or g == 0 or d - g == 0:
        return (lambda: hinet.Layer([CountNode(input_dim=d)])), None, 0, d, False
    if k == 1:
        j = rng.randint(4)
        if j == 0:
            return (lambda: hinet.Layer([CountNode(input_dim=g), nodes.PCANode(input_dim=d - g)])), [], 1, d, False
        if j == 1:
            return (lambda: hinet.Layer([nodes.PCANode(input_dim=g), CountNode(input_dim=d - g)])), [], 1, d, False
        if j == 2:
            return (lambda: hinet.Layer([CountNode(input_dim=1) for _ in range(d)])), None, 0, d, False
        return (lambda: hinet.SameInputLayer([nodes.IdentityNode(input_dim=d), CountNode(input_dim=d)])), None, 0, 2 * d, False
    return (lambda: hinet.CloneLayer(CountNode(input_dim=g), n_nodes=2)) if d % 2 == 0 else (lambda: hinet.FlowNode(mdp.Flow([CountNode(), nodes.IdentityNode()]))), None, 0, d, False


def counters(nds):
    res = []
    for n in nds:
        if isinstance(n, CountNode):
            res.append(n)
        elif isinstance(n, hinet.CloneLayer):
            res += counters([n.node])
        elif isinstance(n, hinet.Layer):
            res += counters(n.nodes)
        elif isinstance(n, hinet.FlowNode):
            res += counters(n.flow)
    return res


MORE = {'laycount': z_laycount, 'sum': z_sum, 'count': z_count, 'gauss': z_gauss, 'knn': z_knn, 'clone': z_clone, 'same': z_same, 'mixflow': z_mixflow}
KINDS = ['rec', 'affine', 'pca', 'pca', 'white', 'norm', 'sfa', 'quad', 'id', 'fda', 'reg', 'cls', 'switch', 'layer', 'flownode', 'hist', 'sum', 'sum', 'count', 'gauss', 'knn',
         'clone', 'same', 'mixflow', 'sfa', 'frames', 'laycount', 'affine']


def mkparts(kinds, d, seed):
    old = dict(ZOO)
    ZOO.update(MORE)
    try:
        return parts(kinds, d, seed)
    finally:
        ZOO.clear()
        ZOO.update(old)


class Shuffle(par.Scheduler):
    """Runs the tasks of a collection in a random order on some simulated workers, with
    cached and pickled callables as a process scheduler would."""

    def __init__(self, seed, pickled=False, workers=1, **kw):
        super(Shuffle, self).__init__(**kw)
        self.rng = rs(seed, 31)
        self.pickled = pickled
        self.todo = []
        self.down = 0
        self.tasks = 0

    def _process_task(self, data, task_callable, task_index):
        self.todo.append((data, task_callable, task_index))
        self.tasks += 1
        self._lock.release()

    def get_results(self):
        todo, self.todo = self.todo, []
        done = []
        for k in self.rng.permutation(len(todo)):
            data, c, i = todo[k]
            if self.pickled:
                c = pickle.loads(pickle.dumps(c, -1))
                data = pickle.loads(pickle.dumps(data, -1))
            r = c.fork()(data)
            if self.pickled:
                r = pickle.loads(pickle.dumps(r, -1))
            done.append((r, i))
        for k in self.rng.permutation(len(done)):
            self._store_result(*done[k])
        return super(Shuffle, self).get_results()

    def _shutdown(self):
        self.down += 1


class Serial(par.Scheduler):
    down = 0
    tasks = 0

    def _process_task(self, *a):
        self.tasks += 1
        super(Serial, self)._process_task(*a)

    def _shutdown(self):
        self.down += 1


class Counted(object):
    """Iterable that knows how often its items were handed out."""

    def __init__(self, items):
        self.items = items
        self.given = []

    def __iter__(self):
        self.given.append(0)
        k = len(self.given) - 1
        for x in self.items:
            self.given[k] += 1
            yield x


def make_scheduler(kind, seed):
    if kind == 'none':
        return None
    if kind == 'serial':
        return Serial()
    if kind == 'shuffle':
        return Shuffle(seed)
    if kind == 'pickled':
        return Shuffle(seed, pickled=True)
    if kind == 'thread':
        return par.ThreadScheduler(n_threads=1 + seed % 4, copy_callable=seed % 3 > 0)
    return par.ProcessScheduler(n_processes=1 + seed % 2, cache_callable=seed % 3 > 0)


def waitless(s):
    """Avoid the long polling intervals of the schedulers."""
    import time
    real = time.sleep

    def short(t):
        real(min(t, 0.002))
    time.sleep = short
    return lambda: setattr(time, 'sleep', real)


def same_nodes(fl, ref, ps, what):
    for i, p in enumerate(ps):
        a, b = fl[i], ref[i]
        check(a.is_training() == b.is_training(), "%s: node %d is_training" % (what, i))
        check((a.input_dim, a.output_dim) == (b.input_dim, b.output_dim), "%s: node %d dimensions %s instead of %s" % (what, i, (a.input_dim, a.output_dim), (b.input_dim, b.output_dim)))
        if isinstance(a, RecBase):
            close(np.asarray(a.acc), np.asarray(b.acc), 1e-9, "%s: accumulator of node %d" % (what, i))
            check(a.cnt == b.cnt, "%s: node %d was trained %d times instead of %d" % (what, i, a.cnt, b.cnt))
        if isinstance(a, SumNode):
            check([h[0] for h in a.hist] == [h[0] for h in b.hist], "%s: samples per phase of node %d: %s" % (what, i, [h[0] for h in a.hist]))
            close(np.asarray(a.shift), np.asarray(b.shift), 1e-6, "%s: state of node %d" % (what, i))


def aligned(f, ref, x):
    """Signs of unsupervised nodes may differ by rounding: compare in the nodes' own frame."""
    return np.array(f.execute(x)), np.array(ref.execute(x))


LONG = st.lists(st.sampled_from(['sum', 'sum', 'pca', 'id', 'affine', 'count', 'sfa', 'mixflow', 'white']), min_size=5, max_size=7)
flow_case = {'kinds': st.one_of(*([st.lists(st.sampled_from(KINDS), min_size=1, max_size=4)] * 4 + [LONG])), 'd': st.integers(2, 4), 'seed': seeds, 'sched': st.sampled_from(['serial', 'shuffle', 'shuffle', 'pickled']),
             'ss': seeds, 'src': st.lists(st.sampled_from(sorted(SRC)), min_size=1, max_size=4), 'aslist': st.sampled_from(['list', 'tuple', 'seq']), 'how': st.sampled_from(['train', 'train', 'manual', 'list', 'gen']),
             'pre': st.one_of(st.just([False]), st.lists(st.booleans(), min_size=1, max_size=4)), 'check': st.booleans(), 'nodenr': st.integers(0, 5), 'echunks': st.one_of(*([st.integers(1, 5)] * 6 + [st.sampled_from([15, 70])])), 'own': st.booleans()}


def reference(case, ps, data, pre_rng):
    ref = [p.new() for p in ps]
    pretrain(ps, case['pre'], pre_rng, [ref])
    reseed(3)
    manual_train(ref, ps, data)
    return ref


def pretrain(ps, which, seed, nds2):
    from lib.flowzoo import args_for
    for i, p in enumerate(ps):
        if p.trainable and which[i % len(which)]:
            rng = rs(seed, i, 91)
            x = signal(rng, 60, p.d)
            a = args_for(p, 60, rng)
            for nds in nds2:
                nd = nds[i]
                while nd.is_training():
                    nd.train(x, *a)
                    nd.stop_training()


def build(case, ctx):
    d = case['d']
    ps = mkparts(case['kinds'], d, case['seed'])
    data = mkdata(ps, rs(case['seed'], 1), False, d)
    nds = [p.new() for p in ps]
    pretrain(ps, case['pre'], case['seed'], [nds])
    try:
        ref = reference(case, ps, data, case['seed'])
        mdp.Flow(ref).execute(signal(rs(case['seed'], 2), 30, d))
        ok = True
    except Exception:
        ctx.label('node failure')
        ok = False
        ref = None
    return ps, data, nds, ref, ok


def frame(nds, ref, ps, d, seed):
    """Give trained nodes with free signs the signs of the reference: execute both step by
    step from the same input and compare up to signs; returns nothing."""
    x = signal(rs(seed, 6), 40, d)
    for i, p in enumerate(ps):
        a, b = np.array(nds[i].execute(x)), np.array(ref[i].execute(x))
        if p.kind in ('pca', 'white', 'sfa', 'fda', 'layer', 'flownode', 'clone', 'same'):
            a = sgn(a, b)
        yield i, a, b
        x = b


def compare_flows(nds, ref, ps, d, seed, what):
    """Every node of the flow maps the same input to the same output (up to signs); a node
    behind another one whose signs differ saw other data, so only signs are checked before."""
    x = signal(rs(seed, 6), 40, d)
    flipped = False
    for i, p in enumerate(ps):
        a, b = np.array(nds[i].execute(x)), np.array(ref[i].execute(x))
        if p.kind == 'fda' and a.shape == b.shape:
            # two classes: only the first direction is determined
            close(sgn(a[:, :1], b[:, :1]), b[:, :1], 1e-5, "%s: output of node %d (%s)" % (what, i, p.kind))
            if a.shape[1] > 1 or not np.allclose(a, b):
                return False
        if a.dtype.kind in 'iufc' and a.shape == b.shape and a.ndim == 2:
            s = sgn(a, b)
            if not np.allclose(s, a):
                flipped = True
            a = s
        if not flipped or p.kind in ('pca', 'sfa', 'white', 'id', 'affine', 'switch', 'count'):
            close(a, b, 1e-5, "%s: output of node %d (%s)" % (what, i, p.kind))
        if flipped:
            return False
        x = b
    return True


def counted_sources(case, ps, data, nds):
    its, cnt = [], []
    for i, p in enumerate(ps):
        if not nds[i].is_training():
            its.append(None)
            cnt.append(None)
            continue
        c = Counted(list(source('list', p, data[i], case['aslist'])))
        cnt.append(c)
        kind = case['src'][i % len(case['src'])]
        if kind in ('gen', 'iter', 'iterobj') and p.phases == 1:
            its.append(iter(c))
        else:
            its.append(c)
    return its, cnt


def drive(f, its, case, sched):
    """The manual interface."""
    f.setup_parallel_training(its)
    n = 0
    rng = rs(case['ss'], 12)
    with mdp.extension('parallel'):
        while f.is_parallel_training:
            res = []
            last = None
            todo = []
            while f.task_available:
                data, c = f.get_task()
                last = c if c is not None else last
                todo.append((data, last))
                n += 1
            raises(par.NoTaskException, f.get_task, "get_task without tasks")
            raises(par.ParallelFlowException, lambda: f.execute(np.zeros((2, 2))), "execution during parallel training")
            for k in rng.permutation(len(todo)):
                data, c = todo[k]
                res.append(c.fork()(data))
            f.use_results(res)
            check(n < 1000, "training does not end")
    return n


class Tracked(object):
    """Checkpoint function."""

    def __init__(self, log, i, store):
        self.log, self.i, self.store = log, i, store

    def __call__(self, node):
        self.log.append((self.i, node, node.is_training()))
        return {'stored%d' % self.i: self.i} if self.store else None


def run_flow(case, ctx, heavy=False):
    d = case['d']
    ps, data, nds, ref, ok = build(case, ctx)
    if not ok:
        return
    its, cnt = counted_sources(case, ps, data, nds)
    trained = [n.is_training() for n in nds]
    cls = par.ParallelCheckpointFlow if case['check'] else par.ParallelFlow
    f = cls(nds)
    log = []
    cps = [Tracked(log, i, i % 2) if rs(case['ss'], i).rand() < 0.8 else None for i in range(len(ps))]
    kw = {'checkpoints': cps} if case['check'] else {}
    sched = make_scheduler(case['sched'], case['ss'])
    scheds = []
    how = case['how']
    undo = waitless(sched)
    before = mdp.get_active_extensions()
    reseed(3)
    try:
        if how == 'manual' and not case['check']:
            with mdp.extension('parallel'):
                drive(f, its, case, sched)
        elif how in ('list', 'gen') and sched is not None:
            scheds = [make_scheduler(case['sched'], case['ss'] + i) if trained[i] or rs(case['ss'], i, 2).rand() < 0.5 else None for i in range(len(ps))]
            f.train(its, scheduler=scheds if how == 'list' else iter(scheds), **kw)
        elif sched is None:
            f.train(its, **kw)
        else:
            f.train(its, scheduler=sched, **kw)
        check(not f.is_parallel_training and not f.task_available, "flow is still training")
        check(mdp.get_active_extensions() == before, "active extensions afterwards: %s", mdp.get_active_extensions())
        # each chunk once per phase
        for i, c in enumerate(cnt):
            if c is None:
                continue
            n = len(c.items)
            passes = [g for g in c.given if g]
            # an additional look at the first item is the task buffer of the library's check
            check(passes == [n] * ps[i].phases, "node %d: chunks handed out %s, %d chunks in %d phases", i, c.given, n, ps[i].phases)
        check(len(f) == len(nds) and all(a is b for a, b in zip(f, nds)), "nodes of the flow")
        same_nodes_ok = compare_flows(nds, ref, ps, d, case['seed'], "training")
        if same_nodes_ok:
            same_nodes(nds, ref, ps, "training")
        if case['check']:
            exp = [i for i in range(len(ps)) if trained[i] and cps[i] is not None]
            got = [l for l in log if trained[l[0]]]
            check([l[0] for l in got] == exp, "checkpoints called for nodes %s instead of %s", [l[0] for l in got], exp)
            for i, nd, tr in got:
                check(nd is nds[i], "checkpoint of node %d got another node", i)
                if sched is not None:
                    check(not tr, "checkpoint of node %d before its training is over", i)
                if i % 2:
                    check(getattr(f, 'stored%d' % i, None) == i, "result of a checkpoint is not stored")
        for i, s in enumerate(scheds):
            # the nodes at the end may have been trained locally, then there is no need for a scheduler
            if s is not None and hasattr(s, 'down') and (s.tasks or s.down):
                check(s.down == 1, "scheduler of node %d was shut down %s times", i, s.down)
        # execution
        rng = rs(case['seed'], 40)
        x = signal(rng, 50, d)
        if case['echunks'] > 5:
            x = signal(rng, 9 * case['echunks'], d)
        chunks = gen.split(x, gen.cuts(rng, len(x), case['echunks'] * (3 if case['echunks'] > 5 else 1), 8))
        for nd in counters(nds):
            nd.rows, nd.calls, nd.total = 0, 0, 0.
        nodenr = None if case['nodenr'] >= len(ps) else case['nodenr']
        plain = mdp.Flow([nd.copy() for nd in nds])
        want = plain.execute([c.copy() for c in chunks], nodenr=nodenr)
        esched = make_scheduler(case['sched'], case['ss'] + 7)
        src = Counted([c.copy() for c in chunks])
        y = f.execute(src if case['echunks'] > 1 or case['own'] else x, nodenr=nodenr, scheduler=esched) if esched is not None else f.execute(src, nodenr=nodenr)
        check(mdp.get_active_extensions() == before, "active extensions after the execution")
        close(np.asarray(y), np.asarray(want), 1e-9, "parallel execution")
        if src.given:
            check(src.given == [len(chunks)], "chunks handed out for the execution: %s of %d", src.given, len(chunks))
        for a, b in zip(counters(nds), counters(plain)):
            if True:
                check((a.rows, a.calls) == (b.rows, b.calls), "collected state: %s instead of %s", (a.rows, a.calls), (b.rows, b.calls))
                close(np.asarray(a.total), np.asarray(b.total), 1e-9, "collected state")
        close(np.asarray(f.execute(x)), np.asarray(plain.execute(x)), 1e-9, "serial execution of the parallel flow")
        if esched is not None:
            esched.shutdown()
        # and copied or pickled as usual
        g = f.copy()
        close(np.asarray(g.execute(x)), np.asarray(plain.execute(x)), 1e-9, "copy of the flow")
        if sched is not None:
            if how == 'train' or (how == 'manual' and case['check']):
                sched.shutdown()
            elif not isinstance(sched, (Serial, Shuffle)):
                sched.shutdown()
    finally:
        undo()
    nt = sum(trained)
    ctx.nontrivial(nt >= 1 and any(c is not None and len(c.items) > 1 for c in cnt))
    ctx.label(case['sched'])


def guarded(case, ctx):
    try:
        run_flow(case, ctx)
    except Exception as e:
        # on (nearly) singular data it is up to rounding if the nodes accept it
        if 'negative eigenvalues' not in str(e) and 'singular' not in str(e):
            raise
        ctx.label('singular data')


@sub(st.fixed_dictionaries(flow_case), quick=600, thorough=15000, shards=8, rule="a node is trained with several chunks")
def flows(case, ctx):
    guarded(case, ctx)


@sub(st.fixed_dictionaries(dict(flow_case, sched=st.sampled_from(['thread', 'thread', 'none', 'thread', 'process']))), quick=100, thorough=3000, shards=8, timeout=300,
     rule="a node is trained with several chunks")
def flows_real(case, ctx):
    guarded(case, ctx)


# ------------------------------------------------------------------ active extensions
ENVS = [[], ['verifenv_bias'], ['verifenv_gain'], ['verifenv_bias', 'verifenv_gain'], ['parallel'], ['parallel', 'verifenv_gain']]
env_round = st.tuples(st.integers(0, 5), st.booleans(), st.integers(1, 5)).map(list)


def run_env(case, ctx):
    """One scheduler is used under changing sets of active extensions: the workers have those
    of the call, and the caller keeps them."""
    undo = waitless(None)
    s = make_scheduler(case['sched'], case['ss'])
    d = 2
    try:
        f = mdp.parallel.ParallelFlow([EnvNode(), EnvNode(), nodes.IdentityNode()])
        ref = mdp.Flow([EnvNode(), EnvNode(), nodes.IdentityNode()])
        sets = set()
        for r, (env, train, n) in enumerate(case['rounds']):
            exts = ENVS[env]
            x = rs(case['seed'], r).normal(size=(n * 4, d))
            chunks = gen.split(x, [4] * n)
            with mdp.extension(exts):
                before = mdp.get_active_extensions()
                if train or not r:
                    f = mdp.parallel.ParallelFlow([EnvNode(), EnvNode(), nodes.IdentityNode()])
                    ref = mdp.Flow([EnvNode(), EnvNode(), nodes.IdentityNode()])
                    f.train([chunks, chunks, None], scheduler=s)
                    for nd in ref[:2]:
                        for c in chunks:
                            nd.train(c if nd is ref[0] else ref[0].execute(c))
                        nd.stop_training()
                    for a, b in zip(f[:2], ref[:2]):
                        close(np.asarray(a.acc), np.asarray(b.acc), 1e-9, "round %d: training with extensions %s" % (r, exts))
                else:
                    y = f.execute(chunks if n > 1 else x, scheduler=s)
                    close(np.asarray(y), ref.execute(x), 1e-9, "round %d: execution with extensions %s" % (r, exts))
                check(sorted(mdp.get_active_extensions()) == sorted(before), "round %d: active extensions afterwards %s instead of %s" % (r, mdp.get_active_extensions(), before))
            check(mdp.get_active_extensions() == [], "active extensions left: %s" % mdp.get_active_extensions())
            sets.add(env)
        s.shutdown()
        ctx.nontrivial(len(sets) > 1)
        ctx.label(case['sched'])
    finally:
        mdp.deactivate_extensions(mdp.get_active_extensions())
        undo()


env_case = {'rounds': st.lists(env_round, min_size=2, max_size=5), 'seed': seeds, 'ss': seeds}


@sub(st.fixed_dictionaries(dict(env_case, sched=st.sampled_from(['serial', 'shuffle', 'pickled']))), quick=150, thorough=4000, shards=4, rule="two different sets of extensions")
def environment(case, ctx):
    run_env(case, ctx)


@sub(st.fixed_dictionaries(dict(env_case, sched=st.sampled_from(['thread', 'process', 'process']))), quick=24, thorough=800, shards=8, timeout=300, rule="two different sets of extensions")
def environment_real(case, ctx):
    run_env(case, ctx)


# ------------------------------------------------------------------ errors
@sub(st.fixed_dictionaries({'kind': st.sampled_from(['empty', 'node', 'iterator', 'number', 'underway', 'callable']), 'seed': seeds, 'sched': st.sampled_from(['serial', 'shuffle', 'thread']),
                            'pos': st.integers(0, 2)}), quick=100, thorough=2000, rule="every case", shards=2)
def errors(case, ctx):
    """Invalid training raises a flow exception (or the node's error) and leaves the flow usable."""
    ctx.nontrivial()
    k = case['kind']
    x = signal(rs(case['seed'], 1), 60, 3)
    undo = waitless(None)
    s = make_scheduler(case['sched'], case['ss'] if 'ss' in case else 1)
    try:
        nds = [nodes.PCANode(), nodes.SFANode(), nodes.PCANode()]
        data = [[x[:30], x[30:]] for _ in range(3)]
        p = case['pos']
        exc = mdp.FlowException
        if k == 'empty':
            data[p] = []
        elif k == 'node':
            nds[p] = BadTrain()
            exc = Exception
        elif k == 'iterator':
            nds[p] = nodes.FDANode(output_dim=2)
            data[p] = iter([(x[:30], np.arange(30) % 2)])
        elif k == 'number':
            data = data[:2]
        f = par.ParallelFlow(nds)
        if k == 'underway':
            with mdp.extension('parallel'):
                f.setup_parallel_training(data)
            raises(mdp.FlowException, lambda: f.train(data, scheduler=s), "training during parallel training")
            raises(mdp.FlowException, lambda: f.setup_parallel_training(data), "training during parallel training")
            check(f.is_parallel_training, "is_parallel_training")
            return
        if k == 'callable':
            raises(mdp.FlowException, lambda: f.train(data, train_callable_class=par.FlowTrainCallable), "callable class without scheduler")
            f.train(data)
            raises(mdp.FlowException, lambda: f.execute(x, execute_callable_class=par.FlowExecuteCallable), "callable class without scheduler")
            return
        raises(exc, lambda: f.train(data, scheduler=s), "invalid training (%s)" % k)
        check(not f.is_parallel_training, "flow is in parallel training after an error")
        check(not f.task_available, "tasks are available after an error")
        if k != 'node':
            if k == 'iterator':
                return
            f.train([[x[:30], x[30:]] for _ in range(3)], scheduler=make_scheduler(case['sched'], 1))
            ref = mdp.Flow([nodes.PCANode(), nodes.SFANode(), nodes.PCANode()])
            ref.train([[x[:30], x[30:]] for _ in range(3)])
            close(np.abs(f.execute(x)), np.abs(ref.execute(x)), 1e-6, "training after an error")
    finally:
        undo()
