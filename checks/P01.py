"""Node life cycle and the one-time dimension / dtype contract."""
import numpy as np
import mdp
from lib.harness import sub, check, close, raises, st, Violation
from lib.nodetab import TAB, NAMES
from lib.gen import seeds, reseed

OFF = [n for n in NAMES if not TAB[n].online]
OPS = ['train', 'train', 'train', 'stop', 'stop', 'exec', 'exec', 'inv', 'bad_rank', 'empty', 'bad_dim', 'set_in',
       'set_out', 'set_dtype', 'bad_dtype', 'inv_dim', 'state', 'exec_dim']

# nodes with an own signature reject malformed arrays with other exceptions
BAD = {'RBMWithLabelsNode': Exception}


def attempt(f, seed):
    reseed(seed)
    try:
        return ('ok', f())
    except Exception as e:
        return (type(e).__name__, None)


def same(ra, rb, msg):
    check(ra[0] == rb[0], "%s: outcome %s, twin %s", msg, ra[0], rb[0])
    if ra[0] == 'ok' and isinstance(rb[1], np.ndarray):
        close(ra[1], rb[1], 1e-9, msg)


@sub(st.fixed_dictionaries({
    'node': st.sampled_from(OFF), 'seed': seeds, 'fixdim': st.booleans(),
    'ops': st.lists(st.sampled_from(OPS), min_size=2, max_size=12)}),
    quick=900, thorough=12000, shards=6, timeout=120,
    rule="at least one refused call and a completed training or execution")
def life_cycle(case, ctx):
    """Random call sequences against a model of the life cycle; a twin node gets only the accepted calls."""
    e = TAB[case['node']]
    cfg = e.cfg(case['seed'])
    kw = {'input_dim': cfg.d} if case['fixdim'] else {}
    a, b = cfg.new(**kw), cfg.new(**kw)
    d = cfg.d
    training, started, phase = e.trainable, False, 0
    refused = done = False
    multi = e.phases > 1
    check(a.is_trainable() == e.trainable, "is_trainable")
    for k, op in enumerate(case['ops'] + ['state', 'exec', 'state']):
        sd = 1000 + k
        known = a.input_dim is not None
        if op == 'state':
            check(bool(a.is_training()) == training, "is_training() is %s, model says %s", a.is_training(), training)
            check(not e.trainable or a.get_current_train_phase() == phase, "phase %s, model %s",
                  a.get_current_train_phase(), phase)
            if not e.trainable:
                check(a.get_remaining_train_phase() == 0, "remaining phases of an untrainable node")
            elif e.phases < 20:
                check(a.get_remaining_train_phase() == e.phases - phase, "remaining phases")
                check(bool(a.has_multiple_training_phases()) == (e.phases > 1), "multiple phases")
            check(a.input_dim == b.input_dim and a.output_dim == b.output_dim and str(a.dtype) == str(b.dtype),
                  "dimensions/dtype differ from those of the twin")
        elif op == 'train':
            x = cfg.data(e.n, k)
            if k == 0 or not known:
                x = cfg.data(e.n, 0)
            t = cfg.targs(x, 0)
            if not training:
                exc = mdp.TrainingFinishedException if e.trainable else mdp.IsNotTrainableException
                raises(exc, lambda: a.train(x, *t), "training after the end" if e.trainable else "untrainable")
                refused = True
            else:
                ra = attempt(lambda: a.train(x, *t), sd)
                rb = attempt(lambda: b.train(x, *t), sd)
                same(ra, rb, "train")
                if ra[0] != 'ok':
                    return
                started = True
        elif op == 'stop':
            if not training:
                raises(mdp.TrainingFinishedException, a.stop_training, "stop_training after the end")
                refused = True
            elif not started:
                raises(mdp.TrainingException, a.stop_training, "stop_training before training")
                refused = True
            else:
                ra, rb = attempt(a.stop_training, sd), attempt(b.stop_training, sd)
                same(ra, rb, "stop_training")
                if ra[0] != 'ok':
                    return
                phase += 1
                started = False
                check(a.get_current_train_phase() == phase, "stop_training advanced %d phases",
                      a.get_current_train_phase() - phase + 1)
                training = (phase < e.phases) if e.phases < 20 else b.is_training()
        elif op in ('exec', 'inv'):
            x = cfg.data(e.rows(7), k + 1) if not (training and not started) else cfg.data(e.n, 0)
            if training and not started and phase == 0 and e.supervised:
                continue      # execution of an untouched supervised node: needs labels
            if op == 'inv':
                if e.name.startswith('RBM'):
                    continue      # inverse() samples although the node is not called invertible
                if not a.is_invertible():
                    raises(mdp.IsNotInvertibleException, lambda: a.inverse(x), "inverse of a non-invertible node")
                    refused = True
                    continue
                if not (e.invertible and known) or (training and not started):
                    continue
                od = a.output_dim or d
                y = np.random.RandomState(k).normal(size=(4, od))
                fa, fb = (lambda: a.inverse(y)), (lambda: b.inverse(y))
            else:
                fa = lambda: a.execute(x, *cfg.eargs(x, k + 1))
                fb = lambda: b.execute(x, *cfg.eargs(x, k + 1))
            was = (training, started, phase)
            ra, rb = attempt(fa, sd), attempt(fb, sd)
            same(ra, rb, op)
            if was[0] and not (was[1] or was[2] == 0):
                # a later phase is open but has no data: refused, still open
                check(ra[0] in ('TrainingException',), "%s in an untrained phase: %s", op, ra[0])
                refused = True
                continue
            if was[0] and multi and not (e.phases - was[2] == 1) and was[1]:
                if e.phases < 20:
                    check(ra[0] == 'TrainingException', "%s before the last phase: %s", op, ra[0])
                    refused = True
                return
            if ra[0] != 'ok':
                if e.trainable and was[0]:
                    return     # data unsuitable for this algorithm
                raise Violation("%s on a usable node raised %s" % (op, ra[0]))
            if was[0]:
                training, started = False, False
                phase = e.phases if e.phases < 20 else b.get_current_train_phase()
            done = True
            y = ra[1]
            check(not a.is_training(), "node still training after %s", op)
            want = a.output_dim if op == 'exec' else a.input_dim
            check(y.ndim == 2 and y.shape[1] == want, "%s result has shape %s, announced dim %s", op, y.shape, want)
            if op == 'inv':
                check(len(y) == 4, "inverse changed the number of rows")
            elif e.same_rows:
                check(len(y) == len(x), "execute changed the number of rows: %d -> %d", len(x), len(y))
            if not e.label_outputs and a.dtype is not None and a.dtype.kind == 'f':
                check(str(y.dtype) == str(a.dtype), "result dtype %s, node dtype %s", y.dtype, a.dtype)
        elif op in ('bad_rank', 'empty', 'bad_dim', 'exec_dim', 'bad_dtype'):
            x = cfg.data(e.n, 0)
            if op == 'bad_rank':
                bad = x[:, 0] if k % 2 or e.name == 'Convolution2DNode' else x[None]
            elif op == 'empty':
                bad = x[:0]
                if not known and not case['fixdim']:
                    bad = np.zeros((0, d + 2), dtype=x.dtype)
            elif op == 'bad_dtype':
                if a.dtype is not None or np.dtype('i8') in a.supported_dtypes:
                    continue
                bad = np.ones((6, d if case['fixdim'] else d + 3), dtype='i8')
            else:
                if not known:
                    continue
                bad = np.concatenate([x, x[:, :1]], axis=1) if k % 2 or d == 1 else x[:, 1:]
            t = [v[:len(bad)] if hasattr(v, '__len__') else v for v in cfg.targs(x, 0)]
            if op == 'exec_dim' or not training:
                if training and started:
                    continue
                if training and phase > 0:
                    continue
                f = lambda: a.execute(bad, *cfg.eargs(x, 0))
                if e.supervised and training:
                    continue
                raises(BAD.get(e.name, mdp.NodeException), f, "execute with " + op)
            else:
                if op == 'bad_dtype' and e.name == 'RBMWithLabelsNode':
                    continue      # the labels decide about the dtype
                raises(BAD.get(e.name, mdp.NodeException), lambda: a.train(bad, *t), "train with " + op)
            refused = True
        elif op == 'inv_dim':
            if training or not e.invertible or a.output_dim is None or not a.is_invertible():
                continue
            raises(mdp.NodeException, lambda: a.inverse(np.zeros((3, a.output_dim + 1))), "inverse with wrong dim")
            refused = True
        elif op == 'set_in':
            if not known:
                continue
            di = a.input_dim
            raises(mdp.InconsistentDimException, lambda: setattr(a, 'input_dim', di + 1), "input_dim reassigned")
            a.input_dim = di
            a.input_dim = None
            check(a.input_dim == di, "input_dim changed")
            refused = True
        elif op == 'set_out':
            od = a.output_dim
            if od is None:
                continue
            raises(mdp.NodeException, lambda: setattr(a, 'output_dim', od + 1), "output_dim reassigned")
            a.output_dim = None
            check(a.output_dim == od, "output_dim changed")
            refused = True
        elif op == 'set_dtype':
            dt = a.dtype
            raises(mdp.NodeException, lambda: setattr(a, 'dtype', np.dtype('S3')), "unsupported dtype accepted")
            if dt is None:
                check(a.dtype is None, "refused dtype kept")
                continue
            other = 'f4' if dt != np.dtype('f4') else 'f8'
            raises(mdp.NodeException, lambda: setattr(a, 'dtype', other), "dtype reassigned")
            a.dtype = dt
            a.dtype = None
            check(str(a.dtype) == str(dt), "dtype changed")
            refused = True
    ctx.label(case['node'])
    ctx.nontrivial(refused and done)


F32 = [n for n in OFF if TAB[n].f32]


@sub(st.fixed_dictionaries({
    'node': st.sampled_from(F32), 'seed': seeds, 'how': st.sampled_from(['ctor', 'assign', 'data', 'train']),
    'other': st.booleans()}),
    quick=300, thorough=4000, shards=2,
    rule="node trained/executed with dtype float32 fixed in one of four ways")
def dtype_contract(case, ctx):
    """The type is fixed once; data of the other float type is cast, results keep the node's type."""
    e = TAB[case['node']]
    cfg = e.cfg(case['seed'])
    how = case['how']
    if how == 'ctor':
        a = cfg.new(dtype='f')
    else:
        a = cfg.new()
        if how == 'assign':
            a.dtype = np.float32
    if how in ('ctor', 'assign'):
        check(str(a.dtype) == str(np.dtype('f')), "dtype given by %s is lost", how)
    x32 = cfg.data(e.n, 0).astype('f')
    first = x32 if (how in ('data', 'train') or not case['other']) else x32.astype('d')
    reseed(3)
    if e.trainable:
        e.train(a, cfg, first)
        check(str(a.dtype) == str(np.dtype('f')), "dtype after training on float32: %s", a.dtype)
    q = cfg.data(e.rows(6), 1)
    q = q.astype('d') if case['other'] and (e.trainable or how != 'data') else q.astype('f')
    y = a.execute(q, *cfg.eargs(q, 1))
    if how == 'train' and not e.trainable:
        check(str(a.dtype) == str(q.dtype), "dtype from first data")
        ctx.nontrivial(False)
    elif not e.label_outputs:
        check(str(y.dtype) == str(np.dtype('f')), "float32 node returned %s", y.dtype)
        ctx.nontrivial()
    check(str(a.dtype) == str((q.dtype if (how == 'train' and not e.trainable) else np.dtype('f'))), "dtype changed")
    if e.invertible and a.is_invertible():
        r = a.inverse(y.astype('d') if case['other'] else y)
        check(str(r.dtype) == str(a.dtype), "inverse of a %s node returned %s", a.dtype, r.dtype)
    ctx.label(case['node'])


@sub(st.fixed_dictionaries({'node': st.sampled_from(OFF), 'seed': seeds, 'mode': st.sampled_from(['auto', 'mid'])}),
     quick=260, thorough=4000, shards=2, rule="trainable node executed without being explicitly closed")
def execute_closes_training(case, ctx):
    """execute() on an untouched node trains it on that data; on a node in its last phase it closes the phase."""
    e = TAB[case['node']]
    cfg = e.cfg(case['seed'])
    x = cfg.data(e.n, 0)
    q = cfg.data(e.rows(6), 1)
    if not e.trainable:
        a = cfg.new()
        reseed(5)
        y = a.execute(q, *cfg.eargs(q, 1))
        check(not a.is_training() and len(y) >= 1)
        return
    if e.supervised and case['mode'] == 'auto':
        return
    a, b = cfg.new(), cfg.new()
    reseed(5)
    if case['mode'] == 'auto':
        ya = a.execute(x, *cfg.eargs(x, 0))
        y0 = ya
    else:
        t = cfg.targs(x, 0)
        while True:
            a.train(x, *t)
            if a.get_remaining_train_phase() > 1:
                a.stop_training()
            else:
                break
        y0 = None
        if a.is_invertible() and e.invertible and a.output_dim is not None and case['seed'] % 2:
            a.inverse(np.zeros((2, a.output_dim)))
        else:
            y0 = a.execute(x, *cfg.eargs(x, 0))
    check(not a.is_training() and a.get_remaining_train_phase() == 0, "node still in training")
    reseed(5)
    e.train(b, cfg, x)
    yb = b.execute(x, *cfg.eargs(x, 0))
    if y0 is not None and not e.stochastic:
        close(y0, yb, 1e-9, "output differs from that of an explicitly trained node")
    raises(mdp.TrainingFinishedException, lambda: a.train(x, *cfg.targs(x, 0)), "training after execute")
    if not e.stochastic:
        close(a.execute(q, *cfg.eargs(q, 1)), b.execute(q, *cfg.eargs(q, 1)), 1e-9, "later output differs")
    ctx.label(case['node'])
    ctx.nontrivial()


@sub(st.fixed_dictionaries({
    'node': st.sampled_from([n for n in OFF if n not in ('RBMNode', 'RBMWithLabelsNode', 'RBFExpansionNode')]),
    'seed': seeds, 'di': st.integers(1, 3), 'way': st.sampled_from(['ctor', 'assign']),
    'od': st.integers(1, 4)}), quick=260, thorough=4000, shards=2,
    rule="dimension fixed before data, disagreeing data offered, then agreeing data")
def dims_before_data(case, ctx):
    e = TAB[case['node']]
    cfg = e.cfg(case['seed'])
    d = cfg.d
    a = cfg.new(input_dim=d) if case['way'] == 'ctor' else cfg.new()
    if case['way'] == 'assign':
        a.input_dim = d
    check(a.input_dim == d, "input_dim not set")
    x = cfg.data(e.n, 0)
    bad = np.concatenate([x] + [x[:, :1]] * case['di'], axis=1)
    if e.trainable:
        t = cfg.targs(x, 0)
        raises(mdp.NodeException, lambda: a.train(bad, *t), "training data of another dimension")
        reseed(2)
        e.train(a, cfg, x)
    else:
        raises(mdp.NodeException, lambda: a.execute(bad[:e.rows(5)], *cfg.eargs(bad, 0)),
               "data of another dimension")
    b = cfg.new()
    reseed(2)
    if e.trainable:
        e.train(b, cfg, x)
    q = cfg.data(e.rows(5), 1)
    reseed(4)
    ya = a.execute(q, *cfg.eargs(q, 1))
    reseed(4)
    yb = b.execute(q, *cfg.eargs(q, 1))
    close(ya, yb, 1e-9, "output differs from a node that was not refused data")
    check(a.output_dim == ya.shape[1] and a.input_dim == d, "announced dimensions")
    raises(mdp.NodeException, lambda: a.execute(bad[:e.rows(5)], *cfg.eargs(bad, 0)), "execute with another dim")
    ctx.label(case['node'])
    ctx.nontrivial()


@sub(st.fixed_dictionaries({'din': st.one_of(st.none(), st.integers(1, 4)), 'dout': st.one_of(st.none(), st.integers(1, 4)),
                            'first': st.sampled_from(['in', 'out']), 'ctor': st.booleans(), 'n': st.integers(1, 5)}),
     quick=100, rule="both dimensions requested for a dimension-preserving node")
def preserve_dim(case, ctx):
    """Dimension-preserving nodes: setting one sets the other, disagreement is refused."""
    din, dout = case['din'], case['dout']
    for cls in (mdp.nodes.IdentityNode, mdp.nodes.CutoffNode, mdp.nodes.NormalizeNode, mdp.nodes.NormalNoiseNode,
                mdp.nodes.HistogramNode):
        if case['ctor'] and cls is mdp.nodes.IdentityNode:
            f = lambda: cls(input_dim=din, output_dim=dout)
            if din is not None and dout is not None and din != dout:
                raises(mdp.InconsistentDimException, f, "constructor with different dims")
                ctx.nontrivial()
                continue
            nd = f()
        else:
            nd = cls()
            order = [('input_dim', din), ('output_dim', dout)]
            if case['first'] == 'out':
                order.reverse()
            cur = None
            for name, v in order:
                if v is not None and cur is not None and v != cur:
                    raises(mdp.InconsistentDimException, lambda: setattr(nd, name, v), "disagreeing " + name)
                    ctx.nontrivial()
                else:
                    setattr(nd, name, v)
                    cur = cur if v is None else v
        cur = nd.input_dim
        check(nd.input_dim == nd.output_dim, "input_dim %s, output_dim %s", nd.input_dim, nd.output_dim)
        if din is not None or dout is not None:
            check(cur in (din, dout), "dim %s is none of the requested", cur)
        x = np.random.RandomState(0).normal(size=(6, case['n']))
        f = lambda: nd.execute(x)
        if cur is not None and cur != case['n']:
            raises(mdp.NodeException, f, "data of another dimension")
        else:
            check(f().shape == x.shape, "shape")
            check(nd.input_dim == nd.output_dim == case['n'], "dims after data")


# ------------------------------------------------------------------ a node of the user, against an exact model
DTYPES = ['f4', 'f8', 'i4', 'i8', 'c16']


def make(phases, preserve, invertible, types):
    base = mdp.nodes.IdentityNode.__mro__[1] if preserve else mdp.Node

    class Probe(base):
        log = None

        @staticmethod
        def is_trainable():
            return phases > 0

        @staticmethod
        def is_invertible():
            return invertible

        def _get_supported_dtypes(self):
            return types

        def _get_train_seq(self):
            def tr(i):
                return lambda x: self.log.append(('train', i, x.shape, x.dtype))

            def sp(i):
                return lambda: self.log.append(('stop', i))
            return [(tr(i), sp(i)) for i in range(phases)]

        def _execute(self, x):
            self.log.append(('execute', x.shape, x.dtype))
            k = self.output_dim
            return np.concatenate([x] * k, axis=1)[:, :k]

        def _inverse(self, y):
            self.log.append(('inverse', y.shape, y.dtype))
            k = self.input_dim or y.shape[1]
            return np.concatenate([y] * k, axis=1)[:, :k]
    return Probe


class Model(object):
    """What the documentation of Node says."""

    def __init__(self, phases, preserve, invertible, types):
        self.n, self.preserve, self.invertible, self.types = phases, preserve, invertible, types
        self.i = self.o = self.t = None
        self.training, self.phase, self.started = phases > 0, 0, False
        self.log = []

    def set_dim(self, which, n):
        if n is None:
            return None
        if getattr(self, which) is not None and getattr(self, which) != n:
            return mdp.InconsistentDimException
        if self.preserve:
            self.i = self.o = n
        else:
            setattr(self, which, n)

    def set_t(self, t):
        if t is None:
            return None
        t = np.dtype(t)
        if (self.t is not None and self.t != t) or t not in self.types:
            return mdp.NodeException
        self.t = t

    def input(self, x):
        if x.ndim != 2 or len(x) == 0 or (self.i is not None and x.shape[1] != self.i) or (self.t is None and x.dtype not in self.types):
            return mdp.NodeException
        if self.i is None:
            self.set_dim('i', x.shape[1])
        if self.t is None:
            self.t = x.dtype

    def train(self, x):
        if not self.n:
            return mdp.IsNotTrainableException
        if not self.training:
            return mdp.TrainingFinishedException
        e = self.input(x)
        if e:
            return e
        self.started = True
        self.log.append(('train', self.phase, x.shape, self.t))

    def stop(self):
        if not self.training:
            return mdp.TrainingFinishedException
        if not self.started:
            return mdp.TrainingException
        self.log.append(('stop', self.phase))
        self.phase += 1
        self.started = False
        self.training = self.phase < self.n

    def close(self):
        if self.training:
            e = self.stop()
            if e or self.training:
                return mdp.TrainingException

    def execute(self, x):
        if self.training and self.phase == 0 and not self.started:
            while True:
                e = self.train(x)
                if e:
                    return e
                if self.n - self.phase == 1:
                    break
                self.stop()
        e = self.close() or self.input(x)
        if e:
            return e
        if self.o is None:
            self.set_dim('o', self.i)
        self.log.append(('execute', x.shape, self.t))

    def inverse(self, y):
        if not self.invertible:
            return mdp.IsNotInvertibleException
        e = self.close()
        if e:
            return e
        if self.o is None:
            if self.i is None:
                return mdp.NodeException
            self.set_dim('o', self.i)
        if y.ndim != 2 or y.shape[1] != self.o:
            return mdp.NodeException
        self.log.append(('inverse', y.shape, self.t))


dim = st.one_of(st.none(), st.integers(1, 3))
arr = st.tuples(st.sampled_from([0, 1, 1, 2, 5]), st.integers(1, 3), st.sampled_from(DTYPES[:3] + ['f8', 'f8']), st.sampled_from([2, 2, 2, 2, 2, 1, 3]))
mops = st.one_of(st.tuples(st.sampled_from(['train', 'train', 'train', 'execute', 'execute', 'inverse']), arr), st.tuples(st.just('stop'), st.none()),
                 st.tuples(st.sampled_from(['set_in', 'set_out']), dim), st.tuples(st.just('set_t'), st.one_of(st.none(), st.sampled_from(DTYPES))))


@sub(st.fixed_dictionaries({
    'phases': st.integers(0, 4), 'preserve': st.booleans(), 'inv': st.booleans(), 'types': st.sampled_from([['f4', 'f8'], ['f8'], ['f4'], ['f8', 'i4', 'i8'], ['f4', 'f8', 'c16']]),
    'ctor': st.tuples(dim, dim, st.one_of(st.none(), st.none(), st.sampled_from(DTYPES))), 'ops': st.lists(mops, min_size=1, max_size=14)}),
    quick=2500, thorough=60000, shards=4, rule="a refused and an accepted call")
def model_node(case, ctx):
    """Nodes of the user with any number of phases: every call is accepted or refused as documented, and a refused one leaves no trace."""
    types = [np.dtype(t) for t in case['types']]
    cls = make(case['phases'], case['preserve'], case['inv'], case['types'])
    m = Model(case['phases'], case['preserve'], case['inv'], types)
    i, o, t = case['ctor']
    bad = m.set_dim('i', i) or m.set_dim('o', o) or m.set_t(t)
    if bad:
        raises(bad, lambda: cls(input_dim=i, output_dim=o, dtype=t), "constructor with %s" % (case['ctor'],))
        return
    nd = cls(input_dim=i, output_dim=o, dtype=t)
    nd.log = []
    good = refused = 0
    call = None
    for k, (op, v) in enumerate(case['ops']):
        if op in ('train', 'execute', 'inverse'):
            rows, cols, dt, rank = v
            x = np.arange(1, rows * cols + 1).reshape(rows, cols).astype(dt)
            x = x if rank == 2 else x[:, 0] if rank == 1 else x[None]
            if op == 'inverse' and m.t is None:
                continue     # nothing to cast to yet
            call = lambda: getattr(nd, op)(x)
            e = getattr(m, op)(x)
        elif op == 'stop':
            call, e = nd.stop_training, m.stop()
        elif op == 'set_t':
            call, e = (lambda: setattr(nd, 'dtype', v)), m.set_t(v)
        else:
            name, w = ('input_dim', 'i') if op == 'set_in' else ('output_dim', 'o')
            call, e = (lambda: setattr(nd, name, v)), m.set_dim(w, v)
        if e:
            raises(e, call, "call %d, %s %s" % (k, op, v))
            refused += 1
        else:
            r = call()
            good += 1
            if op == 'execute':
                check(r.shape == (rows, m.o) and str(r.dtype) == str(m.t), "result %s %s", r.shape, r.dtype)
            elif op == 'inverse':
                check(r.shape == (rows, m.i or r.shape[1]), "inverse %s", r.shape)
        got = (nd.input_dim, nd.output_dim, nd.dtype, bool(nd.is_training()), nd.get_remaining_train_phase())
        want = (m.i, m.o, m.t, m.training, m.n - m.phase)
        check(got == want, "after call %d (%s %s, %s): (input dim, output dim, dtype, training, remaining phases) is %s, expected %s", k, op, v, e and e.__name__, got, want)
        check(m.n == 0 or nd.get_current_train_phase() == m.phase, "phase %s, expected %s", nd.get_current_train_phase(), m.phase)
        check(nd.log == m.log, "after call %d (%s %s): the node did %s, expected %s", k, op, v, nd.log, m.log)
    ctx.nontrivial(good > 0 and refused > 0)
