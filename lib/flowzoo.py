"""Small nodes with known behaviour and a generator of random flows."""
import numpy as np
import mdp
from mdp import nodes
from lib import gen
from lib.gen import rs, reseed


class RecBase(mdp.Node):
    """Trainable in `phases` phases; logs everything it sees; affine execution that
    depends on all the training data, their order and their arguments."""

    def __init__(self, phases=1, gain=1.0, input_dim=None, output_dim=None, dtype=None):
        super(RecBase, self).__init__(input_dim, output_dim, dtype)
        self.phases = phases
        self.gain = gain
        self.log = []
        self.acc = 0.
        self.cnt = 0

    def _get_train_seq(self):
        return [(self._mk(i), self._mks(i)) for i in range(self.phases)]

    def _mk(self, i):
        def _train(x, *args):
            self.note(i, x, args)
        return _train

    def _mks(self, i):
        def _stop():
            self.log.append(('stop', i))
        return _stop

    def note(self, i, x, args):
        args = [a for a in args if a is not None]
        self.log.append(('train', i, np.array(x), tuple(np.array(a) for a in args)))
        self.cnt += 1
        self.acc = 0.7 * self.acc + np.tanh(x.mean(axis=0)) * (i + 1) + sum(
            0.1 * np.asarray(a, dtype=float).mean() for a in args)

    def is_invertible(self):
        return True

    def _execute(self, x):
        return x * self.gain + self.acc

    def _inverse(self, y):
        return (y - self.acc) / self.gain

    def __getstate__(self):
        d = super(RecBase, self).__getstate__() if hasattr(mdp.Node, '__getstate__') else self.__dict__
        d = dict(d)
        d.pop('_train_seq', None)
        return d


class Rec0(RecBase):
    def _train(self, x):
        pass


class Rec1(RecBase):
    def _train(self, x, a):
        pass


class Rec2(RecBase):
    def _train(self, x, a, b):
        pass


class RecOpt(RecBase):
    def _train(self, x, a=None):
        pass


class RecOpts(RecBase):
    def _train(self, x, a=None, b=None, c=None):
        pass


class Affine(mdp.Node):
    """Not trainable, invertible."""

    def __init__(self, a, b, input_dim=None, output_dim=None, dtype=None):
        super(Affine, self).__init__(input_dim, output_dim, dtype)
        self.a, self.b = a, b

    def is_trainable(self):
        return False

    def _execute(self, x):
        return x * self.a + self.b

    def _inverse(self, y):
        return (y - self.b) / self.a


# kind -> (builder(d, rng) -> factory, number of extra args, phases, output dim, invertible)
def z_rec(d, rng, **kw):
    na = kw.get('na', rng.randint(3))
    ph = kw.get('ph', rng.randint(1, 4) if rng.rand() < .8 else rng.randint(4, 7))
    cls = (Rec0, Rec1, Rec2)[na]
    g = 0.5 + rng.rand()
    return (lambda: cls(ph, g)), ['num'] * na, ph, d, True


def z_recopt(d, rng):
    ph = rng.randint(1, 3)
    if rng.rand() < .4:
        return (lambda: RecOpts(ph)), ['num'] * rng.randint(4), ph, d, True
    use = rng.randint(2)
    return (lambda: RecOpt(ph)), ['num'] * use, ph, d, True


def z_affine(d, rng):
    a, b = 0.5 + rng.rand(), rng.normal()
    return (lambda: Affine(a, b)), None, 0, d, True


def z_pca(d, rng):
    od = [None, d, rng.randint(1, d + 1)][rng.randint(3)]
    return (lambda: nodes.PCANode(output_dim=od)), [], 1, od or d, True


def z_white(d, rng):
    return (lambda: nodes.WhiteningNode(svd=True)), [], 1, d, True


def z_norm(d, rng):
    return (lambda: nodes.NormalizeNode()), [], 1, d, False


def z_sfa(d, rng):
    return (lambda: nodes.SFANode()), [], 1, d, True


def z_quad(d, rng):
    if d > 4:
        return z_affine(d, rng)
    return (lambda: nodes.QuadraticExpansionNode()), None, 0, d + d * (d + 1) // 2, False


def z_cut(d, rng):
    lo = -rng.rand()
    return (lambda: nodes.CutoffNode(lo, 1.)), None, 0, d, False


def z_id(d, rng):
    return (lambda: nodes.IdentityNode()), None, 0, d, True


def z_fda(d, rng):
    k = min(d, 2)
    return (lambda: nodes.FDANode(output_dim=k)), ['lab'], 2, k, True


def z_reg(d, rng):
    return (lambda: nodes.LinearRegressionNode(use_pinv=True)), ['tgt'], 1, 2, False


def z_cls(d, rng):
    return (lambda: nodes.NearestMeanClassifier()), ['lab'], 1, d, False


def z_hit(d, rng):
    return (lambda: nodes.HitParadeNode(2, 1)), [], 1, d, False


def z_hist(d, rng):
    return (lambda: nodes.AdaptiveCutoffNode(0.1, 0.1)), [], 1, d, False


def z_frames(d, rng):
    if d > 3:
        return z_id(d, rng)
    return (lambda: nodes.TimeFramesNode(2)), None, 0, 2 * d, False


def z_delay(d, rng):
    if d > 3:
        return z_id(d, rng)
    return (lambda: nodes.TimeDelayNode(2)), None, 0, 2 * d, False


def z_switch(d, rng):
    p = rng.permutation(d)
    return (lambda: mdp.hinet.Switchboard(input_dim=d, connections=p)), None, 0, d, True


def z_layer(d, rng):
    if d < 2:
        return z_id(d, rng)
    k = rng.randint(1, d)
    return (lambda: mdp.hinet.Layer([nodes.PCANode(input_dim=k, output_dim=k), nodes.IdentityNode(input_dim=d - k)])), [], 1, d, False


def z_flownode(d, rng):
    return (lambda: mdp.hinet.FlowNode(mdp.Flow([nodes.PCANode(input_dim=d), nodes.SFANode(input_dim=d)]))), [], 2, d, True


ZOO = {f.__name__[2:]: f for f in (z_rec, z_recopt, z_affine, z_pca, z_white, z_norm, z_sfa, z_quad, z_cut, z_id, z_fda,
                                    z_reg, z_cls, z_hit, z_hist, z_frames, z_delay, z_switch, z_layer, z_flownode)}
INV = ['rec', 'recopt', 'affine', 'pca', 'white', 'sfa', 'id', 'switch', 'flownode']
# nodes whose training phase accepts any data
LIGHT = ['rec', 'rec', 'recopt', 'affine', 'pca', 'norm', 'quad', 'cut', 'id', 'switch', 'cls', 'reg', 'hit', 'flownode']


class Part(object):
    def __init__(self, kind, d, rng, **kw):
        self.kind = kind
        self.new, args, self.phases, self.dout, self.inv = ZOO[kind](d, rng, **kw)
        self.trainable = args is not None
        self.args = args or []
        self.d = d


def parts(kinds, d, seed):
    res = []
    for i, k in enumerate(kinds):
        p = Part(k, d, rs(seed, i, 5))
        if p.dout > 16:
            p = Part('id', d, rs(seed, i, 5))
        res.append(p)
        d = p.dout
    return res


def signal(rng, n, d):
    t = np.arange(n)
    x = np.array([np.sin(t * (0.11 + 0.23 * i + 0.05 * rng.rand()) + 6 * rng.rand()) for i in range(d)]).T
    return (x + 0.2 * rng.normal(size=(n, d))).dot(gen.rot(rng, d)) + rng.normal(size=d)


def args_for(p, n, rng):
    res = []
    for a in p.args:
        if a == 'lab':
            l = np.arange(n) % 2
            res.append(l)
        elif a == 'tgt':
            res.append(rng.normal(size=(n, 2)))
        else:
            res.append(rng.normal(size=(n, 1)))
    return res


def manual_train(nds, prts, data, upto=None):
    """Train the nodes one after the other by hand.  data[i]: list of (x, args).
    Nodes that are not in training are skipped."""
    for i, nd in enumerate(nds):
        if not nd.is_training() or data[i] is None:
            continue
        while True:
            for x, args in data[i]:
                for m in nds[:i]:
                    x = m.execute(x)
                nd.train(x, *args)
            nd.stop_training()
            if not nd.is_training():
                break
    return nds


class Restart(object):
    """An iterable made of a generator."""

    def __init__(self, items):
        self.items = items

    def __iter__(self):
        for x in self.items:
            yield x


class Iter(object):
    """An iterator object (one-shot)."""

    def __init__(self, items):
        self.it = iter(items)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)
    next = __next__


def gener(items):
    for x in items:
        yield x


SRC = {'list': list, 'tuple': tuple, 'restart': Restart, 'gen': gener, 'iter': iter, 'iterobj': Iter,
       'map': lambda l: map(lambda v: v, l)}
ONESHOT = ('gen', 'iter', 'iterobj', 'map')


def source(kind, p, chunks, aslist):
    """Chunks as the flow wants them."""
    items = []
    for x, args in chunks:
        if args or aslist == 'seq':
            items.append([x] + list(args) if aslist == 'list' else (x,) + tuple(args))
        else:
            items.append(x)
    if kind in ONESHOT and p is not None and p.trainable and p.phases > 1:
        kind = 'restart'
    return SRC[kind](items)


def mkdata(ps, rng, common, d):
    """per node list of (x, args); different data for the nodes unless common."""
    data = []
    base = signal(rng, rng.randint(40, 90), d)
    # sometimes many chunks
    more = np.random.RandomState(int(abs(base[0, 0]) * 1e6) % 99991).randint(12) == 0
    if more:
        base = signal(rng, 1400, d)
    for p in ps:
        x = base if common else signal(rng, 1400 if more else rng.randint(40, 90), d)
        sizes = gen.cuts(rng, len(x), 60 if more else rng.randint(1, 5), 18)
        data.append([(c, args_for(p, len(c), rng)) for c in gen.split(x, sizes)])
    return data
