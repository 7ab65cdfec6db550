"""Table of node classes with their input domains; used by the cross-cutting
properties (life cycle, purity, chunking, row independence, copying, ...)."""
import numpy as np
import mdp
from mdp import nodes
from lib import gen
from lib.gen import rs


class Cfg(object):
    """One configured node: .new(**kw), .train_x(n, salt), .exec_x(n, salt), .targs(x, salt), .eargs"""

    def __init__(self, new, d, data, targs=None, eargs=None, outputs=None, extra=None):
        self._new, self.d, self._data = new, d, data
        self._targs, self._eargs = targs, eargs
        self._outputs = outputs
        self.extra = extra or {}

    def new(self, **kw):
        return self._new(**kw)

    def data(self, n, salt=0, dtype=None):
        x = self._data(n, salt)
        if dtype is not None:
            x = x.astype(dtype)
        return x

    def targs(self, x, salt=0):
        return [] if self._targs is None else list(self._targs(x, salt))

    def eargs(self, x, salt=0):
        return [] if self._eargs is None else list(self._eargs(x, salt))

    def outputs(self, node, x, salt=0):
        """All the observable results of a trained node on x (list of arrays)."""
        res = [np.array(node.execute(x, *self.eargs(x, salt)))]
        if self._outputs is not None:
            res.extend(np.array(r) for r in self._outputs(node, x))
        return res


class Entry(object):
    def __init__(self, name, build, **fl):
        self.name = name
        self.build = build
        self.trainable = fl.pop('trainable', True)
        self.phases = fl.pop('phases', 1)
        self.rowwise = fl.pop('rowwise', True)        # execute row independent
        self.incremental = fl.pop('incremental', True)  # chunked == batch
        self.min_chunk = fl.pop('min_chunk', 1)
        self.order_free = fl.pop('order_free', False)
        self.invertible = fl.pop('invertible', False)
        self.sign = fl.pop('sign', False)             # output defined up to column signs
        self.stochastic = fl.pop('stochastic', False)   # execution uses random numbers
        self.rng_train = fl.pop('rng_train', False)     # training uses random numbers
        self.stateful = fl.pop('stateful', False)     # execution changes the node
        self.n = fl.pop('n', 40)                      # default training rows
        self.dmin, self.dmax = fl.pop('d', (2, 5))
        self.tol = fl.pop('tol', 1e-7)
        self.f32 = fl.pop('f32', True)                # usable with float32 in generic tests
        self.same_rows = fl.pop('same_rows', True)    # output rows == input rows
        self.supervised = fl.pop('supervised', False)
        self.weight = fl.pop('weight', 1)             # relative cost
        self.label_outputs = fl.pop('label_outputs', False)
        self.parallel = fl.pop('parallel', False)
        self.picklable = fl.pop('picklable', True)
        self.online = fl.pop('online', False)
        self.one_row = fl.pop('one_row', False)       # executes one row at a time
        assert not fl, fl

    def cfg(self, seed):
        rng = rs(seed, 77)
        d = rng.randint(self.dmin, self.dmax + 1)
        return self.build(rng, d, seed)

    def rows(self, n):
        return 1 if self.one_row else n

    def train(self, node, cfg, x, salt=0, sizes=None, upto=None, targs=None):
        """Run all the phases; leaves the last phase closed."""
        if not self.trainable:
            return node
        if targs is None:
            targs = cfg.targs(x, salt)
        sizes = sizes or [len(x)]
        for ph in range(self.phases):
            if not node.is_training():
                break
            i = 0
            for s in sizes:
                a = [t[i:i + s] if isinstance(t, (np.ndarray, list)) and len(t) == len(x) else t
                     for t in targs]
                node.train(x[i:i + s], *a)
                i += s
            node.stop_training()
        return node


TAB = {}


def add(name, **fl):
    def deco(f):
        TAB[name] = Entry(name, f, **fl)
        return f
    return deco


def _dat(kind, seed, d, **kw):
    """data(n, salt): the training distribution for salt 0; other salts: new samples
    from the same mixing."""
    fn = {'spec': gen.spectral, 'slow': gen.slow}.get(kind)
    if kind == 'normal':
        def f(n, salt):
            return rs(seed, salt, 3).normal(size=(n, d)) * kw.get('scale', 1.) + kw.get('mean', 0.)
        return f
    if kind == 'uniform':
        def f(n, salt):
            return rs(seed, salt, 3).uniform(-1, 1, size=(n, d))
        return f
    if kind == 'src':
        a = gen.rot(rs(seed, 5), d) * (0.6 + 0.8 * rs(seed, 6).rand(d))
        m = rs(seed, 8).normal(size=d)

        def f(n, salt):
            return gen.sources(rs(seed, salt, 3), max(n, 60), d)[:n].dot(a) + m
        return f

    def f(n, salt):
        if salt == 0:
            return fn(rs(seed, 3), n, d, **kw)
        r = rs(seed, salt, 4)
        return r.normal(size=(n, d)) * 1.5
    return f


# ---------------------------------------------------------------- simple nodes
@add('IdentityNode', trainable=False, invertible=True)
def _(rng, d, seed):
    return Cfg(lambda **k: nodes.IdentityNode(**k), d, _dat('normal', seed, d))


@add('PCANode', sign=True, order_free=True, invertible=True, parallel=True)
def _(rng, d, seed):
    kw = [dict(), dict(svd=True), dict(reduce=True)][rng.randint(3)]
    od = [None, d, max(1, d - 1)][rng.randint(3)]
    c = Cfg(lambda **k: nodes.PCANode(output_dim=od, **dict(kw, **k)), d, _dat('spec', seed, d))
    c.extra['exact_inverse'] = od in (None, d)
    return c


@add('WhiteningNode', sign=True, order_free=True, invertible=True, parallel=True)
def _(rng, d, seed):
    kw = [dict(), dict(svd=True), dict(reduce=True)][rng.randint(3)]
    od = [None, d, max(1, d - 1)][rng.randint(3)]
    c = Cfg(lambda **k: nodes.WhiteningNode(output_dim=od, **dict(kw, **k)), d, _dat('spec', seed, d))
    c.extra['exact_inverse'] = od in (None, d)
    return c


@add('NIPALSNode', sign=True, order_free=True, invertible=True, tol=1e-3, f32=False)
def _(rng, d, seed):
    c = Cfg(lambda **k: nodes.NIPALSNode(conv=1e-14, **k), d, _dat('spec', seed, d))
    c.extra['exact_inverse'] = True
    return c


@add('SFANode', sign=True, invertible=True, incremental=False, min_chunk=3, n=60, parallel=True)
def _(rng, d, seed):
    od = [None, max(1, d - 1)][rng.randint(2)]
    c = Cfg(lambda **k: nodes.SFANode(output_dim=od, **k), d, _dat('slow', seed, d))
    c.extra['exact_inverse'] = od is None
    return c


@add('SFA2Node', sign=True, incremental=False, min_chunk=3, n=120, d=(2, 3), f32=False, tol=1e-5,
     parallel=True)
def _(rng, d, seed):
    od = [None, d][rng.randint(2)]
    return Cfg(lambda **k: nodes.SFA2Node(output_dim=od, **k), d, _dat('slow', seed, d, noise=0.1))


@add('VartimeSFANode', sign=True, incremental=True, invertible=True, n=60, min_chunk=2)
def _(rng, d, seed):
    c = Cfg(lambda **k: nodes.VartimeSFANode(**k), d, _dat('slow', seed, d))
    c.extra['exact_inverse'] = True
    return c


@add('GSFANode', sign=True, incremental=False, min_chunk=3, n=60, invertible=True)
def _(rng, d, seed):
    od = [None, max(1, d - 1)][rng.randint(2)]
    c = Cfg(lambda **k: nodes.GSFANode(output_dim=od, **k), d, _dat('slow', seed, d))
    c.extra['exact_inverse'] = od is None
    return c


@add('iGSFANode', sign=True, incremental=False, n=60, f32=False, invertible=True)
def _(rng, d, seed):
    c = Cfg(lambda **k: nodes.iGSFANode(**k), d, _dat('slow', seed, d))
    c.extra['exact_inverse'] = False
    return c


# ---------------------------------------------------------------- ICA
def _ica(name, cls, **kw0):
    fl = dict(sign=False, invertible=True, n=400, d=(2, 3), tol=1e-5, f32=False, weight=4)
    fl.update(kw0.pop('fl', {}))

    @add(name, **fl)
    def _(rng, d, seed):
        c = Cfg(lambda **k: getattr(nodes, name)(**dict(kw0, **k)), d, _dat(kw0.get('_d', 'src'), seed, d))
        c.extra['exact_inverse'] = True
        return c


_ica('CuBICANode', nodes.CuBICANode)
_ica('FastICANode', nodes.FastICANode, fl=dict(rng_train=True), approach='symm', g='tanh', fine_g=None, limit=1e-4)
_ica('JADENode', nodes.JADENode)


@add('TDSEPNode', incremental=False, invertible=True, n=300, d=(2, 3), tol=1e-5, f32=False, weight=4, min_chunk=6)
def _(rng, d, seed):
    c = Cfg(lambda **k: nodes.TDSEPNode(lags=4, **k), d, _dat('slow', seed, d, noise=0.05))
    c.extra['exact_inverse'] = True
    return c


@add('ISFANode', n=300, d=(2, 3), tol=1e-5, f32=False, weight=4, sign=True, incremental=False, min_chunk=8)
def _(rng, d, seed):
    return Cfg(lambda **k: nodes.ISFANode(lags=2, **k), d, _dat('slow', seed, d, noise=0.05))


@add('XSFANode', phases=20, n=200, d=(2, 2), f32=False, tol=1e-5, weight=4, sign=True, incremental=False,
     min_chunk=8)
def _(rng, d, seed):
    P = nodes.PolynomialExpansionNode
    return Cfg(lambda **k: nodes.XSFANode(basic_exp=(P, (1,), {}), intern_exp=(P, (1,), {}), svd=True,
                                          output_dim=1, **k),
               d, _dat('slow', seed, d, noise=0.05))


@add('NormalizeNode', order_free=True, n=30)
def _(rng, d, seed):
    return Cfg(lambda **k: nodes.NormalizeNode(**k), d, _dat('normal', seed, d, scale=2., mean=1.))


# ---------------------------------------------------------------- linear models
@add('FANode', rng_train=True, n=60, tol=1e-5, f32=False, invertible=True, parallel=True)
def _(rng, d, seed):
    c = Cfg(lambda **k: nodes.FANode(output_dim=max(1, d - 1), max_cycles=30, **k), d, _dat('spec', seed, d))
    c.extra['exact_inverse'] = False
    return c


def _lab(seed, kinds=('int',)):
    def f(x, salt):
        r = rs(seed, salt, 21)
        # class by position so that every class is populated
        l = r.randint(0, 3, size=len(x))
        l[:3] = [0, 1, 2][:len(x)]
        return [l]
    return f


def _clsdata(seed, d, nc=3, sep=4.):
    cen = rs(seed, 31).normal(size=(nc, d)) * sep

    def data(n, salt):
        r = rs(seed, salt, 33)
        l = np.arange(n) % nc
        x = cen[l] + r.normal(size=(n, d))
        return x

    def lab(x, salt):
        return [np.arange(len(x)) % nc]
    return data, lab


@add('FDANode', phases=2, sign=True, order_free=True, supervised=True, n=45, d=(2, 5), parallel=True)
def _(rng, d, seed):
    data, lab = _clsdata(seed, d, 3, 2.)
    od = min(2, d)
    return Cfg(lambda **k: nodes.FDANode(output_dim=od, **k), d, data, lab)


@add('LinearRegressionNode', order_free=True, supervised=True, n=30, parallel=False)
def _(rng, d, seed):
    b = rs(seed, 41).normal(size=(d, 2))
    wb = bool(rng.randint(2))
    up = bool(rng.randint(2))

    def targs(x, salt):
        return [x.dot(b) + 1.5 + 0.1 * rs(seed, salt, 43).normal(size=(len(x), 2))]
    return Cfg(lambda **k: nodes.LinearRegressionNode(with_bias=wb, use_pinv=up, **k), d,
               _dat('spec', seed, d), targs)


# ---------------------------------------------------------------- expansions
@add('PolynomialExpansionNode', trainable=False)
def _(rng, d, seed):
    g = rng.randint(1, 4)
    return Cfg(lambda **k: nodes.PolynomialExpansionNode(g, **k), d, _dat('normal', seed, d))


@add('QuadraticExpansionNode', trainable=False)
def _(rng, d, seed):
    return Cfg(lambda **k: nodes.QuadraticExpansionNode(**k), d, _dat('normal', seed, d))


@add('RBFExpansionNode', trainable=False, f32=False)
def _(rng, d, seed):
    c = rs(seed, 9).normal(size=(3, d))
    s = 0.5 + rs(seed, 10).rand(3)
    return Cfg(lambda **k: nodes.RBFExpansionNode(c.tolist(), s.tolist(),
                                                  **{a: b for a, b in k.items() if a != 'input_dim'}),
               d, _dat('normal', seed, d))


def f_id(x):
    return x


def f_sq(x):
    return x ** 2


def f_pair(x):
    return np.concatenate([x[:, :1] * x[:, -1:], np.abs(x)], axis=1)


@add('GeneralExpansionNode', trainable=False)
def _(rng, d, seed):
    return Cfg(lambda **k: nodes.GeneralExpansionNode([f_id, f_sq, f_pair], **k), d, _dat('normal', seed, d))


@add('GrowingNeuralGasExpansionNode', rng_train=True, n=60, f32=False, weight=2)
def _(rng, d, seed):
    return Cfg(lambda **k: nodes.GrowingNeuralGasExpansionNode(max_nodes=4, lambda_=12, **k), d,
               _dat('normal', seed, d))


_RECF = ['standard_poly', 'legendre_poly', 'chebyshev_poly', 'legendre_rational']


@add('RecursiveExpansionNode', trainable=False, d=(1, 3), f32=False)
def _(rng, d, seed):
    recf = _RECF[rng.randint(len(_RECF) - 1)]
    g = rng.randint(2, 5)
    w0 = bool(rng.randint(2))
    base = _dat('uniform', seed, d)
    data = (lambda n, salt: np.abs(base(n, salt))) if recf == 'legendre_rational' else base
    return Cfg(lambda **k: nodes.RecursiveExpansionNode(g, recf, with0=w0, **k), d, data)


@add('NormalizingRecursiveExpansionNode', order_free=True, d=(1, 3), f32=False)
def _(rng, d, seed):
    recf = _RECF[rng.randint(len(_RECF) - 1)]
    g = rng.randint(2, 4)
    base = _dat('uniform', seed, d)

    def data(n, salt):
        # training covers the range of the later data
        x = base(n, salt)
        if salt == 0:
            x = x.copy()
            x[0] = -1.25
            x[-1] = 1.5
        return x
    return Cfg(lambda **k: nodes.NormalizingRecursiveExpansionNode(g, recf, check=False, **k), d, data)


# ---------------------------------------------------------------- classifiers
@add('GaussianClassifier', order_free=True, supervised=True, d=(1, 3), n=45, label_outputs=True, f32=False,
     parallel=True)
def _(rng, d, seed):
    data, lab = _clsdata(seed, d, 3, 1.5)
    return Cfg(lambda **k: nodes.GaussianClassifier(**k), d, data, lab,
               outputs=lambda nd, x: [nd.label(x), nd.class_probabilities(x)])


@add('NearestMeanClassifier', order_free=True, supervised=True, d=(1, 4), label_outputs=True, parallel=True)
def _(rng, d, seed):
    data, lab = _clsdata(seed, d, 3, 1.5)
    return Cfg(lambda **k: nodes.NearestMeanClassifier(**k), d, data, lab,
               outputs=lambda nd, x: [nd.label(x)])


@add('KNNClassifier', order_free=True, supervised=True, d=(1, 4), label_outputs=True, parallel=True)
def _(rng, d, seed):
    data, lab = _clsdata(seed, d, 3, 1.5)
    k0 = 1   # larger k: ties between classes are broken arbitrarily
    return Cfg(lambda **k: nodes.KNNClassifier(k=k0, **k), d, data, lab,
               outputs=lambda nd, x: [nd.label(x)])


@add('PerceptronClassifier', supervised=True, d=(1, 4), label_outputs=True)
def _(rng, d, seed):
    data, _l = _clsdata(seed, d, 2, 1.0)
    return Cfg(lambda **k: nodes.PerceptronClassifier(**k), d, data,
               lambda x, salt: [np.where(np.arange(len(x)) % 2, 1, -1)],
               outputs=lambda nd, x: [nd.label(x)])


@add('SimpleMarkovClassifier', supervised=True, order_free=True, d=(1, 2), label_outputs=True, f32=False)
def _(rng, d, seed):
    def data(n, salt):
        return rs(seed, salt, 3).randint(0, 3, size=(n, d)).astype('d')
    def known(nd, x):
        ks = set(tuple(f) for f in nd.features.keys())
        keep = [i for i in range(len(x)) if tuple(x[i]) in ks]
        return [[tuple(sorted(p.items())) for p in nd.prob(x[keep])]] if keep else []
    return Cfg(lambda **k: nodes.SimpleMarkovClassifier(**k), d, data,
               lambda x, salt: [rs(seed, salt, 4).randint(0, 2, size=len(x))])


@add('DiscreteHopfieldClassifier', d=(4, 6), n=3, f32=False, order_free=True, label_outputs=True)
def _(rng, d, seed):
    def data(n, salt):
        return (rs(seed, salt, 3).rand(n, d) > 0.5)
    return Cfg(lambda **k: nodes.DiscreteHopfieldClassifier(**k), d, data)


@add('KMeansClassifier', d=(1, 3), n=30, rng_train=True, label_outputs=True)
def _(rng, d, seed):
    data, lab = _clsdata(seed, d, 3, 6.)
    return Cfg(lambda **k: nodes.KMeansClassifier(2, **k), d, data, outputs=lambda nd, x: [nd.label(x)])


@add('SignumClassifier', trainable=False, label_outputs=True)
def _(rng, d, seed):
    return Cfg(lambda **k: nodes.SignumClassifier(**k), d, _dat('normal', seed, d),
               outputs=lambda nd, x: [nd.label(x)])


if hasattr(nodes, 'LibSVMClassifier'):
    @add('LibSVMClassifier', supervised=True, d=(2, 3), label_outputs=True, f32=False, picklable=False, weight=2)
    def _(rng, d, seed):
        data, lab = _clsdata(seed, d, 2, 2.)
        return Cfg(lambda **k: nodes.LibSVMClassifier("LINEAR", "C_SVC", probability=False, **k), d, data, lab,
                   outputs=lambda nd, x: [nd.label(x)])


# ---------------------------------------------------------------- misc
@add('CutoffNode', trainable=False)
def _(rng, d, seed):
    lo = [None, -0.5][rng.randint(2)]
    hi = [None, 0.7][rng.randint(2)]
    return Cfg(lambda **k: nodes.CutoffNode(lo, hi, **k), d, _dat('normal', seed, d))


@add('AdaptiveCutoffNode', order_free=True, n=30)
def _(rng, d, seed):
    return Cfg(lambda **k: nodes.AdaptiveCutoffNode(0.1, 0.1, **k), d, _dat('normal', seed, d))


@add('HistogramNode', order_free=True)
def _(rng, d, seed):
    return Cfg(lambda **k: nodes.HistogramNode(**k), d, _dat('normal', seed, d))


@add('NormalNoiseNode', trainable=False, stochastic=True, rowwise=False)
def _(rng, d, seed):
    return Cfg(lambda **k: nodes.NormalNoiseNode(**k), d, _dat('normal', seed, d))


def f_noise(loc=0., scale=1., size=None):
    # a bound method of numpy's generator would be copied together with its state
    return np.random.normal(loc, scale, size)


@add('NoiseNode', trainable=False, stochastic=True, rowwise=False)
def _(rng, d, seed):
    t = ['additive', 'multiplicative'][rng.randint(2)]
    return Cfg(lambda **k: nodes.NoiseNode(noise_func=f_noise, noise_args=(0., 1.), noise_type=t, **k), d, _dat('normal', seed, d))


@add('EtaComputerNode', incremental=False, min_chunk=3)
def _(rng, d, seed):
    return Cfg(lambda **k: nodes.EtaComputerNode(**k), d, _dat('slow', seed, d),
               outputs=lambda nd, x: [nd.get_eta(t=1)])


@add('HitParadeNode', n=40)
def _(rng, d, seed):
    return Cfg(lambda **k: nodes.HitParadeNode(3, 2, **k), d, _dat('normal', seed, d),
               outputs=lambda nd, x: list(nd.get_maxima()) + list(nd.get_minima()))


@add('TimeFramesNode', trainable=False, rowwise=False, same_rows=False)
def _(rng, d, seed):
    f, g = rng.randint(1, 4), rng.randint(1, 3)
    return Cfg(lambda **k: nodes.TimeFramesNode(f, g, **k), d, _dat('normal', seed, d))


@add('TimeDelayNode', trainable=False, rowwise=False)
def _(rng, d, seed):
    f, g = rng.randint(1, 4), rng.randint(1, 3)
    return Cfg(lambda **k: nodes.TimeDelayNode(f, g, **k), d, _dat('normal', seed, d))


@add('TimeDelaySlidingWindowNode', trainable=False, rowwise=False, stateful=True, one_row=True)
def _(rng, d, seed):
    f, g = rng.randint(1, 4), rng.randint(1, 3)
    return Cfg(lambda **k: nodes.TimeDelaySlidingWindowNode(f, g, **k), d, _dat('normal', seed, d))


@add('GrowingNeuralGasNode', rng_train=True, n=60, f32=False, weight=2, d=(1, 3))
def _(rng, d, seed):
    return Cfg(lambda **k: nodes.GrowingNeuralGasNode(max_nodes=5, lambda_=10, **k), d,
               _dat('normal', seed, d),
               outputs=lambda nd, x: [nd.get_nodes_position()])


@add('NeuralGasNode', incremental=False, rng_train=True, n=20, f32=False, weight=2, d=(1, 3))
def _(rng, d, seed):
    return Cfg(lambda **k: nodes.NeuralGasNode(num_nodes=3, max_epochs=3, **k), d,
               _dat('normal', seed, d), outputs=lambda nd, x: [nd.get_nodes_position()])


@add('RBMNode', rng_train=True, stochastic=True, incremental=False, rowwise=False, d=(3, 5), n=12, f32=False)
def _(rng, d, seed):
    return Cfg(lambda **k: nodes.RBMNode(3, d, **{a: b for a, b in k.items() if a != 'input_dim'}), d,
               lambda n, salt: (rs(seed, salt, 3).rand(n, d) > 0.5).astype('d'))


@add('RBMWithLabelsNode', rng_train=True, stochastic=True, incremental=False, rowwise=False, d=(3, 5), n=12,
     supervised=True, f32=False)
def _(rng, d, seed):
    def lab(x, salt):
        return [np.eye(2)[np.arange(len(x)) % 2]]
    return Cfg(lambda **k: nodes.RBMWithLabelsNode(3, 2, d, **{a: b for a, b in k.items() if a != 'input_dim'}), d,
               lambda n, salt: (rs(seed, salt, 3).rand(n, d) > 0.5).astype('d'), lab, lab)


@add('LLENode', n=30, d=(3, 3), f32=False, tol=1e-5, sign=True, weight=3)
def _(rng, d, seed):
    return Cfg(lambda **k: nodes.LLENode(5, r=1e-3, output_dim=2, svd=False, **k), d, _dat('normal', seed, d))


@add('HLLENode', n=40, d=(3, 3), f32=False, tol=1e-5, sign=True, weight=3)
def _(rng, d, seed):
    return Cfg(lambda **k: nodes.HLLENode(8, r=1e-3, output_dim=2, **k), d, _dat('normal', seed, d))


try:
    from mdp.nodes.convolution_nodes import Convolution2DNode

    @add('Convolution2DNode', trainable=False, d=(6, 6), f32=False)
    def _(rng, d, seed):
        f = rs(seed, 5).normal(size=(2, 2, 2))
        ap = ['linear', 'fft'][rng.randint(2)]
        return Cfg(lambda **k: Convolution2DNode(f, (2, 3), approach=ap, **k), d, _dat('normal', seed, d))
except ImportError:
    pass


# ---------------------------------------------------------------- online
@add('OnlineCenteringNode', online=True)
def _(rng, d, seed):
    return Cfg(lambda **k: nodes.OnlineCenteringNode(avg_n=[None, 5][rng_i(seed) % 2], **k), d,
               _dat('normal', seed, d))


def rng_i(seed):
    return int(seed) // 7


@add('OnlineTimeDiffNode', online=True, rowwise=False)
def _(rng, d, seed):
    return Cfg(lambda **k: nodes.OnlineTimeDiffNode(**k), d, _dat('normal', seed, d))


def _rng0():
    return np.random.RandomState(11)


@add('CCIPCANode', online=True, invertible=False, f32=False)
def _(rng, d, seed):
    return Cfg(lambda **k: nodes.CCIPCANode(numx_rng=_rng0(), **k), d, _dat('normal', seed, d))


@add('CCIPCAWhiteningNode', online=True, f32=False)
def _(rng, d, seed):
    return Cfg(lambda **k: nodes.CCIPCAWhiteningNode(numx_rng=_rng0(), **k), d, _dat('normal', seed, d))


@add('MCANode', online=True, f32=False)
def _(rng, d, seed):
    return Cfg(lambda **k: nodes.MCANode(numx_rng=_rng0(), output_dim=max(1, d - 1), eps=0.01, **k), d,
               _dat('normal', seed, d))


@add('IncSFANode', online=True, f32=False, n=30, d=(2, 3))
def _(rng, d, seed):
    return Cfg(lambda **k: nodes.IncSFANode(numx_rng=_rng0(), output_dim=max(1, d - 1), **k), d,
               _dat('normal', seed, d))


NAMES = sorted(TAB)
