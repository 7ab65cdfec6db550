"""Layers, clone layers, same-input layers and flow-nodes equal their unrolled computation."""
import numpy as np
import mdp
from mdp import nodes, hinet
from lib.harness import sub, check, close, st, raises
from lib import gen
from lib.gen import seeds, rs
from lib.flowzoo import RecOpt, Affine


class Gain(mdp.Node):
    """Execution and inversion take an additional argument; remembers the arguments."""

    def __init__(self, g, **kw):
        super(Gain, self).__init__(**kw)
        self.g = g
        self.seen = []

    def is_trainable(self):
        return False

    def _execute(self, x, shift=0., scale=1.):
        self.seen.append((np.shape(shift), scale))
        return x * self.g * scale + shift

    def _inverse(self, y, shift=0., scale=1.):
        return (y - shift) / (self.g * scale)


# ------------------------------------------------------------------ reference
class RLeaf(object):
    def __init__(self, node):
        self.node = node

    def training(self):
        return self.node.is_training()

    def remaining(self):
        return self.node.get_remaining_train_phase() if self.node.is_training() else 0

    def train(self, x, *a):
        self.node.train(np.array(x), *a)

    def stop(self):
        self.node.stop_training()

    def ex(self, x, *a, **k):
        return np.array(self.node.execute(np.array(x), *a, **k))

    def inv(self, y, *a, **k):
        return np.array(self.node.inverse(np.array(y), *a, **k))

    def invertible(self):
        return self.node.is_invertible()

    def dims(self):
        return self.node.input_dim, self.node.output_dim

    def leaves(self):
        return [self.node]


class RPar(object):
    """All the horizontal composites; `kids` may contain the same object repeatedly."""

    def __init__(self, kids, same, widths, outs):
        self.kids, self.same, self.widths, self.outs = kids, same, widths, outs

    def uniq(self):
        res = []
        for k in self.kids:
            if not any(k is r for r in res):
                res.append(k)
        return res

    def training(self):
        return any(k.training() for k in self.kids)

    def remaining(self):
        return max(k.remaining() for k in self.kids)

    def parts(self, x, widths):
        i = 0
        for w in widths:
            yield x[:, i:i + w]
            i += w

    def ins(self, x):
        return [x] * len(self.kids) if self.same else list(self.parts(x, self.widths))

    def train(self, x, *a):
        for k, p in zip(self.kids, self.ins(x)):
            if k.training():
                k.train(p, *a)

    def stop(self):
        for k in self.uniq():
            if k.training():
                k.stop()

    def ex(self, x, *a, **kw):
        return np.concatenate([k.ex(p, *a, **kw) for k, p in zip(self.kids, self.ins(x))], axis=1)

    def inv(self, y, *a, **kw):
        return np.concatenate([k.inv(p, *a, **kw) for k, p in zip(self.kids, self.parts(y, self.outs))], axis=1)

    def invertible(self):
        return not self.same and all(k.invertible() for k in self.kids)

    def leaves(self):
        return [n for k in self.uniq() for n in k.leaves()]


class RSeq(object):
    def __init__(self, kids):
        self.kids = kids

    def training(self):
        return any(k.training() for k in self.kids)

    def remaining(self):
        return sum(k.remaining() for k in self.kids)

    def train(self, x, *a):
        for k in self.kids:
            if k.training():
                k.train(x, *a)
                return
            x = k.ex(x)

    def stop(self):
        for k in self.kids:
            if k.training():
                k.stop()
                return

    def ex(self, x, nodenr=None):
        for i, k in enumerate(self.kids):
            x = k.ex(x)
            if i == nodenr:
                break
        return x

    def inv(self, y):
        for k in self.kids[::-1]:
            y = k.inv(y)
        return y

    def invertible(self):
        return all(k.invertible() for k in self.kids)

    def leaves(self):
        return [n for k in self.kids for n in k.leaves()]


# ------------------------------------------------------------------ building
leaf = st.sampled_from(['rec', 'rec', 'rec', 'affine', 'quad', 'pca', 'id', 'white', 'cut', 'reduce', 'norm', 'sfa'])
tree = st.recursive(leaf, lambda ch: st.one_of(
    st.tuples(st.just('layer'), st.lists(ch, min_size=1, max_size=3), st.integers(0, 3)),
    st.tuples(st.just('clone'), ch, st.integers(1, 3), st.integers(0, 3)),
    st.tuples(st.just('same'), st.lists(ch, min_size=1, max_size=3), st.integers(0, 3)),
    st.tuples(st.just('flow'), st.lists(ch, min_size=1, max_size=3), st.integers(0, 3))), max_leaves=6).filter(lambda t: not isinstance(t, str))


def mk_leaf(kind, d, rng, needdim, dtype):
    """factory, output dim"""
    kw = {'input_dim': d} if needdim or rng.rand() < 0.3 else {}
    if rng.rand() < 0.5:
        kw['dtype'] = dtype
    if kind == 'rec':
        ph, g = rng.randint(1, 4) if rng.rand() < .85 else rng.randint(4, 7), 0.5 + rng.rand()
        if kw.get('input_dim') and rng.rand() < 0.5:
            kw['output_dim'] = d
        return (lambda: RecOpt(ph, g, **kw)), d
    if kind == 'affine':
        a, b = 0.5 + rng.rand(), rng.normal()
        return (lambda: Affine(a, b, **kw)), d
    if kind == 'quad' and d <= 3:
        return (lambda: nodes.QuadraticExpansionNode(**kw)), d + d * (d + 1) // 2
    if kind == 'pca':
        return (lambda: nodes.PCANode(**kw)), d
    if kind == 'white':
        return (lambda: nodes.WhiteningNode(**kw)), d
    if kind == 'sfa':
        return (lambda: nodes.SFANode(**kw)), d
    if kind == 'norm':
        return (lambda: nodes.NormalizeNode(**kw)), d
    if kind == 'cut':
        lo = -rng.rand() - 0.5
        return (lambda: nodes.CutoffNode(lo, 1.5, **kw)), d
    if kind == 'reduce':
        k = rng.randint(1, d + 1)
        return (lambda: nodes.PCANode(output_dim=k, **kw)), k
    return (lambda: nodes.IdentityNode(**kw)), d


class Build(object):
    """Two equal sets of leaves: one inside the composites, one for the reference."""

    def __init__(self, seed, args, dtype):
        self.rng = rs(seed, 3)
        self.args = args
        self.dtype = dtype
        self.leaves = []
        self.composites = []
        self.count = 0
        self.white = False

    def data(self, n, d):
        return gen.spectral(self.rng, n, d, ratio=1.3).astype(self.dtype)

    def go(self, t, d, needdim):
        """(node, reference, output dim)"""
        self.count += 1
        if isinstance(t, str):
            if self.args and t not in ('affine', 'quad', 'id', 'cut'):
                t = 'rec'
            if t in ('pca', 'white', 'reduce') and self.white:
                # the directions are arbitrary on white data
                t = 'rec'
            self.white |= t in ('white', 'sfa')
            f, o = mk_leaf(t, d, self.rng, needdim, self.dtype)
            a, b = f(), f()
            self.leaves.append((a, b))
            node, ref = a, RLeaf(b)
            pre = self.rng.randint(0, 4) if self.rng.rand() < 0.3 else 0
        else:
            kind, pre = t[0], t[-1]
            if self.rng.rand() < 0.6:
                pre = 0
            if kind == 'layer':
                kids = t[1][:d]
                w = [d // len(kids)] * len(kids)
                for i in range(d - sum(w)):
                    w[i] += 1
                self.rng.shuffle(w)
                w = [int(v) for v in w]
                r = [self.go(k, v, True) for k, v in zip(kids, w)]
                node = hinet.Layer([q[0] for q in r])
                ref = RPar([q[1] for q in r], False, w, [q[2] for q in r])
                o = sum(q[2] for q in r)
            elif kind == 'same':
                r = [self.go(k, d, True) for k in t[1]]
                node = hinet.SameInputLayer([q[0] for q in r])
                ref = RPar([q[1] for q in r], True, None, None)
                o = sum(q[2] for q in r)
            elif kind == 'clone':
                n = t[2]
                while d % n:
                    n -= 1
                q = self.go(t[1], d // n, True)
                node = hinet.CloneLayer(q[0], n_nodes=n)
                ref = RPar([q[1]] * n, False, [d // n] * n, [q[2]] * n)
                o = n * q[2]
            else:
                r = []
                o = d
                for i, k in enumerate(t[1]):
                    h = self.go(k, o, needdim and i == 0)
                    r.append(h)
                    o = h[2]
                kw = {}
                if needdim and r[0][0].input_dim is None:
                    kw['input_dim'] = d
                node = hinet.FlowNode(mdp.Flow([h[0] for h in r]), **kw)
                ref = RSeq([h[1] for h in r])
        # some phases may be over before this node is put into the next one
        for _ in range(pre):
            if ref.training():
                step(node, ref, [self.data(30, d)], self.args, self.rng)
        self.verify(node, ref, d, o)
        if not isinstance(node, mdp.Node) or not isinstance(t, str):
            self.composites.append((node, ref, d, o))
        return node, ref, o

    def verify(self, node, ref, d, o):
        check(node.is_training() == ref.training(), "is_training is %s", node.is_training())
        if ref.training():
            check(node.is_trainable(), "is_trainable is false during training")
        check(node.get_remaining_train_phase() == ref.remaining(), "%s: %d remaining phases, %d by its parts", type(node).__name__,
              node.get_remaining_train_phase(), ref.remaining())
        check(node.is_invertible() == ref.invertible(), "is_invertible is %s", node.is_invertible())
        check(node.input_dim in (None, d), "input_dim %s instead of %s", node.input_dim, d)
        check(node.output_dim in (None, o), "output_dim %s instead of %s", node.output_dim, o)


def step(node, ref, chunks, args, rng):
    """One training phase of both."""
    for c in chunks:
        a = (rng.normal(),) if args and rng.rand() < 0.7 else ()
        c0 = c.copy()
        node.train(c, *a)
        check((c == c0).all(), "training changed its data")
        ref.train(c0, *a)
    if args and False:
        pass
    node.stop_training()
    ref.stop()


class Numeric(Exception):
    pass


def same_leaf(a, b):
    check(a.is_training() == b.is_training() and a.get_remaining_train_phase() == b.get_remaining_train_phase(), "training phase of an inner node")
    if isinstance(a, RecOpt):
        check([(l[0], l[1]) for l in a.log] == [(l[0], l[1]) for l in b.log], "training history of an inner node: %s instead of %s", [l[:2] for l in a.log], [l[:2] for l in b.log])
        for l, m in zip(a.log, b.log):
            if l[0] == 'train':
                check(l[2].shape == m[2].shape, "an inner node was trained with a chunk of shape %s instead of %s", l[2].shape, m[2].shape)
                close(l[2], m[2], 1e-5 if l[2].dtype == np.float32 else 1e-7, "training data of an inner node")
                check(len(l[3]) == len(m[3]) and all(np.array_equal(p, q) for p, q in zip(l[3], m[3])), "training arguments of an inner node")


SING = ('negative eigenvalues', 'singular', 'division by zero', 'covariance matrix', 'not positive')


@sub(st.fixed_dictionaries({'tree': tree, 'd': st.integers(1, 8), 'seed': seeds, 'args': st.booleans(), 'f32': st.sampled_from([False, False, False, True]), 'nchunks': st.integers(1, 3),
                            'auto': st.sampled_from([False, False, False, True]), 'nodenr': st.integers(0, 3), 'copy': st.booleans()}), quick=2500, thorough=60000, shards=8,
     rule="a composite with a trainable inner node was trained and executed")
def nested(case, ctx):
    dtype = 'f' if case['f32'] else 'd'
    b = Build(case['seed'], case['args'], dtype)
    d = case['d']
    try:
        node, ref, o = b.go(case['tree'], d, False)
    except Exception as e:
        if any(s in str(e) for s in SING):
            ctx.label('singular data')
            return
        raise
    if o > 60:
        return
    trained = ref.training()
    rng = rs(case['seed'], 5)
    tol = 2e-3 if case['f32'] else 1e-6
    try:
        if case['auto'] and trained and not any(x.get_current_train_phase() or x._train_phase_started for x in [node]) and not case['args']:
            # execution without training trains all phases with the data
            x = b.data(60, d)
            xin = x.copy()
            got = np.array(node.execute(xin))
            while ref.training():
                ref.train(x)
                ref.stop()
            ctx.label('auto')
        else:
            n = 0
            while ref.training():
                check(node.is_training(), "training is over too early")
                chunks = [b.data(40 + 5 * i, d) for i in range(case['nchunks'])]
                if case['copy'] and n == 1:
                    old = node
                    node = node.copy()
                    b.leaves = []
                step(node, ref, chunks, case['args'], rng)
                n += 1
                check(node.is_training() == ref.training(), "is_training after phase %d is %s", n, node.is_training())
                check(node.get_remaining_train_phase() == ref.remaining(), "%d phases remain after phase %d instead of %d", node.get_remaining_train_phase(), n, ref.remaining())
                check(n < 60, "training does not end")
            raises(mdp.TrainingFinishedException if trained or node.is_trainable() else mdp.IsNotTrainableException, lambda: node.train(b.data(10, d)), "training after the end")
        for p, q in b.leaves:
            same_leaf(p, q)
        for k in range(2):
            x = b.data(1 if k else 25, d)
            want = ref.ex(x)
            x0 = x.copy()
            got = np.array(node.execute(x))
            if np.abs(want).max() > 1e4:
                ctx.label('ill-conditioned')
                return
            check((x == x0).all(), "execution changed its data")
            check(got.shape == (len(x), o), "output shape %s instead of %s", got.shape, (len(x), o))
            close(got, want, tol, "execution")
            check(got.dtype == np.dtype(dtype), "dtype of the output: %s", got.dtype)
        check((node.input_dim, node.output_dim) == (d, o), "dimensions %s instead of %s", (node.input_dim, node.output_dim), (d, o))
        check(str(node.dtype) == str(np.dtype(dtype)), "dtype %s", node.dtype)
        if isinstance(node, hinet.FlowNode) and case['nodenr'] < len(node):
            x = b.data(9, d)
            close(node.execute(x, nodenr=case['nodenr']), ref.ex(x, nodenr=case['nodenr']), tol, "execution up to a node of a flow node")
        check(node.is_invertible() == ref.invertible(), "is_invertible is %s", node.is_invertible())
        y = want if want.shape[0] > 5 else ref.ex(b.data(12, d))
        if ref.invertible():
            close(node.inverse(y), ref.inv(y), tol * 10, "inverse")
        else:
            raises(mdp.IsNotInvertibleException, lambda: node.inverse(y), "inverse of a node that is not invertible")
        raises(mdp.NodeException, lambda: node.execute(b.data(3, d + 1)), "execution with another dimension")
        if case['copy']:
            close(node.copy().execute(x0), want, tol, "copy")
    except Exception as e:
        if any(s in str(e) for s in SING):
            ctx.label('singular data')
            return
        raise
    ctx.label(type(node).__name__)
    ctx.nontrivial(trained)


@sub(st.fixed_dictionaries({'kind': st.sampled_from(['layer', 'clone', 'same']), 'seed': seeds, 'n': st.integers(1, 4), 'w': st.lists(st.integers(1, 4), min_size=4, max_size=4),
                            'scale': st.booleans(), 'shift': st.sampled_from(['number', 'column', 'none']), 'nest': st.booleans()}), quick=200, thorough=5000, rule="more than one inner node")
def exec_args(case, ctx):
    """Additional execution arguments reach every node unaltered."""
    rng = rs(case['seed'])
    n = case['n']
    k = case['kind']
    w = [case['w'][0]] * 4 if k != 'layer' else case['w']
    gs = (0.5 + rng.rand(n)).tolist()
    if k == 'clone':
        gs = [gs[0]] * n
        kids = [Gain(gs[0], input_dim=w[0])]
        node = hinet.CloneLayer(kids[0], n_nodes=n)
    else:
        kids = [Gain(g, input_dim=v) for g, v in zip(gs, w)]
        node = (hinet.Layer if k == 'layer' else hinet.SameInputLayer)(kids)
    ws = w[:n]
    if case['nest'] and k != 'same':
        node = hinet.Layer([node])
    x = rng.normal(size=(7, w[0] if k == 'same' else sum(ws)))
    a, kw = (), {}
    shift, scale = 0., 1.
    if case['shift'] == 'number':
        shift = rng.normal()
        a = (shift,)
    elif case['shift'] == 'column':
        shift = rng.normal(size=(7, 1))
        a = (shift,)
    if case['scale']:
        scale = 2.5
        kw = {'scale': scale}
    i = 0
    want = []
    for g, v in zip(gs, ws):
        p = x if k == 'same' else x[:, i:i + v]
        i += v
        want.append(p * g * scale + shift)
    y = node.execute(x, *a, **kw)
    close(y, np.concatenate(want, axis=1), 1e-12, "execution with arguments")
    if k != 'same':
        close(node.inverse(y, *a, **kw), x, 1e-12, "inverse with arguments")
    close(node.execute(x), np.concatenate([(p - shift) / scale for p in want], axis=1), 1e-12, "execution without arguments")
    ctx.nontrivial(n > 1)


@sub(st.fixed_dictionaries({'kind': st.sampled_from(['dim', 'same', 'dtype', 'dtype2', 'clone', 'supported', 'list', 'late', 'badflow', 'setdim']), 'seed': seeds, 'd': st.integers(1, 5), 'e': st.integers(1, 5), 'n': st.integers(1, 4),
                            'cls': st.sampled_from(['layer', 'same', 'clone'])}), quick=300, thorough=5000, rule="every case", shards=2)
def properties(case, ctx):
    """What composites report about themselves, and compositions they refuse."""
    ctx.nontrivial()
    d, e, n = case['d'], case['e'], case['n']
    k = case['kind']
    cls = {'layer': hinet.Layer, 'same': hinet.SameInputLayer, 'clone': lambda l, **kw: hinet.CloneLayer(l[0], n_nodes=len(l), **kw)}[case['cls']]
    if k == 'dim':
        l = [nodes.IdentityNode(input_dim=d) for _ in range(n)]
        bad = nodes.IdentityNode()
        l.insert(0 if case['cls'] == 'clone' else case['seed'] % (n + 1), bad)
        raises(mdp.NodeException, lambda: cls(l), "a node without input_dim")
    elif k == 'same':
        l = [nodes.IdentityNode(input_dim=d), nodes.IdentityNode(input_dim=e)]
        if d != e:
            raises(mdp.NodeException, lambda: hinet.SameInputLayer(l), "different input dimensions")
        else:
            check(hinet.SameInputLayer(l).input_dim == d, "input_dim")
        check(hinet.Layer(l).input_dim == d + e, "input_dim of a layer")
    elif k == 'dtype':
        l = [nodes.IdentityNode(input_dim=d, dtype='d'), nodes.PCANode(input_dim=d, dtype='f')]
        raises(mdp.NodeException, lambda: (hinet.Layer if case['cls'] != 'same' else hinet.SameInputLayer)(l), "nodes of different types")
        raises(mdp.NodeException, lambda: cls(l[:1], dtype='f'), "a type that does not fit the nodes")
    elif k == 'dtype2':
        t = 'fd'[case['seed'] % 2]
        l = [nodes.PCANode(input_dim=d) for _ in range(n)]
        if case['seed'] % 3 == 0:
            l[-1 if case['cls'] != 'clone' else 0].dtype = t
            L = cls(l)
        else:
            L = cls(l, dtype=t)
        check(str(L.dtype) == str(np.dtype(t)), "dtype %s", L.dtype)
        check(all(str(q.dtype) == str(np.dtype(t)) for q in L), "dtype of the nodes: %s", [q.dtype for q in L])
    elif k == 'clone':
        q = nodes.PCANode(input_dim=d, output_dim=min(d, e))
        L = hinet.CloneLayer(q, n_nodes=n)
        check(len(L) == n and all(v is q for v in L) and L.node is q and q in L, "nodes of a clone layer")
        check((L.input_dim, L.output_dim) == (n * d, n * min(d, e)), "dimensions")
    elif k == 'supported':
        l = [nodes.PCANode(input_dim=d), nodes.IdentityNode(input_dim=d), nodes.QuadraticExpansionNode(input_dim=d)][:min(n, 3)]
        rs(case['seed']).shuffle(l)
        if case['cls'] == 'clone':
            l = [l[0]] * n
        want = set(np.dtype(t) for t in l[0].get_supported_dtypes())
        for q in l:
            want &= set(np.dtype(t) for t in q.get_supported_dtypes())
        comps = [cls(l)]
        if case['cls'] != 'clone':
            comps.append(hinet.FlowNode(mdp.Flow([q.__class__() for q in l])))
        for L in comps:
            # (the types are those of data: the character type does not count)
            check(set(np.dtype(t) for t in L.get_supported_dtypes()) - {np.dtype('S1')} == want - {np.dtype('S1')}, "supported types of %s" % type(L).__name__)
    elif k == 'list':
        l = [nodes.IdentityNode(input_dim=d) for _ in range(n)]
        for L in [hinet.Layer(l), hinet.SameInputLayer(l), hinet.FlowNode(mdp.Flow(l))]:
            check(len(L) == n and [v is w for v, w in zip(L, l)] == [True] * n, "iteration")
            check(all(L[i] is l[i] for i in range(n)) and L[-1] is l[-1], "indexing")
            check(list(L[:2]) == l[:2], "slicing")
            check(l[0] in L and nodes.IdentityNode(input_dim=d) not in L, "membership")
    elif k == 'late':
        # dimensions are found during training or execution
        l = [nodes.PCANode(input_dim=d), nodes.IdentityNode(input_dim=d), nodes.QuadraticExpansionNode(input_dim=d)][:min(n, 3)]
        if case['cls'] == 'clone':
            l = [l[0]] * n
        L = cls(l)
        x = gen.spectral(rs(case['seed']), 30, d if case['cls'] == 'same' else d * len(l))
        if L.is_training():
            L.train(x)
            L.stop_training()
        y = L.execute(x)
        check(y.shape[1] == sum(q.output_dim for q in L) == L.output_dim, "output dimension")
    elif k == 'badflow':
        raises(Exception, lambda: hinet.FlowNode(mdp.Flow([nodes.IdentityNode(input_dim=d), nodes.PCANode(input_dim=d + 1)])), "a flow of inconsistent dimensions")
        f = hinet.FlowNode(mdp.Flow([nodes.PCANode(output_dim=d), nodes.IdentityNode(input_dim=d)]))
        raises(mdp.NodeException, lambda: setattr(f, 'output_dim', d + 1), "an output_dim that differs from that of the last node")
        check(f.output_dim in (None, d), "output_dim after a refused setting: %s", f.output_dim)
        f = hinet.FlowNode(mdp.Flow([nodes.PCANode(input_dim=d)]))
        raises(mdp.NodeException, lambda: f.train(np.zeros((5, d + 1))), "training with another dimension")
    else:
        f = hinet.FlowNode(mdp.Flow([nodes.PCANode(), nodes.QuadraticExpansionNode()]), input_dim=d)
        check(f.flow[0].input_dim == d, "input_dim of the first node")
        f = hinet.FlowNode(mdp.Flow([nodes.PCANode(output_dim=d), nodes.PCANode()]), output_dim=None)
        f.output_dim = d
        check(f.flow[-1].output_dim == d, "output_dim of the last node")
        x = gen.spectral(rs(case['seed']), 30, d + 1)
        while f.is_training():
            f.train(x)
            f.stop_training()
        check((f.input_dim, f.output_dim) == (d + 1, d), "dimensions")
        check(f.execute(x).shape == (30, d), "shape")


@sub(st.fixed_dictionaries(dict(
    s=seeds, n=st.integers(4, 12), k=st.integers(1, 3), d=st.integers(1, 2), fr=st.integers(1, 3), gap=st.integers(1, 2),
    kind=st.sampled_from(['layer', 'clone', 'same']), node=st.sampled_from(['frames', 'delay', 'diff']))),
    quick=60, thorough=1500, rule='several parts and several frames')
def time_dependent(case, ctx):
    """Nodes that look at neighbouring rows see the time series of their own part."""
    d, k = case['d'], case['k']
    if (case['fr'] - 1) * case['gap'] >= case['n']:
        return

    def mk():
        if case['node'] == 'frames':
            return nodes.TimeFramesNode(case['fr'], gap=case['gap'], input_dim=d)
        if case['node'] == 'delay':
            return nodes.TimeDelayNode(case['fr'], gap=case['gap'], input_dim=d)
        n = nodes.OnlineTimeDiffNode(input_dim=d)
        n.train(np.ones((2, d)))
        n.stop_training()
        return n
    x = rs(case['s']).normal(size=(case['n'], d if case['kind'] == 'same' else d * k))
    parts = [x] * k if case['kind'] == 'same' else [x[:, i * d:(i + 1) * d] for i in range(k)]
    layer = {'layer': lambda: hinet.Layer([mk() for _ in range(k)]), 'clone': lambda: hinet.CloneLayer(mk(), k),
             'same': lambda: hinet.SameInputLayer([mk() for _ in range(k)])}[case['kind']]()
    exp = np.concatenate([mk().execute(p) for p in parts], axis=1)
    got = layer.execute(x)
    check(got.shape == exp.shape, 'shape %s, expected %s' % (got.shape, exp.shape))
    close(got, exp, 1e-12, 'layer of time dependent nodes')
    if layer.is_invertible():
        close(layer.inverse(exp), np.concatenate([mk().inverse(p) for p in np.split(exp, k, axis=1)], axis=1), 1e-12, 'inverse')
    ctx.nontrivial(k > 1 and (case['fr'] > 1 or case['node'] == 'diff'))
    ctx.label(case['kind'] + ' ' + case['node'])
