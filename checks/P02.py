"""Caller's arrays are neither changed nor kept; execution is repeatable."""
import copy
import numpy as np
import mdp
from lib.harness import sub, check, close, st, Violation
from lib.nodetab import TAB, NAMES
from lib import gen
from lib.gen import seeds, reseed, rs

TRN = [n for n in NAMES if TAB[n].trainable]


def frozen(v):
    """(value to hand over, comparison copy)"""
    return copy.deepcopy(v)


def equal(a, b):
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and np.array_equal(a, b, equal_nan=True) \
            if a.dtype.kind == 'f' else np.array_equal(a, b)
    return type(a) == type(b) and list(a) == list(b) if isinstance(a, (list, tuple)) else a == b


def spoil(v):
    """Overwrite a container in place."""
    if isinstance(v, np.ndarray):
        if v.flags.writeable:
            if v.dtype.kind == 'b':
                v[...] = ~v
            else:
                v[...] = 77
    elif isinstance(v, list):
        v[:] = [99] * len(v)


def containers(targs, kind):
    res = []
    for t in targs:
        if isinstance(t, np.ndarray) and t.ndim == 1 and kind:
            t = t.tolist() if kind == 1 else tuple(t.tolist()) if kind == 2 else t
        res.append(t)
    return res


LIST_OK = set(['NearestMeanClassifier', 'GaussianClassifier', 'FDANode', 'KNNClassifier',
               'SimpleMarkovClassifier', 'PerceptronClassifier', 'LibSVMClassifier'])


@sub(st.fixed_dictionaries({
    'node': st.sampled_from(TRN), 'seed': seeds, 'chunks': st.integers(1, 4), 'kind': st.integers(0, 3),
    'how': st.sampled_from(['spoil', 'readonly', 'reuse', 'layout'])}),
    quick=900, thorough=15000, shards=6,
    rule="trained in one or more chunks whose buffers are overwritten (or read-only) afterwards")
def training(case, ctx):
    e = TAB[case['node']]
    cfg = e.cfg(case['seed'])
    rng = rs(case['seed'], 2)
    x = cfg.data(e.n, 0)
    targs = cfg.targs(x, 0)
    kind = case['kind'] if e.name in LIST_OK else 0
    sizes = gen.cuts(rng, len(x), case['chunks'], e.min_chunk)
    if e.name == 'XSFANode' or e.phases > 2:
        sizes = [len(x)]
    how = case['how']
    a, b = cfg.new(), cfg.new()

    def chunks():
        if kind == 3:
            # one class at a time, with a single label
            for l in sorted(set(targs[0].tolist())):
                yield x[targs[0] == l].copy(), [l]
            return
        i = 0
        for s in sizes:
            yield (x[i:i + s].copy(),
                   containers([t[i:i + s].copy() if isinstance(t, np.ndarray) else t for t in targs], kind))
            i += s
    for nd in (a, b):
        mine = nd is a
        reseed(7)
        buf = None
        for ph in range(e.phases):
            if not nd.is_training():
                break
            if e.online and ph:
                break
            for xc, tc in chunks():
                if mine and how == 'readonly':
                    for v in [xc] + tc:
                        if isinstance(v, np.ndarray):
                            v.flags.writeable = False
                if mine and how == 'layout':
                    xc = gen.layouts(rng, xc)
                if mine and how == 'reuse':
                    if buf is None:
                        buf = np.empty_like(x)
                    buf[:len(xc)] = xc
                    xc = buf[:len(xc)]
                snap = frozen([np.array(xc)] + tc)
                nd.train(xc, *tc)
                if mine:
                    for v, w in zip([xc] + tc, snap):
                        check(equal(v, w), "training changed the %s handed over", type(v).__name__)
                    if how in ('spoil', 'reuse'):
                        for v in [xc] + tc:
                            spoil(v)
            if mine and not e.online:
                # the last chunk is still alive: closing the phase must not touch it
                keep = frozen([np.array(xc)] + tc)
                nd.stop_training()
                for v, w in zip([xc] + tc, keep):
                    check(equal(v, w), "stop_training changed an array of the caller")
            elif not e.online:
                nd.stop_training()
    q = cfg.data(e.rows(6), 1)
    reseed(8)
    ya = cfg.outputs(a, q, 1)
    reseed(8)
    yb = cfg.outputs(b, q, 1)
    if how == 'layout' and e.name in ('JADENode', 'CuBICANode', 'FastICANode', 'TDSEPNode', 'ISFANode', 'XSFANode'):
        return      # rounding differences may permute the components
    for u, v in zip(ya, yb):
        if how == 'layout' and e.sign:
            u = gen.sign_align(u, v)       # other summation order: signs are free
        close(u, v, 1e-7 if e.name not in ('NIPALSNode',) else 1e-6,
              "model depends on what happened to the training buffers afterwards")
    ctx.label(e.name)
    ctx.nontrivial()


def trained(e, cfg):
    nd = cfg.new()
    reseed(5)
    if e.trainable:
        x = cfg.data(e.n, 0)
        e.train(nd, cfg, x) if not e.online else nd.train(x)
    return nd


@sub(st.fixed_dictionaries({
    'node': st.sampled_from(NAMES), 'seed': seeds, 'n': st.integers(1, 9),
    'how': st.sampled_from(['plain', 'readonly', 'layout', 'otherdtype'])}),
    quick=1200, thorough=20000, shards=6,
    rule="executed (and inverted) at least twice with other data and buffer overwriting in between")
def execution(case, ctx):
    e = TAB[case['node']]
    cfg = e.cfg(case['seed'])
    rng = rs(case['seed'], 3)
    nd = trained(e, cfg)
    n = e.rows(case['n']) + (6 if e.name == 'TimeFramesNode' else 0)
    x = cfg.data(n, 1)
    ea = cfg.eargs(x, 1)
    q = x.copy()
    if case['how'] == 'readonly':
        q.flags.writeable = False
    elif case['how'] == 'layout':
        q = gen.layouts(rng, q)
    elif case['how'] == 'otherdtype' and e.f32 and x.dtype == np.dtype('d'):
        nd.execute(x, *ea)      # fixes the dtype
        x = x.astype('f')
        q = x.copy()
    snap = np.array(q)
    ea2 = copy.deepcopy(ea)
    if e.stateful and not e.online:
        nd0 = nd.copy()
    reseed(9)
    y1 = nd.execute(q, *ea2)
    check(equal(np.array(q), snap), "execute changed its input")
    check(all(equal(u, v) for u, v in zip(ea, ea2)), "execute changed its extra arguments")
    check(not np.ndim(y1) or y1 is not None, "no result")
    keep = np.array(y1)
    if q.flags.writeable:
        spoil(q)
    if isinstance(y1, np.ndarray) and y1.flags.writeable:
        spoil(y1)
    if e.stateful and not e.online:
        # stateful: the same history again gives the same result
        reseed(9)
        close(nd0.execute(x, *ea), keep, 1e-10, "same history, other result")
        ctx.nontrivial()
        return
    z = cfg.data(e.rows(7), 3)
    nd.execute(z, *cfg.eargs(z, 3))
    reseed(9)
    extra = cfg.outputs(nd, z, 3)
    reseed(9)
    y2 = nd.execute(x, *ea)
    close(y2, keep, 1e-10, "repeated execution differs")
    reseed(9)
    for u, v in zip(cfg.outputs(nd, z, 3), extra):
        close(u, v, 1e-10, "repeated query differs")
    if e.invertible and nd.is_invertible() and not e.stochastic:
        y = keep.copy()
        ysnap = y.copy()
        if case['how'] == 'readonly':
            y.flags.writeable = False
        r1 = nd.inverse(y)
        check(equal(y, ysnap), "inverse changed its input")
        rk = np.array(r1)
        if y.flags.writeable:
            spoil(y)
        if r1.flags.writeable:
            spoil(r1)
        nd.execute(z, *cfg.eargs(z, 3))
        close(nd.inverse(ysnap), rk, 1e-10, "repeated inversion differs")
        reseed(9)
        close(nd.execute(x, *ea), keep, 1e-10, "execution differs after inversion")
        ctx.label('inverse')
    ctx.label(e.name)
    ctx.nontrivial()


FLOWABLE = [n for n in ('PCANode', 'WhiteningNode', 'SFANode', 'NormalizeNode', 'PolynomialExpansionNode',
                        'CutoffNode', 'AdaptiveCutoffNode', 'IdentityNode', 'NIPALSNode', 'TimeDelayNode',
                        'QuadraticExpansionNode', 'HitParadeNode', 'EtaComputerNode') if n in TAB]


@sub(st.fixed_dictionaries({
    'nodes': st.lists(st.sampled_from(FLOWABLE), min_size=1, max_size=3), 'seed': seeds,
    'nch': st.integers(1, 3), 'wrap': st.sampled_from(['flow', 'flownode', 'layer', 'clone', 'same'])}),
    quick=300, thorough=5000, shards=2,
    rule="composite trained and executed with buffers overwritten afterwards")
def composites(case, ctx):
    """Flows, flow nodes and layers neither change nor keep the caller's arrays."""
    import mdp.hinet as hinet
    rng = rs(case['seed'], 1)
    d = 3
    x = gen.slow(rng, 60, d, noise=0.3)

    def make():
        nl = []
        for i, n in enumerate(case['nodes']):
            if n == 'PolynomialExpansionNode':
                nl.append(mdp.nodes.PolynomialExpansionNode(2))
            elif n == 'AdaptiveCutoffNode':
                nl.append(mdp.nodes.AdaptiveCutoffNode(0.1, 0.1))
            elif n == 'CutoffNode':
                nl.append(mdp.nodes.CutoffNode(-1., 1.))
            elif n == 'TimeDelayNode':
                nl.append(mdp.nodes.TimeDelayNode(2))
            elif n == 'HitParadeNode':
                nl.append(mdp.nodes.HitParadeNode(3))
            else:
                nl.append(getattr(mdp.nodes, n)())
        w = case['wrap']
        if w == 'flow':
            return mdp.Flow([mdp.nodes.PCANode(output_dim=2)] + nl[:2])
        first = mdp.nodes.PCANode(input_dim=d, output_dim=2)
        if w == 'flownode':
            return mdp.Flow([hinet.FlowNode(mdp.Flow([first, mdp.nodes.SFANode()])), mdp.nodes.IdentityNode()])
        if w == 'layer':
            return mdp.Flow([hinet.Layer([mdp.nodes.PCANode(input_dim=1), mdp.nodes.SFANode(input_dim=2)])])
        if w == 'clone':
            return mdp.Flow([hinet.CloneLayer(mdp.nodes.WhiteningNode(input_dim=1), 3)])
        return mdp.Flow([hinet.SameInputLayer([first, mdp.nodes.SFANode(input_dim=d)])])
    sizes = gen.cuts(rng, len(x), case['nch'], 5)
    q = gen.slow(rng, 9, d, noise=0.3)
    outs = []
    for mine in (True, False):
        f = make()
        chunks = [c.copy() for c in gen.split(x, sizes)]
        snap = [c.copy() for c in chunks]
        try:
            f.train([chunks] * len(f))
        except mdp.FlowException:
            # numerically unsuitable stack of nodes
            return
        for c, s in zip(chunks, snap):
            check(np.array_equal(c, s), "training changed a chunk of the caller")
        if mine:
            for c in chunks:
                spoil(c)
        qq = q.copy()
        y = f.execute(qq)
        check(np.array_equal(qq, q), "execute changed its input")
        keep = y.copy()
        if mine:
            spoil(qq)
            spoil(y)
            close(f.execute(q), keep, 1e-10, "repeated execution differs")
            f.execute([q[:4], q[4:]])
            close(f.execute(q), keep, 1e-10, "repeated execution differs")
        outs.append(keep)
    if np.isfinite(outs[1]).all():
        close(outs[0], outs[1], 1e-6, "result depends on the caller's buffers")
    ctx.nontrivial()
    ctx.label(case['wrap'])
