"""Memoryless nodes map each row independently."""
import numpy as np
import mdp
from lib.harness import sub, check, close, st
from lib.nodetab import TAB, NAMES
from lib import gen
from lib.gen import seeds, rs, reseed

ROW = [n for n in NAMES if TAB[n].rowwise and not TAB[n].stochastic]


def outs(e, cfg, nd, x, how):
    """Outputs of executing (analysis nodes: what execute returns, not their statistics)."""
    if e.name in ANALYSIS:
        return [nd.execute(x)]
    return cfg.outputs(nd, x, how)


ANALYSIS = ('EtaComputerNode', 'HitParadeNode', 'GrowingNeuralGasNode', 'NeuralGasNode')


def trained(e, cfg, f32=False):
    nd = cfg.new(dtype='f') if f32 else cfg.new()
    reseed(5)
    if e.trainable:
        x = cfg.data(e.n, 0)
        if e.online:
            nd.train(x)
        else:
            e.train(nd, cfg, x)
    return nd


def tol(e):
    return 1e-6 if e.name in ('LLENode', 'HLLENode') else 1e-9


@sub(st.fixed_dictionaries({'node': st.sampled_from(ROW), 'seed': seeds, 'n': st.one_of(st.integers(2, 30), st.integers(2, 30), st.integers(2, 30), st.sampled_from([64, 65, 130, 260, 520, 1030])),
                            'mode': st.sampled_from(['single', 'subset', 'perm', 'repeat', 'split', 'far'])}),
     quick=1500, thorough=30000, shards=6,
     rule="outputs of selected rows compared with the selected outputs; at least two rows")
def rows(case, ctx):
    e = TAB[case['node']]
    cfg = e.cfg(case['seed'])
    rng = rs(case['seed'], 4)
    nd = trained(e, cfg)
    n = case['n']
    x = cfg.data(n, rng.randint(2))
    n = len(x)
    m = case['mode']
    if m == 'single':
        sel = [[i] for i in (range(n) if n < 64 else rng.permutation(n)[:20])]
    elif m == 'subset':
        sel = [sorted(rng.permutation(n)[:rng.randint(1, n)].tolist())]
    elif m == 'perm':
        sel = [rng.permutation(n).tolist()]
    elif m == 'repeat':
        sel = [rng.randint(n, size=2 * n).tolist()]
    else:
        k = rng.randint(1, n)
        sel = [list(range(k)), list(range(k, n))]
    if m == 'far' and e.name not in ('DiscreteHopfieldClassifier', 'SimpleMarkovClassifier', 'GaussianClassifier',
                                     'GrowingNeuralGasExpansionNode') and x.dtype.kind == 'f':
        # one extreme row must not leak into the others
        if e.name not in ('LLENode', 'HLLENode', 'RBFExpansionNode'):
            x = x.copy()
            x[-1] = x[-1] * 50.
            if e.name == 'RecursiveExpansionNode':
                x[-1] = np.abs(x[-1])
    full = outs(e, cfg, nd, x, 1)
    for s in sel:
        part = outs(e, cfg, nd, x[s], 1)
        check(len(part) == len(full), "number of outputs")
        for u, v in zip(part, full):
            if v.ndim == 0 or len(v) != n:
                continue
            if e.name == 'HitParadeNode' or e.name == 'EtaComputerNode':
                if v is not full[0]:
                    continue
            close(u, v[s], tol(e), "output of selected rows is not the selected output")
    if e.invertible and nd.is_invertible():
        y = np.array(full[0])
        inv = nd.inverse(y.copy())
        check(len(inv) == n, "inverse has %d rows for %d", len(inv), n)
        for s in sel:
            close(nd.inverse(y[s]), inv[s], tol(e) * 10, "inverse of selected rows")
    ctx.label(e.name)
    ctx.nontrivial(n > 1)


@sub(st.fixed_dictionaries({'node': st.sampled_from(NAMES), 'seed': seeds, 'n': st.integers(1, 12)}),
     quick=900, thorough=20000, shards=4,
     rule="same values presented in another memory layout or exactly convertible type")
def representation(case, ctx):
    e = TAB[case['node']]
    cfg = e.cfg(case['seed'])
    rng = rs(case['seed'], 6)
    nd = trained(e, cfg)
    n = e.rows(case['n'] + (7 if e.name == 'TimeFramesNode' else 0))
    x = cfg.data(n, 1)
    if e.stateful or e.online:
        ndc = nd.copy()
    else:
        ndc = nd
    kind = rng.randint(3)
    if kind == 0 or x.dtype.kind != 'f':
        v = gen.layouts(rng, x)
    elif kind == 1:
        # values exactly representable in a smaller type
        x = x.astype('f').astype('d')
        v = x.astype('f')
    else:
        x = np.round(x * 4)
        if e.name in ('RecursiveExpansionNode', 'NormalizingRecursiveExpansionNode', 'RBMNode', 'RBMWithLabelsNode',
                      'SimpleMarkovClassifier', 'GaussianClassifier', 'LLENode', 'HLLENode'):
            x = np.sign(cfg.data(n, 1)) if e.name.startswith('N') else np.abs(np.sign(cfg.data(n, 1)))
            if e.name in ('SimpleMarkovClassifier',):
                x = cfg.data(n, 1)
            if e.name in ('GaussianClassifier', 'LLENode', 'HLLENode'):
                return
        if not e.trainable:
            nd.execute(x, *cfg.eargs(x, 1))      # fixes the dtype
            ndc = nd.copy() if e.stateful else nd
            if e.stateful:
                nd = ndc.copy()
        v = x.astype(['i4', 'i8', 'i2'][rng.randint(3)])
    if kind == 1 and not e.trainable:
        nd.execute(x, *cfg.eargs(x, 1))
        ndc = nd.copy() if e.stateful else nd
        if e.stateful:
            nd = ndc.copy()
    reseed(2)
    a = np.array(nd.execute(x, *cfg.eargs(x, 1)))
    reseed(2)
    b = np.array(ndc.execute(v, *cfg.eargs(x, 1)))
    check(a.dtype == b.dtype, "result type depends on the representation: %s / %s", a.dtype, b.dtype)
    close(b, a, 1e-6 if e.name in ('LLENode', 'HLLENode') else 1e-9, "output depends on memory layout or input type")
    check(str(nd.dtype) == str(ndc.dtype), "node dtype changed")
    ctx.label(e.name)
    ctx.nontrivial()


@sub(st.fixed_dictionaries({'node': st.sampled_from([n for n in ROW if TAB[n].f32 and not TAB[n].label_outputs]),
                            'seed': seeds, 'n': st.integers(1, 12)}),
     quick=400, thorough=8000, shards=2, rule="float32 node against float64 node with the same data")
def precision(case, ctx):
    """A float32 node computes the same map up to float32 precision (column signs free)."""
    e = TAB[case['node']]
    if e.name in ('HitParadeNode', 'CutoffNode') or e.online:
        pass
    cfg = e.cfg(case['seed'])
    a = trained(e, cfg)
    b = trained(e, cfg, f32=True)
    x = cfg.data(case['n'], 1).astype('f')
    ya = np.array(a.execute(x.astype('d'), *cfg.eargs(x, 1)))
    yb = np.array(b.execute(x, *cfg.eargs(x, 1)))
    if e.sign:
        # align with the training data
        t = cfg.data(e.n, 0)
        ta, tb = np.array(a.execute(t)), np.array(b.execute(t.astype('f'))).astype('d')
        s = np.sign((ta * tb).sum(axis=0))
        yb = yb * s
    close(yb.astype('d'), ya, 2e-2 if e.trainable else 1e-4, "float32 result")
    ctx.label(e.name)
    ctx.nontrivial()
