"""A flow is the composition of its nodes."""
import numpy as np
import mdp
from lib.harness import sub, check, close, st, raises, Violation
from lib import gen
from lib.gen import seeds, rs, reseed
from lib.flowzoo import (ZOO, INV, Part, parts, signal, args_for, manual_train, RecBase, SRC, source, mkdata, gener)


def same_log(a, b, what):
    check(len(a) == len(b), "%s: %d events instead of %d" % (what, len(a), len(b)))
    for p, q in zip(a, b):
        check(p[:2] == q[:2], "%s: event %s instead of %s" % (what, p[:2], q[:2]))
        if p[0] == 'train':
            close(p[2], q[2], 1e-9, what + ": training data")
            check(len(p[3]) == len(q[3]), what + ": number of arguments")
            for u, v in zip(p[3], q[3]):
                close(u, v, 1e-12, what + ": argument")


def pretrain(ps, which, d, rng, nds2):
    """Train some nodes beforehand (both copies alike), on data of their own."""
    for i, p in enumerate(ps):
        if p.trainable and which[i % len(which)]:
            x = signal(rng, 60, p.d)
            a = args_for(p, 60, rng)
            for nds in nds2:
                nd = nds[i]
                while nd.is_training():
                    nd.train(x, *a)
                    nd.stop_training()


# long flows of cheap nodes, that keep the dimension
LONG = st.lists(st.sampled_from(['rec', 'rec', 'recopt', 'affine', 'id', 'pca', 'norm', 'hit', 'flownode', 'white']), min_size=6, max_size=9)
kinds = st.one_of(*([st.lists(st.sampled_from(sorted(ZOO) + ['rec', 'rec']), min_size=1, max_size=5)] * 4 + [LONG]))


@sub(st.fixed_dictionaries({'kinds': kinds, 'd': st.integers(2, 4), 'seed': seeds, 'common': st.booleans(),
                            'src': st.lists(st.sampled_from(sorted(SRC)), min_size=1, max_size=5),
                            'aslist': st.sampled_from(['list', 'tuple', 'seq']),
                            'pre': st.one_of(st.just([False]), st.lists(st.booleans(), min_size=1, max_size=4)),
                            'preNone': st.booleans(), 'call': st.booleans()}),
     quick=1200, thorough=30000, shards=6, rule="at least two nodes, one of them trained by the flow")
def training(case, ctx):
    rng = rs(case['seed'], 1)
    d = case['d']
    ps = parts(case['kinds'], d, case['seed'])
    nds, ref = [p.new() for p in ps], [p.new() for p in ps]
    pretrain(ps, case['pre'], d, rng, (nds, ref))
    data = mkdata(ps, rng, case['common'], d)
    its = []
    todo = [n.is_training() for n in nds]
    snap = [[(x.copy(), [np.array(a) for a in args]) for x, args in c] for c in data]
    for i, p in enumerate(ps):
        if not todo[i] and case['preNone']:
            its.append(None)
        else:
            its.append(source(case['src'][i % len(case['src'])], p, data[i], case['aslist']))
    reseed(3)
    try:
        manual_train(ref, ps, data)
        err = None
    except Exception as e:
        err = e
    f = mdp.Flow(nds)
    reseed(3)
    if err is not None:
        # a node fails by itself (singular statistics); in the flow possibly only when executed
        ctx.label('node failure')
        try:
            f.train(its)
            f.execute(signal(rng, 30, d))
        except mdp.FlowException:
            pass
        return
    try:
        f.train(its)
    except Exception as e:
        raise Violation("training fails in the flow only: %s: %s" % (type(e).__name__, str(e)[-400:]))
    check(len(f) == len(ps) and all(a is b for a, b in zip(f, nds)), "nodes of the flow")
    for i, p in enumerate(ps):
        if i == len(ps) - 1 and p.trainable:
            check(not nds[i].is_training(), "last node left in training")
    for c, s in zip(data, snap):
        for (x, a), (x0, a0) in zip(c, s):
            check(np.array_equal(x, x0) and all(np.array_equal(u, v) for u, v in zip(a, a0)), "training data changed")
    compare_exec(f, ref, rng, d, case['call'])
    for i, p in enumerate(ps):
        check(not nds[i].is_training() or not p.trainable, "node %d left in training" % i)
        if isinstance(nds[i], RecBase):
            same_log(nds[i].log, ref[i].log, "node %d" % i)
    if all(p.inv for p in ps) and all(n.is_invertible() for n in ref):
        compare_inv(f, ref, rng, ps[-1].dout)
        ctx.label('inverse')
    ctx.nontrivial(len(ps) > 1 and any(todo))
    ctx.label('pretrained' if any(p.trainable and not t for p, t in zip(ps, todo)) else 'fresh')


def compare_exec(f, ref, rng, d, call):
    x = signal(rng, 30, d)
    x0 = x.copy()
    xs = [signal(rng, rng.randint(6, 12), d) for _ in range(rng.randint(1, 4))]
    for k in list(range(len(ref))) + [None]:
        nn = ref if k is None else ref[:k + 1]

        def run(v):
            for m in nn:
                v = m.execute(v)
            return v
        kw = {} if k is None else {'nodenr': k}
        go = f if call else f.execute
        close(go(x, **kw), run(x), 1e-9, "execute up to %s" % k)
        exp = np.concatenate([run(v) for v in xs])
        for s in ('list', 'gen', 'iterobj', 'tuple', 'restart'):
            close(go(SRC[s](xs), **kw), exp, 1e-9, "execute %s up to %s" % (s, k))
        if k is not None:
            close(f[:k + 1].execute(x), run(x), 1e-9, "execute the slice up to %d" % k)
    check(np.array_equal(x, x0), "execute changed the data")


def compare_inv(f, ref, rng, d):
    y = rng.normal(size=(9, d))
    ys = [rng.normal(size=(rng.randint(1, 7), d)) for _ in range(rng.randint(1, 4))]

    def run(v):
        for m in ref[::-1]:
            v = m.inverse(v)
        return v
    close(f.inverse(y), run(y), 1e-9, "inverse")
    exp = np.concatenate([run(v) for v in ys])
    for s in ('list', 'gen', 'iterobj', 'tuple', 'restart'):
        close(f.inverse(SRC[s](ys)), exp, 1e-9, "inverse of %s" % s)


@sub(st.fixed_dictionaries({'kinds': st.one_of(*([st.lists(st.sampled_from(INV + ['rec']), min_size=2, max_size=5)] * 3 + [st.lists(st.sampled_from(['rec', 'affine', 'id', 'switch', 'flownode']), min_size=6, max_size=9)])), 'd': st.integers(1, 5),
                            'seed': seeds, 'call': st.booleans()}),
     quick=500, thorough=10000, shards=2, rule="at least two nodes")
def inverting(case, ctx):
    rng = rs(case['seed'], 1)
    d = case['d']
    ps = parts(case['kinds'], d, case['seed'])
    nds, ref = [p.new() for p in ps], [p.new() for p in ps]
    pretrain(ps, [True], d, rng, (nds, ref))
    f = mdp.Flow(nds)
    compare_exec(f, ref, rng, d, case['call'])
    if all(n.is_invertible() for n in ref):
        compare_inv(f, ref, rng, ps[-1].dout)
        if all(p.dout == p.d for p in ps):
            x = signal(rng, 20, d)
            if not any(n.is_training() for n in nds):
                y = f.execute(x)
                if np.abs(y).max() < 1e3:
                    close(f.inverse(y), x, 1e-5, "inverse of the execution", scale=1 + np.abs(x).max() + np.abs(y).max())
    else:
        y = rng.normal(size=(4, ps[-1].dout))
        raises(mdp.FlowException, lambda: f.inverse(y), "inverse of a flow with a node that is not invertible")
    ctx.nontrivial(len(ps) > 1)


@sub(st.fixed_dictionaries({'kinds': st.lists(st.sampled_from(['rec', 'recopt', 'affine', 'pca', 'norm', 'id', 'cut', 'sfa', 'white']),
                                              min_size=1, max_size=7),
                            'd': st.integers(2, 4), 'seed': seeds, 'rev': st.booleans()}),
     quick=300, thorough=6000, rule="a trainable node")
def single_array(case, ctx):
    """flow.train(x) uses x for all nodes and phases."""
    rng = rs(case['seed'], 1)
    d = case['d']
    ps = [p for p in parts(case['kinds'], d, case['seed']) if not p.args]
    # drop supervised nodes and rebuild the chain of dimensions
    ps = [Part(p.kind, d, rs(case['seed'], i, 9), **({'na': 0} if p.kind == 'rec' else {})) for i, p in enumerate(ps)]
    ps = [p for p in ps if p.dout == d and not p.args]
    if not ps:
        return
    nds, ref = [p.new() for p in ps], [p.new() for p in ps]
    x = signal(rng, 60, d)
    x0 = x.copy()
    try:
        manual_train(ref, ps, [[(x, [])]] * len(ps))
    except mdp.MDPException:
        ctx.label('node failure')
        return
    f = mdp.Flow(nds)
    f.train(x)
    check(np.array_equal(x, x0), "training data changed")
    compare_exec(f, ref, rng, d, False)
    for i in range(len(ps)):
        if isinstance(nds[i], RecBase):
            same_log(nds[i].log, ref[i].log, "node %d" % i)
    ctx.nontrivial(any(p.trainable for p in ps))


BAD = ['oneshot', 'oneshot', 'count-', 'count+', 'none', 'empty', 'emptygen', 'args-', 'args+', 'noargs', 'notlist', 'notiter',
       'exec-empty', 'exec-emptygen', 'inv-empty', 'inv-emptygen', 'empty-later-phase', 'dict']


@sub(st.fixed_dictionaries({'bad': st.sampled_from(BAD), 'n': st.integers(1, 4), 'd': st.integers(1, 4), 'seed': seeds,
                            'src': st.sampled_from(sorted(SRC))}),
     quick=700, thorough=10000, rule="every case holds one unsuitable source")
def refusals(case, ctx):
    rng = rs(case['seed'], 1)
    n, d, bad = case['n'], case['d'], case['bad']
    pos = rng.randint(n)
    ps = []
    for i in range(n):
        if i == pos:
            na = rng.randint(1, 3) if bad in ('args-', 'args+', 'noargs') else rng.randint(3)
            ph = rng.randint(2, 4) if bad in ('oneshot', 'empty-later-phase') else rng.randint(1, 3)
            ps.append(Part('rec', d, rng, na=na, ph=ph))
        else:
            ps.append(Part(['rec', 'affine', 'id'][rng.randint(3)], d, rng))
    nds = [p.new() for p in ps]
    f = mdp.Flow(nds)
    data = mkdata(ps, rng, True, d)
    its = [source(case['src'], p, c, 'tuple') for p, c in zip(ps, data)]
    items = [(x,) + tuple(a) for x, a in data[pos]]
    if bad.startswith('exec') or bad.startswith('inv'):
        f.train(its)
        empty = gener([]) if bad.endswith('gen') else []
        go = f.execute if bad.startswith('exec') else f.inverse
        raises(mdp.FlowException, lambda: go(empty), bad)
        ctx.nontrivial()
        return
    if bad == 'oneshot':
        its[pos] = SRC[['gen', 'iter', 'iterobj', 'map'][rng.randint(4)]](items)
    elif bad == 'empty-later-phase':
        class Once(object):
            used = False

            def __iter__(self):
                if self.used:
                    return iter([])
                self.used = True
                return iter(items)
        its[pos] = Once()
    elif bad == 'count-':
        its = its[:-1]
    elif bad == 'count+':
        its = its + [its[0]]
    elif bad == 'none':
        its[pos] = None
    elif bad == 'empty':
        its[pos] = []
    elif bad == 'emptygen':
        its[pos] = gener([])
    elif bad == 'args-':
        its[pos] = [it[:-1] for it in items]
    elif bad == 'args+':
        its[pos] = [it + (it[-1],) for it in items]
    elif bad == 'noargs':
        its[pos] = [it[0] for it in items]
    elif bad == 'notlist':
        its = [tuple(its), gener(its), None, 3][rng.randint(4)]
    elif bad == 'dict':
        its = dict(enumerate(its))
    elif bad == 'notiter':
        its[pos] = [3, 2.5, len][rng.randint(3)]
    e = raises(mdp.FlowException, lambda: f.train(its), bad)
    check(all(a is b for a, b in zip(f.flow, nds)) and len(f) == n, "nodes after a refusal")
    if bad.startswith('count') or bad.startswith('not') or bad == 'dict':
        check(all(not getattr(nd, 'log', None) for nd in nds), "training started with unsuitable iterables")
    else:
        # the nodes before were trained, those after were not touched
        for i, nd in enumerate(nds):
            if isinstance(nd, RecBase):
                if i < pos:
                    check(len([1 for l in nd.log if l[0] == 'train']) == len(data[i]) * ps[i].phases,
                          "node %d before the refused one" % i)
                if i > pos:
                    check(not nd.log, "node %d after the refused one was trained" % i)
    del e
    ctx.nontrivial()
    ctx.label(bad)
