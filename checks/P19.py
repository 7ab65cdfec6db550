"""Copies, pickles and saved files are faithful and independent."""
import copy
import os
import pickle
import threading
import types
import numpy as np
import mdp
from lib.harness import sub, check, close, st, raises, Violation
from lib import gen
from lib.gen import seeds, rs, reseed
from lib.nodetab import TAB, NAMES
from lib.flowzoo import ZOO, parts, signal, args_for, mkdata, source, manual_train, RecBase, Part

HOW = ['copy', 'deepcopy', 'bytes', 'file', 'dumps', 'proto', 'twice']


class Uncopyable(Exception):
    pass


def duplicate(obj, how, tmp, k):
    proto = [-1, 0, 1, 2, 3, 4, 5][k % 7]
    try:
        if how == 'copy':
            return obj.copy()
        if how == 'deepcopy':
            return copy.deepcopy(obj)
        if how == 'bytes':
            return pickle.loads(obj.save(None))
        if how == 'dumps':
            return pickle.loads(pickle.dumps(obj, proto))
        if how == 'proto':
            return pickle.loads(obj.save(None, proto))
        if how == 'twice':
            return pickle.loads(pickle.dumps(obj.copy())).copy()
        name = os.path.join(tmp, 'saved.pic')
        if k % 2:
            obj.save(name, proto)
        else:
            obj.save(name)
        with open(name, 'rb') as f:
            return pickle.load(f)
    except ValueError as e:
        if 'ctypes' in str(e):
            raise Uncopyable(str(e))
        raise


def arrays(obj, seen=None, path='', depth=0):
    """Writeable arrays reachable from an object."""
    if seen is None:
        seen = {}
    if id(obj) in seen or depth > 12:
        return {}
    seen[id(obj)] = obj
    res = {}
    if isinstance(obj, np.ndarray):
        if obj.dtype != object:
            if obj.flags.writeable and obj.size:
                res[path] = obj
            return res
        obj = list(obj.ravel())
    if isinstance(obj, (type, types.FunctionType, types.MethodType, types.ModuleType, str, bytes, int, float)):
        return res
    if isinstance(obj, dict):
        items = list(obj.items())
    elif isinstance(obj, (list, tuple, set)):
        items = list(enumerate(obj))
    elif hasattr(obj, '__dict__'):
        items = list(vars(obj).items())
    else:
        return res
    for k, v in items:
        res.update(arrays(v, seen, '%s.%s' % (path, k), depth + 1))
    return res


def no_sharing(a, b):
    aa, bb = arrays(a), arrays(b)
    for p, u in aa.items():
        v = bb.get(p)
        if v is not None and v is u:
            raise Violation("the copy shares the array %s" % p)
        if v is not None and np.may_share_memory(u, v) and np.shares_memory(u, v):
            raise Violation("the copy shares the memory of %s" % p)


def queries(nd):
    """All the state queries of a node."""
    res = {'type': type(nd), 'in': nd.input_dim, 'out': nd.output_dim, 'dtype': nd.dtype, 'training': nd.is_training(),
           'trainable': nd.is_trainable(), 'inv': nd.is_invertible(), 'phase': nd.get_current_train_phase(),
           'remaining': nd.get_remaining_train_phase(), 'repr': repr(nd), 'str': str(nd),
           'types': sorted(str(t) for t in nd.get_supported_dtypes())}
    return res


def same_queries(a, b, what):
    a, b = queries(a), queries(b)
    for k in a:
        check(a[k] == b[k], "%s: %s is %s instead of %s" % (what, k, a[k], b[k]))


def steps(e, cfg, x, sizes):
    """The life of a node as a list of functions."""
    res = []
    if e.trainable:
        targs = cfg.targs(x, 0)
        for ph in range(e.phases):
            i = 0
            for s in sizes:
                def tr(nd, i=i, s=s, ph=ph):
                    if nd.is_training() and nd.get_current_train_phase() == ph:
                        a = [t[i:i + s] if isinstance(t, (np.ndarray, list)) and len(t) == len(x) else t for t in targs]
                        nd.train(x[i:i + s], *a)
                res.append(tr)
                i += s
            if not e.online:
                def stop(nd, ph=ph):
                    if nd.is_training() and nd.get_current_train_phase() == ph:
                        nd.stop_training()
                res.append(stop)
        if e.online:
            res.append(lambda nd: nd.stop_training() if nd.is_training() else None)
    return res


def go(nd, fs, k0=0):
    for i, f in enumerate(fs):
        reseed(11 + k0 + i)
        f(nd)


def final(e, cfg, nd, x2):
    reseed(99)
    res = cfg.outputs(nd, x2, 1)
    if e.invertible and nd.is_invertible():
        reseed(98)
        res.append(nd.inverse(np.asarray(res[0])))
    return res


def compare(a, b, tol, what):
    check(len(a) == len(b), what)
    for u, v in zip(a, b):
        close(u, v, tol, what)


def bytol(e):
    return max(e.tol, 1e-7)


node_case = {'node': st.sampled_from(NAMES), 'seed': seeds, 'how': st.sampled_from(HOW), 'cut': st.integers(0, 1000),
             'k': st.integers(0, 13), 'f32': st.sampled_from([False, False, True]), 'chunks': st.integers(1, 3),
             'touch': st.sampled_from(['train', 'exec', 'write', 'props', 'all'])}


@sub(st.fixed_dictionaries(node_case), quick=1500, thorough=40000, shards=8, rule="copied before the end of its life")
def nodes(case, ctx):
    e = TAB[case['node']]
    cfg = e.cfg(case['seed'])
    rng = rs(case['seed'], 3)
    kw = {'dtype': 'f'} if case['f32'] and e.f32 else {}
    n = e.n
    x = cfg.data(n, 0)
    n = len(x)
    sizes = [n] if e.name in ('GSFANode', 'HLLENode') else gen.cuts(rng, n, case['chunks'], max(e.min_chunk, 3))
    x2 = cfg.data(e.rows(9), 1)
    reseed(1)
    ref = cfg.new(**kw)
    reseed(1)
    orig = cfg.new(**kw)
    fs = steps(e, cfg, x, sizes)
    cut = case['cut'] % (len(fs) + 2)
    after = cut > len(fs)
    cut = min(cut, len(fs))
    try:
        go(ref, fs)
        end = final(e, cfg, ref, x2)
    except mdp.MDPException:
        ctx.label('node failure')
        return
    go(orig, fs[:cut])
    if after and not e.stateful:
        compare(final(e, cfg, orig, x2), end, bytol(e), "execution before copying")
    tmp = ctx.tmpdir()
    try:
        cps = [duplicate(orig, case['how'], tmp, case['k']) for _ in range(2)]
    except Uncopyable:
        check(e.name == 'LibSVMClassifier', "cannot be copied: ctypes")
        ctx.label('known finding')
        return
    same_queries(cps[0], orig, "copy")
    no_sharing(orig, cps[0])
    # 1. the copy goes on like the original would
    go(cps[0], fs[cut:], cut)
    # 2. the other copy is used for something else
    t = case['touch']
    other = cps[1]
    if t in ('train', 'all') and other.is_training() and e.trainable:
        y = cfg.data(n, 3)
        ta = cfg.targs(y, 3)
        reseed(5)
        try:
            if e.name != 'HLLENode':
                other.train(y * 1.3 + 0.1 if e.name not in ('DiscreteHopfieldClassifier', 'SimpleMarkovClassifier', 'RBMNode',
                                                            'RBMWithLabelsNode') else y, *ta)
        except (mdp.NodeException, mdp.TrainingException):
            pass
    if t in ('exec', 'all'):
        try:
            reseed(6)
            final(e, cfg, other, cfg.data(e.rows(5), 4))
        except Exception:
            # not ready to be executed
            pass
    if t in ('write', 'all'):
        for p, a in arrays(other).items():
            try:
                a[...] = 1
            except (ValueError, TypeError):
                pass
    if t in ('props', 'all'):
        other.mark = 'x'
        try:
            if other.input_dim is None:
                other.input_dim = 7
            if other.dtype is None:
                other.dtype = 'd'
        except Exception:
            pass
    # 3. the original goes on
    check(not hasattr(orig, 'mark'), "attribute of the copy appeared in the original")
    go(orig, fs[cut:], cut)
    compare(final(e, cfg, cps[0], x2), end, bytol(e), "the copy continues differently")
    same_queries(cps[0], ref, "copy at the end")
    compare(final(e, cfg, orig, x2), end, bytol(e), "the original was changed through the copy")
    same_queries(orig, ref, "original at the end")
    no_sharing(orig, cps[0])
    ctx.nontrivial(cut < len(fs) or not e.trainable)
    ctx.label('mid' if 0 < cut < len(fs) else ('fresh' if cut == 0 else 'trained'))


# ------------------------------------------------------------------ flows and composites
def comp(kind, d, rng, seed):
    """Composite nodes: builder, args, phases."""
    H = mdp.hinet
    N = mdp.nodes
    if kind == 'clone':
        return lambda: H.CloneLayer(N.PCANode(input_dim=1, output_dim=1), n_nodes=d)
    if kind == 'layer':
        return lambda: H.Layer([N.PCANode(input_dim=1), Rec(d - 1)] if d > 1 else [Rec(d)])
    if kind == 'same':
        return lambda: H.SameInputLayer([N.PCANode(input_dim=d, output_dim=1), N.IdentityNode(input_dim=d)])
    if kind == 'nested':
        return lambda: H.FlowNode(mdp.Flow([N.PCANode(input_dim=d),
                                            H.FlowNode(mdp.Flow([N.SFANode(input_dim=d), N.NormalizeNode(input_dim=d)])),
                                            H.CloneLayer(N.NormalizeNode(input_dim=1), n_nodes=d)]))
    if kind == 'open':
        # nodes without training, dimensions still open
        k = rng.randint(3)
        return lambda: H.FlowNode(mdp.Flow([[N.QuadraticExpansionNode, N.IdentityNode, lambda: N.CutoffNode(-1, 1)][k](), N.PCANode(), N.IdentityNode()]))
    if kind == 'board':
        p = rng.permutation(d)
        return lambda: H.Switchboard(input_dim=d, connections=p)
    raise ValueError(kind)


def Rec(d):
    from lib.flowzoo import Rec0
    return Rec0(2, 1.5, input_dim=d, output_dim=d)


@sub(st.fixed_dictionaries({'kind': st.sampled_from(['clone', 'layer', 'same', 'nested', 'board', 'open', 'open']), 'd': st.integers(2, 4), 'seed': seeds,
                            'how': st.sampled_from(HOW), 'cut': st.integers(0, 20), 'k': st.integers(0, 13), 'again': st.integers(0, 3)}),
     quick=500, thorough=10000, shards=2, rule="copied during the training")
def composites(case, ctx):
    d = case['d']
    rng = rs(case['seed'], 4)
    new = comp(case['kind'], d, rng, case['seed'])
    ref, orig = new(), new()
    xs = [signal(rng, 40, d) for _ in range(2)]
    ops = []
    for ph in range(8):
        for x in xs:
            ops.append(lambda nd, x=x, ph=ph: nd.train(x) if nd.is_training() and nd.get_current_train_phase() == ph else None)
        ops.append(lambda nd, ph=ph: nd.stop_training() if nd.is_training() and nd.get_current_train_phase() == ph else None)
    tot = 3 * ref.get_remaining_train_phase()
    ops = ops[:tot]
    cut = case['cut'] % (tot + 1)
    for f in ops:
        f(ref)
    for f in ops[:cut]:
        f(orig)
    tmp = ctx.tmpdir()
    cp = orig
    for i in range(1 + case['again']):
        prev = cp
        cp = duplicate(prev, case['how'], tmp, case['k'] + i)
        same_queries(cp, prev, "copy")
    other = duplicate(orig, case['how'], tmp, case['k'])
    if case['kind'] == 'clone':
        check(all(nn is cp.nodes[0] for nn in cp.nodes), "the clones in the copy are not the same node")
    if hasattr(cp, '_flow'):
        check(isinstance(cp.flow, mdp.Flow) and len(cp.flow) == len(orig.flow), "inner flow of the copy")
        check(not any(a is b for a in cp.flow for b in orig.flow), "the copy shares nodes")
        # a copy that fails leaves the node alone
        orig.lock = threading.Lock()
        raises(TypeError, orig.copy, "copy of a lock")
        del orig.lock
    no_sharing(orig, cp)
    # use the other one
    if other.is_training():
        if case['kind'] == 'open' and other.input_dim is None:
            # the copy is free to be used for other data
            other.train(np.hstack([xs[0], xs[0][:, :1] ** 2]))
            check(orig.input_dim is None and all(q.input_dim is None for q in orig.flow), "training a copy sets the dimensions of the original")
        else:
            other.train(xs[0] * 3 + 1)
        try:
            other.stop_training()
        except mdp.NodeException:
            pass
    for f in ops[cut:]:
        f(cp)
    for f in ops[cut:]:
        f(orig)
    x = signal(rng, 9, d)
    y = ref.execute(x)
    close(cp.execute(x), y, 1e-8, "copy")
    close(orig.execute(x), y, 1e-8, "original")
    same_queries(cp, ref, "copy at the end")
    same_queries(orig, ref, "original at the end")
    if ref.is_invertible():
        close(cp.inverse(y), ref.inverse(y), 1e-8, "inverse of the copy")
    ctx.nontrivial(0 < cut < tot or tot == 0)


class MyFlow(mdp.Flow):
    pass


@sub(st.fixed_dictionaries({'kinds': st.lists(st.sampled_from(sorted(ZOO)), min_size=1, max_size=4), 'd': st.integers(2, 3),
                            'seed': seeds, 'how': st.sampled_from(HOW), 'k': st.integers(0, 13),
                            'stage': st.sampled_from(['fresh', 'fresh', 'part', 'trained', 'executed']),
                            'cls': st.sampled_from(['Flow', 'CheckpointFlow', 'My', 'ParallelFlow', 'BiFlow']), 'twin': st.booleans(),
                            'cr': st.sampled_from([False, True, 'name'])}),
     quick=700, thorough=15000, shards=4, rule="at least two nodes")
def flows(case, ctx):
    import bimdp
    d = case['d']
    rng = rs(case['seed'], 1)
    ps = parts(case['kinds'], d, case['seed'])
    cls = {'Flow': mdp.Flow, 'CheckpointFlow': mdp.CheckpointFlow, 'My': MyFlow, 'ParallelFlow': mdp.parallel.ParallelFlow,
           'BiFlow': bimdp.BiFlow}[case['cls']]
    data = mkdata(ps, rng, False, d)
    if case['cls'] == 'BiFlow':
        # arguments go another way in this class
        ps = [Part('id', d, rng) if p.args else p for p in ps]
        if any(p.dout != q.d for p, q in zip(ps, ps[1:])):
            return
        data = mkdata(ps, rng, False, d)

    def train(f):
        its = [source('list', p, c, 'tuple') for p, c in zip(ps, data)]
        a = [None] if case['cls'] == 'CheckpointFlow' else []
        f.train(its, *a)
    ref = cls([p.new() for p in ps])
    orig = cls([p.new() for p in ps], crash_recovery=False)
    if case['twin'] and case['cls'] == 'Flow':
        # the same node twice stays one node
        nd = mdp.nodes.IdentityNode(input_dim=ps[-1].dout)
        orig.append(nd)
        orig.append(nd)
    tw = len(orig) - len(ps)
    x = signal(rng, 12, d)
    try:
        manual = [p.new() for p in ps]
        manual_train(manual, ps, data)
        train(ref)
        y = ref.execute(x)
    except mdp.MDPException:
        ctx.label('node failure')
        return
    if case['cls'] == 'BiFlow':
        y = y[0]
    if case['cr']:
        orig.set_crash_recovery(case['cr'])
    stage = case['stage']
    if tw:
        data2 = data + [data[-1]] * tw
        ps2 = ps + [Part('id', ps[-1].dout, rng)] * tw
    else:
        data2, ps2 = data, ps

    def train2(f):
        its = [source('list', p, c, 'tuple') for p, c in zip(ps2, data2)]
        a = [None] if case['cls'] == 'CheckpointFlow' else []
        f.train(its, *a)
    if stage in ('trained', 'executed'):
        train2(orig)
    elif stage == 'part' and ps[0].trainable:
        manual_train([orig[0]], ps[:1], data[:1])
    if stage == 'executed':
        orig.execute(x)
    tmp = ctx.tmpdir()
    os.chdir(tmp)
    cp = duplicate(orig, case['how'], tmp, case['k'])
    other = duplicate(orig, case['how'], tmp, case['k'] + 1)
    check(type(cp) is cls and len(cp) == len(orig), "type and length of the copy")
    check(cp._crash_recovery == case['cr'] and cp.verbose == orig.verbose, "settings of the copy")
    for a, b in zip(cp, orig):
        check(a is not b, "the copy shares a node")
        same_queries(a, b, "node of the copy")
    if tw:
        check(cp[-1] is cp[-2], "one node occurring twice became two")
    no_sharing(orig.flow, cp.flow)
    # work on the other copy
    other.append(mdp.nodes.IdentityNode())
    del other[0]
    for p, a in arrays(other.flow).items():
        try:
            a[...] = 1
        except (ValueError, TypeError):
            pass

    def out(f):
        r = f.execute(x)
        return r[0] if case['cls'] == 'BiFlow' else r
    if stage in ('fresh', 'part'):
        train2(cp)
        close(out(cp), y, 1e-7, "copy trained after copying")
        train2(orig)
    close(out(cp), y, 1e-7, "copy")
    close(out(orig), y, 1e-7, "original")
    check(len(orig) == len(ps) + tw, "length of the original")
    ctx.nontrivial(len(ps) > 1)
    ctx.label(stage)
