"""The gradient extension against numerical derivatives of plain execution (Richardson extrapolation, exact for these polynomial maps)."""
import copy
import pickle
import numpy as np
import mdp
import bimdp
from mdp import nodes, hinet
from bimdp import BiFlow
from bimdp.hinet import BiFlowNode, CloneBiLayer, BiSwitchboard, Rectangular2dBiSwitchboard
from lib.harness import sub, check, close, st, raises
from lib import gen, nodetab
from lib.gen import seeds, rs

LEAF = st.sampled_from(['sfa', 'sfa', 'sfa2', 'sfa2', 'quad', 'quad', 'id', 'vsfa', 'board', 'board'])
ELEM = st.fixed_dictionaries({'t': LEAF, 'a': st.integers(0, 7), 'b': st.integers(0, 7)})
NEST = st.recursive(ELEM, lambda e: st.fixed_dictionaries({'t': st.sampled_from(['clone', 'clone', 'flow', 'layer', 'same', 'plainclone']),
                                                           'els': st.lists(e, min_size=1, max_size=3), 'n': st.integers(1, 3), 'copies': st.booleans()}), max_leaves=5)


def degree(spec):
    """(a bound of) the polynomial degree"""
    d = 1
    for e in spec:
        if e['t'] in ('quad', 'sfa2'):
            d *= 2
        elif 'els' in e:
            d *= degree(e['els'])
    return d


def inside(e):
    return any(q['t'] == 'board' or 'els' in q for q in e['els'])


class Skip(Exception):
    pass


def train(n, x):
    if n.is_training():
        n.train(x)
        n.stop_training()
    return n


def leaf(e, d, x, bi):
    """A (trained) node for x and its output."""
    m = bimdp.nodes if bi else nodes
    cls = lambda s: getattr(m, s + ('BiNode' if bi else 'Node'))
    t = e['t']
    if t == 'quad':
        if d > 6:
            t = 'id'
        else:
            return cls('QuadraticExpansion')(**({'input_dim': d} if e['a'] % 2 else {}))
    if t == 'id':
        return cls('Identity')(**({'input_dim': d} if e['a'] % 2 else {}))
    if t == 'board':
        conn = [(e['a'] * (i + 1) + e['b'] * i * i) % d for i in range(1 + (e['a'] + e['b']) % (d + 2))]
        return (BiSwitchboard if bi else hinet.Switchboard)(input_dim=d, connections=conn)
    if t == 'sfa2' and d > 5:
        t = 'sfa'
    if t == 'sfa':
        return cls('SFA')(input_dim=d, output_dim=1 + e['a'] % d)
    if t == 'vsfa':
        return cls('VartimeSFA')(input_dim=d, output_dim=1 + e['a'] % d)
    full = d + d * (d + 1) // 2
    return cls('SFA2')(input_dim=d, output_dim=1 + e['a'] % full)


def ready(e, x, bi):
    """A trained element for data x."""
    d = x.shape[1]
    t = e['t']
    if t == 'clone' or t == 'plainclone':
        # a divisor of the number of channels
        n = [k for k in (e['n'], 2, 3, 1) if d % k == 0][0]
        sub = x[:, :d // n]
        if not bi:
            inner = ready(dict(e['els'][0], **({} if 'els' in e['els'][0] else {})), sub, False)
            if inner.input_dim is None:
                raise Skip()
            return hinet.CloneLayer(inner, n)
        inner = ready({'t': 'flow', 'els': e['els']}, sub, True) if len(e['els']) > 1 else ready(e['els'][0], sub, True)
        if inner.input_dim is None:
            raise Skip()
        return CloneBiLayer(inner, n, use_copies=e['copies'])
    if t == 'flow':
        if not bi:
            return ready(e['els'][0], x, False)
        els = []
        for q in e['els']:
            n = ready(q, x, True)
            els.append(n)
            x = n.copy().execute(x)
            if not 1 <= x.shape[1] <= 16:
                raise Skip()
        return BiFlowNode(BiFlow(els), input_dim=d, output_dim=x.shape[1])
    if t in ('layer', 'same'):
        if bi:
            return ready({'t': 'flow', 'els': e['els']}, x, True)
        if t == 'same':
            inner = [ready(q, x, False) for q in e['els']]
        else:
            k = min(len(e['els']), d)
            c = [d * i // k for i in range(k + 1)]
            inner = [ready(q, x[:, c[i]:c[i + 1]], False) for i, q in enumerate(e['els'][:k])]
        # (switchboards are no nodes of layers)
        if any(n.input_dim is None or isinstance(n, hinet.Switchboard) for n in inner):
            raise Skip()
        return (hinet.SameInputLayer if t == 'same' else hinet.Layer)(inner)
    n = leaf(e, d, x, bi)
    if n.is_trainable():
        if x.shape[1] > 1 and np.linalg.cond(np.cov(x.T)) > 1e5 or x.std(0).min() < 1e-4:
            raise Skip()
        if t == 'sfa2':
            q = nodes.QuadraticExpansionNode().execute(x)
            if np.linalg.cond(np.cov(q.T)) > 1e6:
                raise Skip()
        try:
            train(n, x)
        except mdp.NodeException:
            raise Skip()
    return n


def jacobian(f, x, deg):
    """Exact for polynomials of the given degree (up to rounding)."""
    levels = max(1, int(np.ceil(deg / 2.)))
    n, d = x.shape
    cols = []
    for j in range(d):
        tab = []
        for k in range(levels):
            h = 0.5 / 2 ** k
            e = np.zeros(d)
            e[j] = h
            tab.append((f(x + e) - f(x - e)) / (2 * h))
        for m in range(1, levels):
            tab = [(4. ** m * tab[i + 1] - tab[i]) / (4. ** m - 1) for i in range(len(tab) - 1)]
        cols.append(tab[0])
    return np.stack(cols, axis=2)


def state(n):
    return pickle.dumps(n)


def data(case, n, d):
    return rs(case['seed']).normal(size=(n, d)).dot(np.eye(d) + 0.3 * rs(case['seed'], 7).normal(size=(d, d)) / d)


def scale_of(j, y):
    return max(1., np.abs(j).max() if j.size else 0., np.abs(y).max() if y.size else 0.)


def pkl(n, x):
    """The execution on a copy."""
    q = copy.deepcopy(n)
    return q.execute(x)


@sub(st.fixed_dictionaries({'els': st.lists(ELEM | NEST, min_size=2, max_size=4), 'd': st.integers(1, 6), 'n': st.one_of(*([st.integers(1, 4)] * 6 + [st.sampled_from([12, 70])])), 'seed': seeds, 'mode': st.sampled_from(['flow', 'flow', 'flow', 'grad', 'split', 'id', 'train']),
                            'k': st.integers(0, 3), 'f32': st.booleans()}),
     quick=3000, thorough=30000, rule='gradient of a flow of at least two different kinds of nodes')
def flows(case, ctx):
    """The gradient that comes out of a BiFlow."""
    x = data(case, 120, case['d'])
    els = []
    z = x
    try:
        for i, e in enumerate(case['els']):
            n = ready(e, z, True)
            els.append(n)
            z = pkl(n, z)
            if not 1 <= z.shape[1] <= 16 or np.abs(z).max() > 1e3:
                raise Skip()
    except Skip:
        return 'discard'
    deg = degree(case['els'])
    if deg > 8:
        return 'discard'
    for i, n in enumerate(els):
        n._node_id = 'e%d' % i
    flow = BiFlow(els)
    r = rs(case['seed'], 3)
    p = r.normal(size=(case['n'], case['d']))
    p0 = p.copy()
    f = lambda v: np.asarray(flow.execute(v)[0])
    plain = f(p)
    jac = jacobian(f, p, deg)
    before = [state(n) for n in flow]
    tol = 1e-7 * 4 ** np.log2(deg)
    msg0 = {'method': 'gradient', 'other': 'kept'}
    mode = case['mode']
    with mdp.extension('gradient'):
        if mode == 'flow' or mode == 'train':
            y, msg = flow.execute(p, dict(msg0))
            grad, want = msg['grad'], jac
            check(msg.get('other') == 'kept', 'the rest of the message got lost: %r' % (msg,))
            y2, msg2 = flow.execute(p, dict(msg0))
            check(np.array_equal(msg2['grad'], grad), 'second request gives another gradient')
            if case['n'] > 1:
                g1 = flow.execute(p[:1], dict(msg0))[1]['grad']
                close(g1, grad[:1], 1e-10, 'gradient of the first row alone', scale=scale_of(jac, plain))
        elif mode == 'grad':
            g0 = r.normal(size=(case['n'], case['d'], 1 + case['k']))
            keep = g0.copy()
            y, msg = flow.execute(p, dict(msg0, grad=g0))
            check(np.array_equal(g0, keep), 'the given gradient was changed')
            grad, want = msg['grad'], np.einsum('noi,nik->nok', jac, g0)
        elif mode == 'split':
            k = case['k'] % len(els)
            m = dict(msg0)
            y = p
            for part in ([els[:k], els[k:]] if k else [els]):
                y, m = BiFlow(part).execute(y, m)
            grad, want = m['grad'], jac
        else:
            # only one of the nodes is asked
            k = case['k'] % len(els)
            # (BiSwitchboards route the arrays in messages)
            if isinstance(els[k], (BiFlowNode, CloneBiLayer)) or any(e['t'] == 'board' or 'els' in e for e in case['els'][k + 1:]):
                return 'discard'
            y, msg = flow.execute(p, {'e%d->method' % k: 'gradient'})
            grad = msg['grad']
            q = p
            for n in els[:k]:
                q = pkl(n, q)
            want = jacobian(lambda v: pkl(els[k], v), q, degree(case['els'][k:k + 1]))
        again = f(p)
    check(np.array_equal(p, p0), 'the input was changed')
    sc = scale_of(want, plain)
    check(grad.shape == want.shape, 'shape of the gradient is %r instead of %r' % (grad.shape, want.shape))
    close(grad, want, tol, 'gradient is not the derivative', scale=sc)
    close(y, plain, 1e-12, 'the execution result differs', scale=sc)
    close(again, plain, 1e-12, 'normal execution with active extension', scale=sc)
    close(f(p), plain, 1e-12, 'normal execution afterwards', scale=sc)
    check([state(n) for n in flow] == before, 'the nodes were changed')
    kinds = set(e['t'] for e in case['els'])
    ctx.label(mode)
    for k in sorted(kinds):
        ctx.label(k)
    if len(kinds) > 1:
        ctx.nontrivial()


@sub(st.fixed_dictionaries({'e': NEST, 'd': st.integers(1, 6), 'n': st.one_of(*([st.integers(1, 4)] * 6 + [st.sampled_from([12, 70])])), 'seed': seeds, 'bi': st.booleans(), 'grad': st.booleans(), 'exec': st.booleans(),
                            'f32': st.sampled_from([False, False, True]), 'k': st.integers(1, 4)}),
     quick=3000, thorough=30000, rule='a trained node, an expansion or a layer')
def single(case, ctx):
    """_gradient of single nodes and layers, ordinary or bidirectional."""
    x = data(case, 120, case['d'])
    case['f32'] = case['f32'] and not case['bi']
    dt = 'f' if case['f32'] else 'd'
    try:
        n = ready(case['e'], x.astype(dt), case['bi'])
    except Skip:
        return 'discard'
    if case['bi'] and (isinstance(n, BiFlowNode) or (isinstance(n, CloneBiLayer) and isinstance(n.nodes[0], BiFlowNode))):
        # the flow inside can only be reached with a message
        return 'discard'
    deg = degree([case['e']])
    if deg > 8:
        return 'discard'
    r = rs(case['seed'], 3)
    p = r.normal(size=(case['n'], case['d']))
    if case['exec']:
        n.execute(p.astype(dt))
    if case['f32']:
        # derivatives of the double precision function are not available
        p = p.astype('f')
    plain = np.asarray(pkl(n, p), dtype='d')
    if case['f32']:
        h = 0.25
        jac = np.stack([(np.asarray(pkl(n, (p + h * e).astype('f')), dtype='d') - pkl(n, (p - h * e).astype('f'))) / (2 * h) for e in np.eye(case['d'])], axis=2)
        if deg > 2:
            return 'discard'
        tol = 2e-4
    else:
        jac = jacobian(lambda v: pkl(n, v), p, deg)
        tol = 1e-7 * 4 ** np.log2(deg)
    p0 = p.copy()
    g0 = r.normal(size=(case['n'], case['d'], case['k'])) if case['grad'] else None
    n.execute(p)
    before = state(n)
    try:
        with mdp.extension('gradient'):
            y, msg = n._gradient(p, g0) if case['grad'] else n._gradient(p)
    except NotImplementedError:
        # switchboards and flow nodes have no gradient of their own inside of layers
        return 'discard' if 'els' in case['e'] and inside(case['e']) else check(False, 'no gradient')
    grad = msg['grad']
    want = np.einsum('noi,nik->nok', jac, g0) if case['grad'] else jac
    sc = scale_of(want, plain)
    check(grad.shape == want.shape, 'shape of the gradient is %r instead of %r' % (grad.shape, want.shape))
    close(grad, want, tol, 'gradient is not the derivative', scale=sc)
    close(y, plain, 1e-4 if case['f32'] else 1e-12, 'the execution result differs', scale=sc)
    check(np.array_equal(p, p0), 'the input was changed')
    check(state(n) == before, 'the node was changed')
    check(not hasattr(n, '_gradient'), 'the method is still there after deactivation')
    ctx.label(case['e']['t'])
    if case['e']['t'] not in ('id', 'board'):
        ctx.nontrivial()


@sub(st.fixed_dictionaries({'e': ELEM, 'd': st.integers(1, 6), 'n': st.integers(1, 4), 'seed': seeds, 'what': st.sampled_from(['untrained', 'boards', 'boards', 'fresh', 'fresh'])}),
     quick=1000, thorough=10000, rule='a rectangular switchboard, or a node without fixed dimensions')
def special(case, ctx):
    """Untrained nodes, nodes that were never executed, two-dimensional switchboards, int data."""
    r = rs(case['seed'])
    if case['what'] == 'untrained':
        n = leaf(case['e'], case['d'], None, case['seed'] % 2)
        if not n.is_trainable():
            return 'discard'
        with mdp.extension('gradient'):
            raises(mdp.TrainingException, lambda: n._gradient(r.normal(size=(case['n'], case['d']))), 'gradient of an untrained node')
        return
    if case['what'] == 'boards':
        w, h = 1 + case['e']['a'] % 4, 1 + case['e']['b'] % 4
        fx, fy = 1 + r.randint(w), 1 + r.randint(h)
        c = 1 + r.randint(2)
        n = Rectangular2dBiSwitchboard(in_channels_xy=(w, h), field_channels_xy=(fx, fy), field_spacing_xy=(1 + r.randint(fx), 1 + r.randint(fy)), in_channel_dim=c, ignore_cover=True)
        x = r.normal(size=(case['n'], w * h * c))
        flow = BiFlow([n, CloneBiLayer(bimdp.nodes.QuadraticExpansionBiNode(input_dim=n.out_channel_dim), n.output_channels)]) if n.out_channel_dim < 7 else BiFlow([n])
        ctx.nontrivial()
    else:
        m = bimdp.nodes
        seq = [[m.QuadraticExpansionBiNode()], [m.IdentityBiNode()], [m.IdentityBiNode(), m.QuadraticExpansionBiNode()], [m.QuadraticExpansionBiNode(), m.IdentityBiNode()]][case['e']['a'] % 4]
        x = r.randint(-3, 4, size=(case['n'], case['d'])).astype(['d', 'i', 'f'][case['e']['b'] % 3])
        flow = BiFlow(seq)
        ctx.nontrivial()
    with mdp.extension('gradient'):
        y, msg = flow.execute(x, {'method': 'gradient'})
    fresh = pickle.loads(pickle.dumps(flow))
    plain = np.asarray(fresh.execute(x)[0], dtype='d')
    for q in flow:
        q._dtype = None
    f = lambda v: np.asarray(pkl(flow, v)[0], dtype='d')
    jac = jacobian(f, x.astype('d'), 2)
    check(msg['grad'].shape == jac.shape, 'shape of the gradient is %r instead of %r' % (msg['grad'].shape, jac.shape))
    close(msg['grad'], jac, 1e-5 if x.dtype == np.float32 else 1e-9, 'gradient is not the derivative', scale=scale_of(jac, plain))
    close(y, plain, 1e-5, 'the execution result differs', scale=scale_of(jac, plain))


NONE = [k for k in nodetab.NAMES if not nodetab.TAB[k].one_row]


@sub(st.fixed_dictionaries({'name': st.sampled_from(NONE), 'seed': seeds, 'wrap': st.sampled_from(['self', 'self', 'layer', 'same', 'clone'])}),
     quick=1000, thorough=10000, rule='the gradient was refused')
def others(case, ctx):
    """Every other node either reports that it has no gradient, or gives the right one."""
    entry = nodetab.TAB[case['name']]
    cfg = entry.cfg(case['seed'])
    gen.reseed(case['seed'])
    node = cfg.new()
    try:
        entry.train(node, cfg, cfg.data(entry.n))
        x = cfg.data(3, 5)
        node.execute(x, *cfg.eargs(x, 5))
    except Exception:
        return 'discard'
    if case['wrap'] != 'self' and (not entry.rowwise or cfg.eargs(x, 5) or entry.stochastic or entry.stateful):
        return 'discard'
    f = node
    if case['wrap'] == 'layer':
        f = hinet.Layer([nodes.IdentityNode(input_dim=1), node])
        x = np.hstack([x[:, :1], x])
    elif case['wrap'] == 'same':
        f = hinet.SameInputLayer([node, nodes.IdentityNode(input_dim=node.input_dim)])
    elif case['wrap'] == 'clone':
        f = hinet.CloneLayer(node, 2)
        x = np.hstack([x, x])
    ctx.label(case['wrap'])
    try:
        with mdp.extension('gradient'):
            y, msg = f._gradient(x)
    except NotImplementedError:
        ctx.nontrivial()
        return
    except mdp.NodeException:
        check(case['name'] == 'RBMWithLabelsNode', 'the gradient failed')
        return
    ctx.label('has gradient ' + case['name'])
    if len(y) != len(x) or cfg.eargs(x, 5):
        check(False, 'gradient of %s' % case['name'])
    jac = jacobian(f.execute, x, 8)
    check(msg['grad'].shape == jac.shape, 'shape of the gradient is %r instead of %r' % (msg['grad'].shape, jac.shape))
    close(msg['grad'], jac, 1e-3, 'gradient is not the derivative', scale=scale_of(jac, y))
