"""Bidirectional flows against a reference interpreter of targets and messages."""
import copy
import pickle
import numpy as np
import mdp
import bimdp
from mdp import nodes
from bimdp import BiFlow, BiNode, BiFlowException, BiNodeException, BiCheckpointFlow, MessageResultContainer
from bimdp.hinet import BiFlowNode, CloneBiLayer
from lib.harness import sub, check, close, st, raises
from lib import gen, binodes, bitrees
from lib.binodes import Model, FlowErr, NodeErr, Discard, build, same, same_log, show, snap, LOG
from lib.gen import seeds, rs

IDS = ['n0', 'n1', 'n2', 'n3', 'g0', 'g1']
TARGET = st.sampled_from([1, 1, 1, 0, -1, -1, 2, -2, 3, -3, 'exit', 'nosuch'] + IDS * 4)
UPD = st.sampled_from([None, None, 'drop', {}, {'m': 1}, {'m': 2, 'q': 's'}, {'n1->a': 5}, {'n2->target': 'n0'}, {'l': [1, 2]}, {'g0->target': -1},
                       {'n0->junk': 0}, {'a': 'plain'}, {'n3->x->y': 1}])
ENTRY = st.fixed_dictionaries({'y': st.sampled_from(['same', 'same', 'scale', 'scale', 'none']), 'msg': UPD,
                               'kind': st.sampled_from(['y', 'm', 'm', 't', 't', 't', 't', 't', 'bad'])  , 'target': TARGET})
GOOD = st.fixed_dictionaries({'y': st.sampled_from(['same', 'scale']), 'msg': UPD, 'kind': st.sampled_from(['y', 'm', 't', 't', 't']), 'target': TARGET})
SCRIPT = st.lists(st.none() | GOOD | ENTRY, max_size=3)


def leaf(train):
    tr = st.lists(st.lists(GOOD, max_size=2), min_size=0, max_size=3) if train else st.just([])
    return st.fixed_dictionaries({'t': st.sampled_from(['msg', 'msg', 'plain', 'plain', 'ord']), 'id': st.sampled_from(['n0', 'n1', 'n2', 'n3', None]),
                                  'execs': SCRIPT, 'trains': tr, 'pre': st.sampled_from([0, 0, 0, 0, 1, 2, 3]) if train else st.just(0), 'stops': st.lists(st.none() | GOOD, min_size=3, max_size=3)})


def tree(train):
    lf = leaf(train)
    inner = st.lists(lf, min_size=1, max_size=3)
    g1 = st.fixed_dictionaries({'t': st.just('group'), 'id': st.sampled_from(['g0', 'g1', None]), 'els': inner})
    g2 = st.fixed_dictionaries({'t': st.just('group'), 'id': st.sampled_from(['g0', 'g1', None]), 'els': st.lists(st.one_of(lf, lf, g1), min_size=1, max_size=3)})
    return st.lists(st.one_of(lf, lf, lf, g1, g2), min_size=1, max_size=4)


MSG = st.none() | st.dictionaries(st.sampled_from(['a', 'm', 'q', 'l', 'n0->a', 'n1->a', 'n2->a', 'g0->a', 'n1->y', 'zz->a', 'n2->target', 'arr']), st.integers(0, 9), max_size=4)


def mkmsg(m, n):
    if m is None:
        return None
    out = {}
    for k, v in m.items():
        if k.endswith('target'):
            v = ['n0', 'n1', 1, 'exit', 'n3', -1, 'n2', 1, 1, 'n0'][v]
        elif k == 'arr':
            v = np.full((n, 2), float(v))
        elif k == 'l':
            v = [v]
        elif k == 'q':
            v = 'q%d' % v
        out[k] = v
    return out


def name_leaves(spec, prefix=''):
    """Unique names; each id only once (the first one counts anyway), at most one trainable kind per ordinary node."""
    for i, e in enumerate(spec):
        e['name'] = '%s%d' % (prefix, i)
        if e['t'] == 'group':
            name_leaves(e['els'], e['name'] + '.')
    return spec


def ids(spec):
    out = set()
    for e in spec:
        if e['t'] != 'ord' and e['id']:
            out.add(e['id'])
        if e['t'] == 'group':
            out |= ids(e['els'])
    return out


def known(o, have):
    """The same with names that do exist (except 'nosuch')."""
    if isinstance(o, dict):
        return dict((k, have[IDS.index(v) % len(have)] if k in ('target',) and v in IDS and v not in have and have else known(v, have)) for k, v in o.items())
    if isinstance(o, list):
        return [known(v, have) for v in o]
    return o


def prepare(spec):
    return name_leaves(known(copy.deepcopy(spec), sorted(ids(spec))))


def depth(spec):
    return sum(1 + depth(e['els']) if e['t'] == 'group' else 0 for e in spec)


def verdict(f):
    """('ok', value), ('flow', None) or ('node', None)"""
    try:
        return 'ok', f()
    except FlowErr:
        return 'flow', None
    except NodeErr:
        return 'node', None


def real(f):
    try:
        return 'ok', f()
    except BiFlowException as e:
        return 'flow', e
    except (mdp.NodeException, BiNodeException) as e:
        return 'node', e


def chunks(case, rng):
    n = [rng.randint(1, 4) for _ in case['msgs']]
    return [rng.normal(size=(k, 2)) for k in n], [mkmsg(m, k) for m, k in zip(case['msgs'], n)]


@sub(st.fixed_dictionaries({'tree': tree(False), 'msgs': st.lists(MSG, min_size=1, max_size=3) | st.lists(MSG, min_size=4, max_size=9), 'targets': st.lists(st.sampled_from([None, None, None, 0, 1, 2, -1, 'n0', 'n1', 'n2', 'g0', 'exit', 'nosuch', 5]), min_size=3, max_size=3),
                            'form': st.sampled_from(['list', 'list', 'gen', 'single', 'none', 'nonelist']), 'reps': st.integers(1, 2), 'seed': seeds}),
     quick=3000, rule='jump', shards=4)
def execute(case, ctx):
    """Trace and results of executions."""
    spec = prepare(case['tree'])
    flow = build(spec)
    rng = rs(case['seed'])
    form = case['form']
    xs, msgs = chunks(case, rng)
    targets = (case['targets'] + [None] * len(xs))[:len(xs)]
    if form in ('single', 'none'):
        xs, msgs, targets = xs[:1], msgs[:1], targets[:1]
    if form.startswith('none'):
        xs = [None] * len(xs)
        msgs = [m if m else {'m': 7} for m in msgs]
    keep = snap(msgs)
    for rep in range(case['reps']):
        model = Model(spec)
        try:
            want = verdict(lambda: model.execute(xs, snap(msgs), targets))
        except Discard:
            ctx.label('discard')
            return
        del LOG[:]
        if form == 'list':
            args = (xs, msgs, targets)
        elif form == 'gen':
            args = ((x for x in xs), iter(msgs), iter(targets))
        elif form == 'single':
            args = (xs[0], msgs[0], targets[0])
        elif form == 'none':
            args = (None, msgs[0], targets[0])
        else:
            args = (None, msgs, targets if any(t is not None for t in targets) else None)
        got = real(lambda: flow.execute(*args))
        check(got[0] == want[0], "execution ended with %s, expected %s: trace %s, expected %s", got[:2], want[0], show(LOG), show(model.log))
        full = model.log
        if want[0] == 'flow' and model.joining:
            full = full[:len(LOG)]
        check(same_log(LOG, full), "trace %s, expected %s", show(LOG), show(full))
        check(all(same(a, b) for a, b in zip(msgs, keep)), "the given messages were changed: %s, given %s", msgs, keep)
        ctx.nontrivial(model.jumps > 0)
        if want[0] != 'ok':
            ctx.label('refused')
            return
        y, m = got[1]
        check(same(y, want[1][0]), "result %s, expected %s", y, want[1][0])
        check(isinstance(m, dict) and same(m, want[1][1]), "message %s, expected %s", m, want[1][1])
        ctx.label('nested %d' % depth(spec))
        ctx.label(form)


@sub(st.fixed_dictionaries({'tree': tree(True), 'msgs': st.lists(MSG, min_size=1, max_size=3), 'stops': st.lists(st.none() | st.none() | MSG, min_size=4, max_size=4),
                            'form': st.sampled_from(['list', 'array', 'pernode', 'none']), 'seed': seeds, 'after': MSG}),
     quick=4000, rule='jump or multiple phases', shards=4)
def train(case, ctx):
    """Trace of trainings."""
    follow_training(prepare(case['tree']), case, ctx)


@sub(st.fixed_dictionaries({'tree': bitrees.calm_tree(), 'msgs': st.lists(bitrees.CALMMSG, min_size=1, max_size=3), 'stops': st.lists(st.none() | st.none() | bitrees.CALMMSG, min_size=4, max_size=4),
                            'form': st.sampled_from(['list', 'array', 'pernode', 'none']), 'seed': seeds, 'after': bitrees.CALMMSG,
                            'ends': st.lists(st.sampled_from([-1, -1, 1, 0, 'exit', 'exit', 'n0', 'n1', 'g0', None, None, None, None, None]), min_size=6, max_size=6)}),
     quick=2500, rule='jump or multiple phases', shards=4)
def train_calm(case, ctx):
    """Trainings that mostly succeed, continued after the end of training phases."""
    spec = bitrees.prepare(case['tree'])
    ends = list(case['ends'])

    def visit(els):
        for e in els:
            if e['t'] == 'group':
                visit(e['els'])
            elif e['trains'] and ends:
                t = ends.pop(0)
                if t is not None:
                    ph = min(e['pre'], len(e['trains']) - 1)
                    e['stops'][ph] = dict(y='same', msg=None, kind='t', target=t)
    visit(spec)
    follow_training(bitrees.backward(prepare(spec)), case, ctx)


def follow_training(spec, case, ctx):
    flow = build(spec)
    rng = rs(case['seed'])
    nel = len(spec)
    stops = [mkmsg(m, 2) for m in case['stops'][:nel]]
    stops = [s if s else None for s in stops]
    form = case['form']
    xs, msgs = chunks(case, rng)
    data, mm = [xs] * nel, [msgs] * nel
    if form == 'array':
        data, mm = [xs[:1]] * nel, [msgs[:1]] * nel
        args = (xs[0], msgs[0])
    elif form == 'pernode':
        data = [xs if i % 2 == 0 else xs[::-1] for i in range(nel)]
        mm = [msgs if i % 2 == 0 else msgs[::-1] for i in range(nel)]
        args = (data, mm)
    elif form == 'none':
        msgs = [m if m else {'m': 1} for m in msgs]
        data, mm = [[None] * len(msgs)] * nel, [msgs] * nel
        args = (None, mm)
    else:
        args = (data, mm)
        if all(m is None for m in msgs):
            args = (data, None)
    keep, keepstops = snap(msgs), snap(stops)
    model = Model(spec)
    if not any(not e.trained() for e in model.els):
        return
    try:
        want = verdict(lambda: model.train(data, snap(mm), stops))
    except Discard:
        ctx.label('discard')
        return
    del LOG[:]
    got = real(lambda: flow.train(*args, stop_messages=stops if any(s is not None for s in stops) else None))
    check(got[0] == want[0], "training ended with %s, expected %s: trace %s, expected %s", got, want[0], show(LOG), show(model.log))
    check(same_log(LOG, model.log), "trace %s, expected %s", show(LOG), show(model.log))
    check(all(same(a, b) for a, b in zip(msgs, keep)), "the given messages were changed: %s, given %s", msgs, keep)
    check(all(same(a, b) for a, b in zip(stops, keepstops)), "the given stop messages were changed")
    ctx.nontrivial(model.jumps > 0)
    if want[0] != 'ok':
        ctx.label('refused')
        return
    ctx.nontrivial(model.jumps > 0 or any(e.nph > 1 for e in model.els))
    ctx.label('phases %d' % sum(e.nph for e in model.els))
    # afterwards
    del LOG[:]
    model.log[:] = []
    x = rng.normal(size=(3, 2))
    m = mkmsg(case['after'], 3)
    try:
        want = verdict(lambda: model.execute([x], [snap(m)], [None]))
    except Discard:
        return
    got = real(lambda: flow.execute(x, m))
    check(got[0] == want[0] and same_log(LOG, model.log), "after training: %s, trace %s, expected %s", got[0], show(LOG), show(model.log))
    if want[0] == 'ok':
        check(same(got[1][0], want[1][0]) and same(got[1][1], want[1][1]), "after training: %s, expected %s", got[1], want[1])


# ------------------------------------------------------------------ ordinary nodes
def z(kind, d, rng):
    return {'pca': lambda: nodes.PCANode(input_dim=d), 'white': lambda: nodes.WhiteningNode(), 'sfa': lambda: nodes.SFANode(output_dim=max(1, d - 1)),
            'poly': lambda: nodes.PolynomialExpansionNode(2), 'id': lambda: nodes.IdentityNode(), 'norm': lambda: nodes.NormalizeNode(),
            'pca1': lambda: nodes.PCANode(output_dim=max(1, d - 1)), 'cut': lambda: nodes.CutoffNode(-1.5, 1.5), 'sfa2': lambda: nodes.SFA2Node(output_dim=d),
            'fda': lambda: nodes.FDANode(output_dim=min(d, 2)), 'sw': lambda: mdp.hinet.Switchboard(d, rng.permutation(d)),
            'layer': lambda: mdp.hinet.Layer([nodes.PCANode(input_dim=1), nodes.WhiteningNode(input_dim=d - 1)]) if d > 1 else nodes.IdentityNode(),
            'flownode': lambda: mdp.hinet.FlowNode(nodes.PCANode(input_dim=d) + nodes.SFANode()),
            'rect': lambda: nodes.LinearRegressionNode(with_bias=True)}[kind]()


KINDS = ['pca', 'pca1', 'white', 'sfa', 'poly', 'id', 'norm', 'cut', 'fda', 'fda', 'sw', 'layer', 'flownode']


def bi(node, nid):
    """The same node as bidirectional node, if there is one."""
    c = getattr(bimdp.nodes, type(node).__name__.replace('Node', 'BiNode'), None)
    return c


@sub(st.fixed_dictionaries({'kinds': st.lists(st.sampled_from(KINDS), min_size=1, max_size=4), 'bi': st.lists(st.booleans(), min_size=4, max_size=4), 'd': st.integers(2, 4),
                            'form': st.sampled_from(['array', 'list', 'list', 'gen']), 'nchunks': st.integers(1, 3), 'seed': seeds,
                            'label': st.sampled_from(['plain', 'id']), 'msg': st.booleans(), 'wrap': st.integers(0, 3), 'prefix': st.integers(0, 2)}),
     quick=500, rule='at least two nodes', shards=4)
def ordinary(case, ctx):
    """Training, execution and inversion against the ordinary flow."""
    rng = rs(case['seed'])
    d = case['d']
    n = 40
    parts = [gen.spectral(rng, n, d) + (rng.randint(0, 2, size=n)[:, None] * 2.) for _ in range(case['nchunks'])]
    if case['form'] == 'array':
        parts = parts[:1]
    labels = [(p[:, 0] > p[:, 0].mean()).astype(int) for p in parts]
    plain, binodes_, dd = [], [], d
    usefda = False
    for i, k in enumerate(case['kinds']):
        if k == 'poly' and ('poly' in case['kinds'][:i] or i == len(case['kinds']) - 1):
            k = 'id'
        if k == 'layer' and dd < 2 or i and k in ('white', 'flownode', 'pca', 'pca1') and case['kinds'][i - 1] in ('white', 'sfa', 'norm', 'flownode', 'layer', 'fda', 'cut', 'pca', 'pca1'):
            k = 'id'
        st0 = rng.get_state()
        node = z(k, dd, rng)
        rng.set_state(st0)
        node2 = z(k, dd, rng)
        if k == 'fda' or (case['bi'][i] and bi(node2, '') is not None):
            kw = {'pca': dict(input_dim=dd), 'pca1': dict(output_dim=max(1, dd - 1)), 'white': {}, 'sfa': dict(output_dim=max(1, dd - 1)), 'poly': dict(degree=2), 'id': {},
                  'norm': {}, 'cut': dict(lower_bound=-1.5, upper_bound=1.5), 'fda': dict(output_dim=min(dd, 2))}.get(k)
            if kw is not None:
                node2 = bi(node2, '')(node_id='b%d' % i, **kw)
        plain.append(node)
        binodes_.append(node2)
        usefda = usefda or k == 'fda'
        if k in ('pca1', 'sfa'):
            dd = max(1, dd - 1)
        elif k == 'fda':
            dd = min(dd, 2)
        elif k == 'poly':
            dd = dd + dd * (dd + 1) // 2
    isfda = [isinstance(x, nodes.FDANode) for x in plain]
    flow, biflow = mdp.Flow(plain), BiFlow(binodes_)
    # train
    data = [[(p, l) for p, l in zip(parts, labels)] if f else parts for f in isfda]
    msgs = []
    for i, f in enumerate(isfda):
        if not f:
            msgs.append([None] * len(parts) if not case['msg'] else [{'foo': j} for j in range(len(parts))])
        else:
            key = 'labels' if case['label'] == 'plain' else 'b%d->labels' % i
            msgs.append([{key: l} for l in labels])
    with np.errstate(all='ignore'):
        try:
            if case['form'] == 'array' and not usefda:
                flow.train(parts[0])
            else:
                flow.train(data)
        except (mdp.MDPException, np.linalg.LinAlgError):
            # not enough data for these nodes
            ctx.label('untrainable')
            return
    if case['form'] == 'array':
        m = {}
        for mm in msgs:
            m.update(mm[0] or {})
        if m or rng.rand() < 0.5:
            biflow.train(parts[0], m or None)
        else:
            biflow.train(parts[0])
    elif usefda or case['msg']:
        biflow.train([parts] * len(plain), msgs)
    elif case['form'] == 'gen':
        class It(object):
            def __iter__(self):
                return (p for p in parts)
        biflow.train([It()] * len(plain))
    else:
        biflow.train([parts] * len(plain))
    x = gen.spectral(rng, 15, d)
    with np.errstate(all='ignore'):
        want = flow.execute(x)
        if not np.all(np.isfinite(want)) or np.abs(want).max() > 1e5:
            return
    msg = {'bar': 3} if case['msg'] else None
    y, m = biflow.execute(x, msg)
    close(y, want, 1e-7, "execution")
    check(m == (msg or {}), "message %s, expected %s", m, msg or {})
    y, m = biflow.execute([x[:4], x[4:5], x[5:]], [msg] * 3 if msg else None)
    close(y, want, 1e-7, "execution of chunks")
    check(m == ({'bar': 9} if msg else {}), "message of chunks %s", m)
    close(biflow(x)[0], want, 1e-7, "call")
    for j in range(len(plain)):
        check(biflow[j].is_trainable() == plain[j].is_trainable() and not biflow[j].is_training(), "state of node %d", j)
    if all(p.is_invertible() for p in plain):
        inv = flow.inverse(want)
        close(biflow.inverse(want), inv, 1e-6, "inversion")
        if all(isinstance(b, BiNode) for b in binodes_):
            y, m = biflow.execute(want, {'method': 'inverse'}, len(plain) - 1)
            close(y, inv, 1e-6, "inversion by message")
            node = BiFlowNode(biflow)
            r = node.execute(want, {node.node_id and '' or 'method': 'inverse'})
            check(isinstance(r, tuple) and len(r) == 3 and r[2] == -1, "inversion by message of a BiFlowNode: target %s", r[2:])
            close(r[0], inv, 1e-6, "inversion by message of a BiFlowNode")
            ctx.label('message inversion')
    # a part as flow node
    if len(plain) > 1:
        w = case['wrap'] % (len(plain) - 1) + 1
        fl2 = BiFlow([BiFlowNode(BiFlow(list(biflow)[:w]))] + list(biflow)[w:])
        close(fl2.execute(x)[0], want, 1e-7, "with a BiFlowNode")
        ctx.nontrivial()
    for c in (biflow.copy(), pickle.loads(pickle.dumps(biflow))):
        check(type(c) is BiFlow, "type of copy")
        close(c.execute(x)[0], want, 1e-7, "copy")


# ------------------------------------------------------------------ joining messages
VAL = st.sampled_from(['int', 'int', 'list', 'str', 'arr', 'arr', 'arr1', 'tuple', 'none', 'float', 'arrbad', 'dict'])


def val(kind, rng):
    return {'int': lambda: int(rng.randint(10)), 'list': lambda: [int(rng.randint(10))], 'str': lambda: 's%d' % rng.randint(10), 'arr': lambda: rng.normal(size=(rng.randint(0, 4), 2)),
            'arr1': lambda: rng.normal(size=rng.randint(1, 4)), 'tuple': lambda: (int(rng.randint(10)),), 'none': lambda: None, 'float': lambda: float(rng.randint(9)) / 4,
            'arrbad': lambda: rng.normal(size=(2, 3)), 'dict': lambda: {'k': 1}}[kind]()


@sub(st.fixed_dictionaries({'msgs': st.lists(st.none() | st.dictionaries(st.sampled_from('abc'), VAL, max_size=3), min_size=1, max_size=4) | st.lists(st.none() | st.dictionaries(st.sampled_from('abc'), VAL, max_size=3), min_size=5, max_size=9), 'uni': st.dictionaries(st.sampled_from('abc'), VAL, min_size=1, max_size=3),
                            'mode': st.sampled_from(['free', 'uniform', 'uniform']), 'none': st.lists(st.booleans(), min_size=9, max_size=9), 'ynone': st.sampled_from(['no', 'all', 'some']), 'seed': seeds}),
     quick=600, rule='at least two messages', shards=2)
def joined(case, ctx):
    """Joining the results of chunked execution."""
    rng = rs(case['seed'])
    if case['mode'] == 'free':
        msgs = [None if m is None else dict((k, val(v, rng)) for k, v in m.items()) for m in case['msgs']]
    else:
        msgs = [dict((k, val(v, rng)) for k, v in case['uni'].items() if not (case['none'][i] and rng.rand() < 0.3)) for i in range(len(case['msgs']))]
    keep = snap(msgs)

    class Give(BiNode):
        def is_trainable(self):
            return False

        def _execute(self, x, i):
            y = x
            if case['ynone'] == 'all' or (case['ynone'] == 'some' and case['none'][i]):
                y = None
            return y, msgs[i]

    def ref():
        return binodes.join(keep)
    try:
        want = ('ok', ref())
    except FlowErr:
        want = ('flow', None)
    except ValueError:
        want = ('value', None)
    n = len(msgs)
    xs = [rng.normal(size=(2, 2)) for _ in range(n)]
    if case['ynone'] == 'some' and 0 < sum(case['none'][:n]) < n:
        want = ('flow', None)
    for rep in range(2):
        try:
            got = ('ok', BiFlow([Give(), Drop()]).execute(xs, [{'g->i': i, 'i': i} for i in range(n)]))
        except BiFlowException:
            got = ('flow', None)
        except ValueError:
            got = ('value', None)
        if want[0] == 'value' and got[0] == 'flow':
            want = got
        check(got[0] == want[0], "joining %s: %s, expected %s", keep, got, want)
        check(all(same(a, b) for a, b in zip(msgs, keep)), "the messages of the node were changed: %s, before %s", msgs, keep)
        if got[0] == 'ok':
            check(same(got[1][1], want[1]), "joined %s, expected %s", got[1][1], want[1])
            if case['ynone'] == 'all' or (case['ynone'] == 'some' and all(case['none'][:n])):
                check(got[1][0] is None, "data result %s instead of None", got[1][0])
            else:
                check(np.array_equal(got[1][0], np.concatenate(xs)), "data result")
    cont = MessageResultContainer()
    try:
        for m in msgs:
            cont.add_message(m)
        got = ('ok', cont.get_message())
    except BiFlowException:
        got = ('flow', None)
    except ValueError:
        got = ('value', None)
    if case['ynone'] != 'some':
        check(got[0] == want[0] and (got[0] != 'ok' or same(got[1], want[1])), "container %s, expected %s", got, want)
    ctx.nontrivial(n > 1)
    ctx.label(want[0])


class Drop(BiNode):
    """Removes the helper entry."""

    def is_trainable(self):
        return False

    def _execute(self, x, msg):
        msg = dict(msg)
        msg.pop('i', None)
        msg.pop('g->i', None)
        return x, msg


# ------------------------------------------------------------------ layers
class LayNode(BiNode):
    """Its results depend on everything it has seen since the reset and in training."""

    def __init__(self, ret='m', target=None, phases=1, stopret=None, **kw):
        self.ret, self.tgt, self.phases, self.stopret = ret, target, phases, stopret
        self.cnt = 0
        self.acc = 0.
        super(LayNode, self).__init__(**kw)

    def is_trainable(self):
        return self.phases > 0

    def _get_train_seq(self):
        return [(self._train, self._stop_training)] * self.phases

    def _res(self, y, arr, keepmsg, extra):
        m = dict(keepmsg or {})
        if arr is not None:
            m['arr'] = arr * 2.
        m.update(extra)
        if self.ret == 'y':
            return y
        if self.ret == 'm':
            return y, m
        if self.ret == 'n':
            return None, m
        return y, m, self.tgt

    def _execute(self, x, msg=None, arr=None):
        self.cnt += 1
        y = None if x is None else x * 2. + self.cnt + self.acc
        seen = sorted((k, v.shape) for k, v in (msg or {}).items() if isinstance(v, np.ndarray))
        return self._res(y, arr, msg, {'cnt': self.cnt, 'seen': seen, 'new': np.full((2, 3), float(self.cnt))} if self.ret != 'y' else {})

    def _inverse(self, x, msg=None):
        return (x - self.acc) / 2.

    def _train(self, x, arr=None, w=1.):
        self.acc = self.acc * 0.5 + np.tanh(0. if x is None else float(np.mean(x))) * w + (0. if arr is None else float(np.sum(arr)))
        self.cnt += 1
        if self.ret == 'y' or self.cnt % 2:
            return None
        return x, {'tr': self.cnt, 'new': np.full((2, 2), float(self.cnt))}, -1

    def _stop_training(self, msg=None, arr=None):
        self.acc += 0.1 if arr is None else float(np.sum(arr))
        return copy.deepcopy(self.stopret)

    def _bi_reset(self):
        self.cnt = 0


def refsplit(msg, n):
    out = [dict() for _ in range(n)]
    for k, v in (msg or {}).items():
        for i in range(n):
            if isinstance(v, np.ndarray) and v.ndim >= 2 and v.shape[1] % n == 0:
                w = v.shape[1] // n
                out[i][k] = v[:, i * w:(i + 1) * w]
            else:
                out[i][k] = v
    return out


def refjoin(results):
    """Results of the nodes to the result of the layer: (y, msg, target)"""
    # for different kinds of results nothing is promised
    if len(set((len(r), r[0] is None, None if r[1] is None else tuple(sorted(r[1]))) if isinstance(r, tuple) else r is None for r in results)) > 1:
        raise Discard()
    ys, ms, tgt = [], [], None
    for r in results:
        if isinstance(r, tuple):
            ys.append(r[0])
            ms.append(r[1])
            if len(r) == 3:
                tgt = r[2]
        else:
            ys.append(r)
    y = None if ys[-1] is None else np.hstack(ys)
    if not ms or ms[-1] is None:
        return y, None, tgt
    msg = {}
    for k, v in ms[-1].items():
        if isinstance(v, np.ndarray) and v.ndim >= 2 and not (len(ms) > 1 and v is ms[0][k]):
            msg[k] = np.hstack([m[k] for m in ms])
        else:
            msg[k] = v
    return y, msg, tgt


def norm3(r):
    if r is None:
        return None, None, None
    if not isinstance(r, tuple):
        return r, None, None
    return (tuple(r) + (None,))[:3]


LMSG = st.none() | st.fixed_dictionaries({'keys': st.lists(st.sampled_from(['arr', 'un', 'sp', 's', 'l', 'one', 'other->a', 'three', 'w', 'L->zz', 'in->arr']), max_size=4, unique=True),
                                          'flag': st.sampled_from([None, None, None, ('use_copies', True), ('use_copies', False), ('L->use_copies', True), ('L->use_copies', False)])})


@sub(st.fixed_dictionaries({'n': st.sampled_from([1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 7, 11, 13]), 'd': st.integers(1, 3), 'copies': st.booleans(), 'ret': st.sampled_from(['y', 'm', 'm', 'n', 't']), 'target': st.sampled_from([1, -1, 'in', 'exit', 'far']),
                            'phases': st.integers(0, 2), 'stop': st.sampled_from([None, None, 'm', 't', 'flag']), 'inner': st.sampled_from(['node', 'node', 'flow']), 'lid': st.sampled_from(['L', 'L', None]),
                            'steps': st.lists(st.tuples(st.sampled_from(['execute', 'execute', 'reset', 'executenone', 'flag']), LMSG), min_size=1, max_size=4),
                            'train': st.lists(LMSG, min_size=1, max_size=3), 'stopmsg': LMSG, 'seed': seeds}),
     quick=900, rule='more than one node and a message', shards=4)
def layer(case, ctx):
    """CloneBiLayer against separate calls of its nodes."""
    rng = rs(case['seed'])
    n, d = case['n'], case['d']
    stopret = {None: None, 'm': (np.ones((1, d)), {'s': 1}), 't': (None, {'s': 2, 'arr': np.ones((1, 2))}, 'exit'), 'flag': (None, {'L->use_copies': True, 'k': 1}, 'exit')}[case['stop']]
    node = LayNode(case['ret'], case['target'], case['phases'], stopret, node_id='in', input_dim=d, output_dim=d, dtype='d')
    if case['inner'] == 'flow':
        # targets are left to the node
        node = BiFlowNode(BiFlow([node]), node_id='fl')
        if (case['ret'] == 't' and case['target'] == 'in') or case['stop'] == 'm':
            return
    lid = case['lid']
    lay = CloneBiLayer(node.copy(), n, use_copies=case['copies'], node_id=lid)
    check(lay.use_copies is case['copies'], "use_copies %s", lay.use_copies)
    ref = [node.copy() for _ in range(n)] if case['copies'] else [node] * n
    state = {'copies': case['copies']}

    def setcopies(flag):
        if flag and not state['copies']:
            ref[:] = [ref[0].copy() for _ in range(n)]
        elif not flag and state['copies']:
            ref[:] = [ref[0]] * n
        state['copies'] = flag

    def build_msg(spec, rows):
        if spec is None:
            return None
        m = {}
        for k in spec['keys']:
            m[k] = {'arr': lambda: rng.normal(size=(rows, 2 * n)), 'in->arr': lambda: rng.normal(size=(rows, n)), 'un': lambda: rng.normal(size=(rows, 2 * n + 1 if n > 1 else 2)), 'sp': lambda: rng.normal(size=(rows, n)), 's': lambda: 'st', 'l': lambda: [1],
                    'one': lambda: rng.normal(size=2 * n), 'other->a': lambda: 1, 'three': lambda: rng.normal(size=(2, n, 3)), 'w': lambda: 2., 'L->zz': lambda: 0}[k]()
        if spec['flag']:
            m[spec['flag'][0]] = spec['flag'][1]
        return m

    def pre(msg):
        """What the layer does with its own entries: the message for the nodes."""
        if msg is None:
            return None
        m = {}
        flag = None
        for k, v in msg.items():
            if lid is not None and k.startswith(lid + '->'):
                if k == lid + '->use_copies':
                    flag = v
            elif k == 'use_copies':
                if flag is None:
                    flag = v
                m[k] = v
            else:
                m[k] = v
        if lid is not None and lid + '->use_copies' in msg:
            flag = msg[lid + '->use_copies']
        return m, flag

    def post(res):
        """The layer reads the flag from the outgoing message, too."""
        y, m, t = res
        if m:
            m = dict(m)
            flag = m.get('use_copies')
            if lid is not None and lid + '->use_copies' in m:
                flag = m.pop(lid + '->use_copies')
            if flag is not None:
                if not flag and state['copies'] and lay.is_training():
                    raise Discard()
                setcopies(flag)
        return y, m, t

    def step(what, x, msg):
        given = snap(msg)
        if msg is not None:
            rest, flag = pre(snap(msg))
            # entries for the layer other than the flag are erased
            if flag is not None:
                if not flag and state['copies'] and case['phases'] and lay.is_training():
                    raises(BiNodeException, lambda: getattr(lay, what)(*([x, msg] if what != 'stop_training' else [msg])), "one instance during training")
                    raise Discard()
                setcopies(flag)
            parts = refsplit(rest, n)
        else:
            rest, parts = None, [None] * n
        results = []
        if what == 'stop_training' and not state['copies']:
            want = post(norm3(ref[0].stop_training(snap(rest)) if rest else ref[0].stop_training()))
        else:
            for i in range(n):
                xi = None if x is None else x[:, i * d:(i + 1) * d]
                args = [xi] if what != 'stop_training' else []
                if parts[i]:
                    args.append(parts[i])
                results.append(getattr(ref[i], what)(*args))
            want = post(refjoin(results))
        args = [x] if what != 'stop_training' else []
        if msg is not None:
            args.append(msg)
        got = norm3(getattr(lay, what)(*args))
        check(same(got[0], want[0]), "%s: %s, expected %s", what, got[0], want[0])
        check(same(got[1] or {}, want[1] or {}), "%s: message %s, expected %s (given %s)", what, got[1], want[1], given)
        check(got[2] == want[2], "%s: target %s, expected %s", what, got[2], want[2])
        check(lay.use_copies is state['copies'], "%s: use_copies is %s", what, lay.use_copies)
        ctx.nontrivial(n > 1 and bool(given))

    try:
        for ph in range(case['phases']):
            for m in case['train']:
                step('train', rng.normal(size=(3, n * d)), build_msg(m, 3))
            msg = build_msg(case['stopmsg'], 3)
            if msg is not None:
                for k in ('w', 'in->arr'):
                    msg.pop(k, None)
            step('stop_training', None, msg)
            lay.bi_reset()
            for r in ref:
                r.bi_reset()
        check(not lay.is_training(), "still training")
        for what, m in case['steps']:
            if what == 'reset':
                lay.bi_reset()
                for r in ref:
                    r.bi_reset()
                continue
            if what == 'flag':
                setcopies(not state['copies'])
                lay.use_copies = state['copies']
                continue
            msg = build_msg(m, 3)
            if what == 'executenone':
                if not msg or not (pre(snap(msg))[0]):
                    continue
                step('execute', None, msg)
            else:
                step('execute', rng.normal(size=(3, n * d)), msg)
    except Discard:
        return


class Step(BiNode):
    def __init__(self, f, target=None, **kw):
        self.f, self.tgt = f, target
        super(Step, self).__init__(**kw)

    def is_trainable(self):
        return False

    def _execute(self, x):
        y = x * self.f + 1.
        return y if self.tgt is None else (y, None, self.tgt)


@sub(st.fixed_dictionaries({'n': st.integers(1, 6), 'd': st.integers(1, 2), 'steps': st.lists(st.sampled_from([2., 3., 5., -1.]), min_size=2, max_size=4), 'to': st.integers(0, 3), 'deep': st.integers(0, 2), 'before': st.integers(0, 1), 'reps': st.integers(1, 3), 'seed': seeds}),
     quick=150, rule='more than one copy', shards=1)
def layer_target(case, ctx):
    """A target inside of the copies of a layer is found in all of them."""
    rng = rs(case['seed'])
    n, d, fs = case['n'], case['d'], case['steps']
    to = case['to'] % len(fs)
    inner = BiFlowNode(BiFlow([Step(f, node_id='s%d' % i, input_dim=d, output_dim=d, dtype='d') for i, f in enumerate(fs)]), node_id='g')
    for k in range(case['deep']):
        inner = BiFlowNode(BiFlow([inner]), node_id='g%d' % k)
    lay = CloneBiLayer(inner, n, use_copies=True, node_id='lay')
    flow = BiFlow(case['before'] * [Step(7.)] + [Step(1., 's%d' % to), Step(11.), lay])
    for _ in range(case['reps']):
        x = rng.normal(size=(rng.randint(1, 4), n * d))
        y = flow.execute(x)[0]
        want = x * 7. + 1. if case['before'] else x
        want = want + 1.
        for f in fs[to:]:
            want = want * f + 1.
        close(y, want, 1e-12, "execution from step %d in the copies", to)
        # without a target from the start
        y = lay.execute(x)
        y = y[0] if isinstance(y, tuple) else y
        want = x
        for f in fs:
            want = want * f + 1.
        close(y, want, 1e-12, "execution of the layer after that")
    ctx.nontrivial(n > 1)


@sub(st.fixed_dictionaries({'kind': st.sampled_from(['SFA', 'PCA', 'Whitening', 'SFA2']), 'n': st.integers(1, 3), 'd': st.integers(2, 3), 'copies': st.booleans(), 'seed': seeds, 'nchunks': st.integers(1, 3),
                            'inflow': st.booleans()}),
     quick=120, rule='more than one node', shards=2)
def clone(case, ctx):
    """CloneBiLayer of generated nodes against ordinary layers."""
    rng = rs(case['seed'])
    n, d = case['n'], case['d']
    cls, ord_ = getattr(bimdp.nodes, case['kind'] + 'BiNode'), getattr(nodes, case['kind'] + 'Node')
    parts = [np.hstack([gen.slow(rng, 60, d) * (i + 1) for i in range(n)]) for _ in range(case['nchunks'])]
    kw = dict(input_dim=d, output_dim=d - 1 if case['kind'] != 'SFA2' else 2)
    lay = CloneBiLayer(cls(**kw), n, use_copies=case['copies'])
    ref = mdp.hinet.Layer([ord_(**kw) for _ in range(n)]) if case['copies'] else mdp.hinet.CloneLayer(ord_(**kw), n)
    top = BiFlow([lay]) if case['inflow'] else lay
    if case['inflow']:
        top.train([parts])
    else:
        while lay.is_training():
            for p in parts:
                lay.train(p)
            lay.stop_training()
    while ref.is_training():
        for p in parts:
            ref.train(p)
        ref.stop_training()
    x = np.hstack([gen.slow(rng, 20, d) for _ in range(n)])
    y = top.execute(x)
    y = y[0] if case['inflow'] else y
    want = ref.execute(x)
    close(gen.sign_align(y, want), want, 1e-5, "execution of the layer")
    check(lay.input_dim == ref.input_dim and lay.output_dim == ref.output_dim, "dimensions %s %s", lay.output_dim, ref.output_dim)
    if ref.is_invertible():
        check(lay.is_invertible(), "invertible")
        close(lay.inverse(y), ref.inverse(y) if np.allclose(y, want) else lay.inverse(y), 1e-6, "inversion")
        r = lay.execute(y, {'method': 'inverse'})
        close(r[0], lay.inverse(y), 1e-8, "inversion by message")
        check(r[2] == -1, "target of inversion")
    ctx.nontrivial(n > 1)


# ------------------------------------------------------------------ container and checkpoints
@sub(st.fixed_dictionaries({'ids': st.lists(st.sampled_from(['x', 'y', 'z', None]), min_size=1, max_size=5), 'group': st.integers(0, 4), 'ops': st.lists(st.tuples(st.sampled_from(['get', 'in', 'slice', 'append', 'insert', 'pop', 'del', 'set', 'add', 'extend', 'bad']), st.integers(0, 6), st.sampled_from(['x', 'y', 'z', 'w'])), min_size=1, max_size=6)}),
     quick=300, rule='node found by id', shards=2)
def container(case, ctx):
    """BiFlow as a list with node ids."""
    mk = lambda i: bimdp.nodes.IdentityBiNode(node_id=i, input_dim=2) if i is not None else nodes.IdentityNode(input_dim=2)
    items = [mk(i) for i in case['ids']]
    g = case['group']
    if g < len(items):
        inner = [mk('x'), mk('w')]
        items[g] = BiFlowNode(BiFlow(inner), node_id='g')
    flow = BiFlow(list(items))

    def find(name):
        for it in items:
            if isinstance(it, BiFlowNode):
                if it.node_id == name:
                    return it
                for c in it.flow:
                    if c.node_id == name:
                        return c
            elif isinstance(it, BiNode) and it.node_id == name:
                return it
        return None
    for op, i, name in case['ops']:
        if op == 'get':
            w = find(name)
            if w is None:
                raises(KeyError, lambda: flow[name], "unknown id")
            else:
                check(flow[name] is w, "node %s", name)
                ctx.nontrivial()
        elif op == 'in':
            check((name in flow) == (find(name) is not None), "%s in flow", name)
            check(all(it in flow for it in items), "node in flow")
            check(mk(name) not in flow, "other node in flow")
        elif op == 'slice':
            s = flow[i % 3:i]
            check(type(s) is BiFlow and list(s) == items[i % 3:i], "slice")
        elif op == 'append':
            nd = mk(name)
            flow.append(nd)
            items.append(nd)
        elif op == 'insert':
            nd = mk(name)
            flow.insert(i, nd)
            items.insert(i, nd)
        elif op == 'pop' and len(items) > 1:
            check(flow.pop(i % len(items)) is items.pop(i % len(items)), "pop")
        elif op == 'del' and len(items) > 1:
            del flow[i % len(items)]
            del items[i % len(items)]
        elif op == 'set':
            nd = mk(name)
            flow[i % len(items)] = nd
            items[i % len(items)] = nd
        elif op == 'add':
            other = [mk(name), mk(None)]
            r = flow + BiFlow(other)
            check(type(r) is BiFlow and list(r) == items + other, "sum of flows")
            r = flow + other[0]
            check(type(r) is BiFlow and list(r) == items + other[:1], "sum with a node")
            if isinstance(items[0], BiNode):
                r = items[0] + other[1]
                check(type(r) is BiFlow and list(r) == [items[0], other[1]], "sum of nodes")
                r = items[0] + BiFlow(other)
                check(type(r) is BiFlow and [getattr(v, 'node_id', None) for v in r] == [items[0].node_id, name, None], "sum of node and flow")
        elif op == 'extend':
            nd = [mk(name)]
            flow += nd[0]
            items += nd
            check(type(flow) is BiFlow, "type")
        elif op == 'bad':
            def setit():
                flow[name] = mk(name)

            def delit():
                del flow[name]
            raises(BiFlowException, setit, "setting by id")
            raises(BiFlowException, delit, "deleting by id")
        check(len(flow) == len(items) and all(a is b for a, b in zip(flow, items)), "contents after %s", op)
        x = np.ones((2, 2))
        check(np.array_equal(flow.execute(x)[0], x), "execution after %s", op)


@sub(st.fixed_dictionaries({'phases': st.lists(st.integers(0, 2), min_size=1, max_size=3), 'ret': st.lists(st.sampled_from(['none', 'dict', 'empty']), min_size=3, max_size=3), 'kind': st.sampled_from(['one', 'list', 'some', 'save']), 'msgs': st.booleans(), 'seed': seeds}),
     quick=150, rule='checkpoint called', shards=1)
def checkpoint(case, ctx):
    """BiCheckpointFlow: functions called after each node, training as without."""
    rng = rs(case['seed'])
    mk = lambda: [LayNode('y', None, p, None, node_id='in%d' % i) for i, p in enumerate(case['phases'])]
    flow, ref = BiCheckpointFlow(mk()), BiFlow(mk())
    xs = [rng.normal(size=(3, 2)) for _ in range(2)]
    msgs = [[{'w': 2.}, {'in0->w': 3.}]] * len(flow) if case['msgs'] else None
    called = []

    def fun(i):
        def f(node):
            called.append((i, flow.flow.index(node), node.is_training()))
            return {'none': None, 'dict': {'extra%d' % i: i}, 'empty': {}}[case['ret'][i]]
        return f
    which = [i for i in range(len(flow)) if case['kind'] != 'some' or i % 2 == 0]
    if case['kind'] == 'one':
        one = lambda node: fun(flow.flow.index(node))(node)
        cps = one
    else:
        cps = [fun(i) if i in which else None for i in range(len(flow))]
    flow.train([xs] * len(flow), cps, msgs)
    ref.train([xs] * len(flow), msgs)
    want = [(i, i, False) for i in which]
    check(called == want, "checkpoints %s, expected %s", called, want)
    for i in which:
        if case['ret'][i] == 'dict':
            check(getattr(flow, 'extra%d' % i) == i, "content of the checkpoint")
    for a, b in zip(flow, ref):
        check(a.acc == b.acc and not a.is_training(), "training with checkpoints")
    ctx.nontrivial(len(want) > 0)
