"""Parallel bidirectional flows against the serial ones."""
import copy
import pickle
import numpy as np
import mdp
import bimdp
from mdp import nodes, parallel as par
from bimdp import BiFlow, BiNode, BiFlowException, BiCheckpointFlow
from bimdp.hinet import BiFlowNode, CloneBiLayer
from bimdp.parallel import ParallelBiFlow, ParallelCheckpointBiFlow, BiFlowTrainCallable, BiFlowExecuteCallable
from lib.harness import sub, check, close, st
from lib import gen, binodes, pbinodes
from lib.bitrees import tree, calm_tree, MSG, CALMMSG, mkmsg, prepare, backward
from lib.binodes import Model, FlowErr, NodeErr, Discard, same, same_log, show, snap, LOG
from lib.pbinodes import build, state, make_scheduler, waitless, Shuffle, Serial
from lib.gen import seeds, rs


def outcome(f):
    try:
        return 'ok', f()
    except Exception as e:
        return 'error', e


class PModel(Model):
    """Notes where the parallel training is documented to tolerate a target outside of the flow."""
    tolerated = False

    def run(self, *a, **kw):
        r = Model.run(self, *a, **kw)
        # without data the end of the flow looks like the end of a training step
        if (r[0] == 'out' and r[3] in (1, -1, 'exit')) or (r[0] == 'end' and r[1] is None):
            self.tolerated = True
        return r

    def index(self, els, target, nr):
        if target == 'exit' or (isinstance(target, int) and nr + target == -1):
            self.tolerated = True
        return Model.index(self, els, target, nr)


def refuse(f, model):
    """What the reference says: 'ok', 'error' or None if it is not specified."""
    try:
        f(model)
        return 'ok'
    except (FlowErr, NodeErr):
        return None if getattr(model, 'tolerated', False) else 'error'
    except Discard:
        return None


def chunks(msgs, rng, none=()):
    n = [rng.randint(1, 4) for _ in msgs]
    ms = [mkmsg(m, k) for m, k in zip(msgs, n)]
    xs = [rng.randint(-20, 20, size=(k, 2)).astype(float) for k in n]
    for i in range(len(ms)):
        if none and none[i % len(none)]:
            xs[i] = None
            ms[i] = ms[i] or {'m': 3}
    return xs, ms


def manual_train(flow, seed, order, *args):
    """Own handling of the tasks."""
    rng = rs(seed, 5)
    mdp.activate_extension('parallel')
    try:
        flow.setup_parallel_training(*args)
        while flow.is_parallel_training:
            tasks, c = [], None
            while flow.task_available:
                tasks.append(flow.get_task())
            results = []
            for data, call in tasks:
                c = call if call is not None else c
                results.append((data, c))
            idx = rng.permutation(len(results)) if order else range(len(results))
            out = []
            for i in idx:
                data, c = results[i]
                out.append(c.fork()(data))
            flow.use_results(out)
    finally:
        mdp.deactivate_extension('parallel')
        if flow.is_parallel_training:
            # failed
            flow._i_train_node = None


def manual_execute(flow, seed, *args):
    rng = rs(seed, 6)
    mdp.activate_extension('parallel')
    try:
        flow._flownode = BiFlowNode(BiFlow(flow.flow))
        flow.setup_parallel_execution(*args)
        tasks, c = [], None
        while flow.task_available:
            data, call = flow.get_task()
            c = call if call is not None else c
            tasks.append((data, c))
        out = [None] * len(tasks)
        for i in rng.permutation(len(tasks)):
            out[i] = tasks[i][1].fork()(tasks[i][0])
        return flow.use_results(out)
    finally:
        mdp.deactivate_extension('parallel')


def compare_run(ctx, case, ser, par_, fs, fp, what, exact):
    """Both flows did the same."""
    del LOG[:]
    a = outcome(fs)
    log = list(LOG)
    del LOG[:]
    b = outcome(fp)
    check(a[0] == b[0], "%s: the serial flow gives %s, the parallel one %s", what, a, b)
    if exact and a[0] == 'ok':
        check(same_log(LOG, log), "%s: trace %s, serial %s", what, show(LOG), show(log))
    elif a[0] == 'ok' and exact is not None:
        k = lambda e: repr(e)
        check(same_log(sorted(LOG, key=k), sorted(log, key=k)), "%s: steps %s, serial %s", what, show(LOG), show(log))
    return a, b


SCHED = st.sampled_from(['serial', 'serial', 'shuffle', 'shuffle', 'pickled', 'pickled'])


def exactness(kind):
    return {'serial': True, 'shuffle': False, 'pickled': False, 'thread': False, 'process': None}[kind]


# ------------------------------------------------------------------ execution
EXEC = {'tree': tree(False), 'msgs': st.one_of(st.lists(CALMMSG, min_size=2, max_size=5), st.lists(MSG, min_size=1, max_size=5)), 'none': st.lists(st.booleans(), min_size=5, max_size=5),
        'targets': st.lists(st.sampled_from([None] * 16 + [1, 1, 2, 'n0', 'n1', 'n2', 'g0', 'n0', 'n1', 'exit', 'nosuch', 5]), min_size=5, max_size=5),
        'form': st.sampled_from(['list', 'list', 'list', 'gen', 'single', 'somenone', 'nonelist', 'notargets']), 'sched': SCHED, 'how': st.sampled_from(['execute', 'execute', 'execute', 'manual']),
        'reps': st.integers(1, 2), 'keepcont': st.booleans(), 'seed': seeds, 'class': st.sampled_from(['plain', 'check'])}


def run_execute(case, ctx):
    spec = prepare(case['tree'])
    rng = rs(case['seed'])
    form = case['form']
    xs, msgs = chunks(case['msgs'], rng, case['none'] if form == 'somenone' else [form == 'nonelist'])
    targets = case['targets'][:len(xs)]
    if form == 'notargets':
        targets = [None] * len(xs)
    if form == 'single':
        xs, msgs, targets = xs[:1], msgs[:1], targets[:1]
    keep = snap(msgs)
    want = refuse(lambda m: m.execute(xs, snap(msgs), targets), Model(spec))
    if want is None:
        ctx.label('discard')
        return
    cls = ParallelCheckpointBiFlow if case['class'] == 'check' else ParallelBiFlow
    ser, pf = BiFlow(build(spec)), cls(build(spec))
    s = make_scheduler(case['sched'], case['seed'])
    if not case['keepcont']:
        s.result_container = par.ExecuteResultContainer()
    try:
        for rep in range(case['reps']):
            def args():
                if form == 'gen':
                    return (x for x in xs), iter(msgs), iter(targets)
                if form == 'single':
                    return xs[0], msgs[0], targets[0]
                if form == 'notargets':
                    return xs, (None if all(m is None for m in msgs) else msgs)
                return xs, msgs, targets
            if case['how'] == 'manual':
                fp = lambda: manual_execute(pf, case['seed'], *args())
            else:
                fp = lambda: pf.execute(*args(), scheduler=s)
            kind = 'shuffle' if case['how'] == 'manual' else case['sched']
            a, b = compare_run(ctx, case, ser, pf, lambda: ser.execute(*args()), fp, 'execution', exactness(kind))
            if len(xs) > 1 or want == 'error':
                # joining the messages may fail
                want = want if a[0] == 'ok' else 'error'
            check(a[0] == want, "execution: %s, expected %s", a, want)
            check(all(same(x, y) for x, y in zip(msgs, keep)), "the given messages were changed: %s, given %s", msgs, keep)
            if case['how'] == 'execute' or a[0] == 'ok':
                check(not pf.is_parallel_executing and not pf.is_parallel_training, "still busy after execution")
            if a[0] == 'error':
                ctx.label('refused')
                if case['how'] == 'execute':
                    check(not pf.task_available, "a task is left after the failure")
                return
            check(same(b[1][0], a[1][0]), "result %s, serial %s", b[1][0], a[1][0])
            check(isinstance(b[1][1], dict) and same(b[1][1], a[1][1]), "message %s, serial %s", b[1][1], a[1][1])
            check(state(pf) == state(ser), "collected state %s, serial %s", state(pf), state(ser))
            ctx.nontrivial(len(xs) > 1)
            ctx.label(form)
            if any(l.collect for l in pbinodes.leaves(pf) if isinstance(l, pbinodes.Acc)):
                ctx.label('collecting')
            if any(t == 'group' for t in [e['t'] for e in spec]):
                ctx.label('nested')
        pf2 = pickle.loads(pickle.dumps(pf))
        check(state(pf2) == state(pf), "state after pickling")
    finally:
        s.shutdown()


@sub(st.fixed_dictionaries(EXEC), quick=2500, rule='more than one chunk', shards=4)
def execute(case, ctx):
    """Executions with simulated schedules."""
    run_execute(case, ctx)


# ------------------------------------------------------------------ training
TRAIN = {'tree': st.one_of(st.tuples(st.just('calm'), calm_tree()), st.tuples(st.just('calm'), calm_tree()), st.tuples(st.just('wild'), tree(True))), 'msgs': st.one_of(st.lists(CALMMSG, min_size=2, max_size=5), st.lists(MSG, min_size=1, max_size=4)), 'stops': st.lists(st.one_of(st.none(), st.none(), CALMMSG, MSG), min_size=4, max_size=4), 'none': st.lists(st.sampled_from([False, False, True]), min_size=4, max_size=4),
         'form': st.sampled_from(['list', 'list', 'array', 'pernode', 'none', 'somenone', 'gen', 'empty']), 'sched': SCHED, 'how': st.sampled_from(['train', 'train', 'train', 'list', 'manual']), 'own': st.booleans(),
         'seed': seeds, 'after': MSG, 'class': st.sampled_from(['plain', 'plain', 'check'])}


class Repeat(object):
    def __init__(self, items):
        self.items = items

    def __iter__(self):
        return (x for x in self.items)


def train_spec(t):
    return backward(prepare(t[1])) if t[0] == 'calm' else prepare(t[1])


def run_train(case, ctx):
    spec = train_spec(case['tree'])
    rng = rs(case['seed'])
    nel = len(spec)
    stops = [mkmsg(m, 2) for m in case['stops'][:nel]]
    stops = [s if s else None for s in stops]
    form = case['form']
    xs, msgs = chunks(case['msgs'], rng, case['none'] if form == 'somenone' else [form == 'none'])
    data, mm = [xs] * nel, [msgs] * nel
    if form == 'array':
        data, mm = [xs[:1]] * nel, [msgs[:1]] * nel
        args = lambda: (xs[0], msgs[0])
    elif form == 'pernode':
        data = [xs if i % 2 == 0 else xs[::-1] for i in range(nel)]
        mm = [msgs if i % 2 == 0 else msgs[::-1] for i in range(nel)]
        args = lambda: (data, mm)
    elif form == 'gen':
        args = lambda: ([Repeat(xs) for _ in data], [Repeat(msgs) for _ in mm])
    elif form == 'empty':
        k = case['seed'] % nel
        data = [xs if i != k else [] for i in range(nel)]
        mm = [msgs if i != k else [] for i in range(nel)]
        args = lambda: (data, mm)
    else:
        args = lambda: (data, mm)
        if all(m is None for m in msgs):
            args = lambda: (data, None)
    keep, keepstops = snap(msgs), snap(stops)
    model = PModel(spec)
    if not any(not e.trained() for e in model.els):
        return
    want = refuse(lambda m: m.train(data, snap(mm), stops), model)
    if want is None:
        ctx.label('discard')
        return
    if want == 'ok':
        # the parallel flow handles the same entry for each node by a common one
        pass
    ser = BiFlow(build(spec))
    cp = case['class'] == 'check'
    pf = (ParallelCheckpointBiFlow if cp else ParallelBiFlow)(build(spec))
    calls = ([], [])

    def checkpoints(k):
        def at(i):
            def fun(nd):
                calls[k].append((i, nd.is_training()))
                return {'cp%d' % i: i}
            return fun
        return [at(i) if not e.trained() else None for i, e in enumerate(Model(spec).els)]
    if cp:
        ser = BiCheckpointFlow(build(spec))
    st_ = stops if any(s is not None for s in stops) else None
    scheds = []

    def sched():
        s = make_scheduler(case['sched'], case['seed'] + len(scheds))
        if case['own']:
            s.result_container = par.TrainResultContainer()
        scheds.append(s)
        return s

    def serial():
        a = args()
        if cp:
            return ser.train(a[0], checkpoints(0), msg_iterables=a[1], stop_messages=st_)
        return ser.train(*a, stop_messages=st_)

    def parallel():
        a = args()
        if case['how'] == 'manual' and not cp:
            return manual_train(pf, case['seed'], True, a[0], a[1], st_)
        if case['how'] == 'list':
            s = [None if e.trained() else sched() for e in Model(spec).els]
        else:
            s = sched()
        kw = {'overwrite_result_container': False} if case['own'] and case['seed'] % 2 else {}
        if cp:
            return pf.train(a[0], checkpoints(1), msg_iterables=a[1], stop_messages=st_, scheduler=s, **kw)
        return pf.train(a[0], msg_iterables=a[1], stop_messages=st_, scheduler=s, **kw)
    kind = 'shuffle' if case['how'] == 'manual' else case['sched']
    try:
        a, b = compare_run(ctx, case, ser, pf, serial, parallel, 'training', exactness(kind))
        check(a[0] == want, "training: %s, expected %s", a, want)
        check(all(same(x, y) for x, y in zip(msgs, keep)), "the given messages were changed: %s, given %s", msgs, keep)
        check(all(same(x, y) for x, y in zip(stops, keepstops)), "the given stop messages were changed: %s, given %s", stops, keepstops)
        check(not pf.is_parallel_training and not pf.is_parallel_executing, "still busy after training")
        if a[0] == 'error':
            ctx.label('refused')
            if case['how'] == 'train':
                check(not pf.task_available, "a task is left after the failure")
                # not blocked
                e = outcome(lambda: pf.train([[]] * nel, **(dict(checkpoints=[None] * nel) if cp else {})))
                check('underway' not in str(e[1]), "the flow is blocked after a failure: %s", e[1])
            return
        check(state(pf) == state(ser), "trained state %s, serial %s", state(pf), state(ser))
        if cp:
            check(calls[0] == calls[1], "checkpoints %s, serial %s", calls[1], calls[0])
            for i, t in calls[0]:
                check(getattr(pf, 'cp%d' % i, None) == i, "result of checkpoint %d", i)
        if case['how'] == 'list' and not (case['how'] == 'manual'):
            for s in scheds:
                if hasattr(s, 'down'):
                    check(s.down == 1 or (s.down == 0 and not s.tasks), "a scheduler of the list was shut down %d times", s.down)
        ctx.nontrivial(len(xs) > 1)
        ctx.label(form)
        ctx.label('%s %s' % (case['how'], case['class']))
        if any(t == 'group' for t in [e['t'] for e in spec]):
            ctx.label('nested')
        if model.jumps:
            ctx.label('jumps')
        # afterwards
        x = rng.randint(-9, 9, size=(3, 2)).astype(float)
        m = mkmsg(case['after'], 3)
        if refuse(lambda q: q.execute([x], [snap(m)], [None]), model) is not None:
            a, b = compare_run(ctx, case, ser, pf, lambda: ser.execute(x, m), lambda: pf.execute(x, m), 'after training', True)
            if a[0] == 'ok':
                check(same(a[1][0], b[1][0]) and same(a[1][1], b[1][1]), "after training: %s, serial %s", b[1], a[1])
        if not cp:
            pickle.loads(pickle.dumps(pf))
    finally:
        for s in scheds:
            if not (hasattr(s, 'down') and s.down):
                s.shutdown()


@sub(st.fixed_dictionaries(TRAIN), quick=3500, rule='more than one chunk', shards=4)
def train(case, ctx):
    """Trainings with simulated schedules."""
    run_train(case, ctx)


REAL = st.sampled_from(['thread', 'thread', 'thread', 'thread', 'thread', 'thread', 'thread', 'process'])


@sub(st.fixed_dictionaries({'train': st.booleans(), 'e': st.fixed_dictionaries(EXEC), 't': st.fixed_dictionaries(TRAIN), 'sched': REAL}), quick=160, rule='more than one chunk', shards=4)
def workers(case, ctx):
    """Real schedulers."""
    c = dict(case['t'] if case['train'] else case['e'], sched=case['sched'])
    c['how'] = 'train' if case['train'] else 'execute'
    # only runs that work: how schedulers report errors is another property
    spec = train_spec(c['tree']) if case['train'] else prepare(c['tree'])
    undo = waitless()
    try:
        rng = rs(c['seed'])
        if not case['train']:
            c['form'] = 'list' if c['form'] == 'somenone' else c['form']
            xs, msgs = chunks(c['msgs'], rng, [c['form'] == 'nonelist'])
            c['targets'] = [None] * 5
            if refuse(lambda m: m.execute(xs, snap(msgs), [None] * len(xs)), Model(spec)) != 'ok':
                return
            run_execute(c, ctx)
        else:
            if c['form'] == 'empty':
                c['form'] = 'list'
            xs, msgs = chunks(c['msgs'], rng, c['none'] if c['form'] == 'somenone' else [c['form'] == 'none'])
            nel = len(spec)
            if all(e.trained() for e in Model(spec).els):
                return
            stops = [mkmsg(m, 2) or None for m in c['stops'][:nel]]
            data, mm = [xs] * nel, [msgs] * nel
            if c['form'] == 'pernode':
                data = [xs if i % 2 == 0 else xs[::-1] for i in range(nel)]
                mm = [msgs if i % 2 == 0 else msgs[::-1] for i in range(nel)]
            if c['form'] == 'array':
                data, mm = [xs[:1]] * nel, [msgs[:1]] * nel
            if refuse(lambda m: m.train(data, snap(mm), stops), Model(spec)) != 'ok':
                return
            run_train(c, ctx)
        ctx.label(case['sched'])
    finally:
        undo()


# ------------------------------------------------------------------ nodes of the library
KINDS = ['pca', 'pca', 'sfa', 'sfa', 'white', 'fda', 'sfa2', 'id', 'norm', 'poly', 'hist', 'signum', 'count', 'group']


class Tally(BiNode):
    """Collects the rows that it executes."""

    def __init__(self, **kw):
        super(Tally, self).__init__(**kw)
        self.rows, self.total, self.what = 0, 0., []

    def is_trainable(self):
        return False

    def _execute(self, x, msg=None, w=None):
        self.rows += len(x)
        self.total = self.total + x.sum(axis=0)
        m = dict(msg or {})
        m['rows'] = len(x)
        m['rowids'] = x[:, :1].copy()
        return x, m


class ParTally(par.ParallelExtensionNode, Tally):
    def _fork(self):
        return Tally(node_id=self._node_id)

    def _join(self, f):
        self.rows += f.rows
        self.total = self.total + f.total

    def use_execute_fork(self):
        return True


def bnode(kind, d, i, stop):
    b = bimdp.nodes
    kw = dict(node_id='b%d' % i)
    sr = dict(kw)
    if stop:
        sr['stop_result'] = ({'b%d->done' % i: i}, 'exit')
    return {'pca': lambda: b.PCABiNode(output_dim=max(1, d - 1), **sr), 'sfa': lambda: b.SFABiNode(output_dim=max(1, d - 1), **sr), 'white': lambda: b.WhiteningBiNode(input_dim=d, **kw),
            'fda': lambda: b.FDABiNode(output_dim=1, **kw), 'sfa2': lambda: b.SFA2BiNode(output_dim=d, **sr), 'id': lambda: b.IdentityBiNode(**kw), 'norm': lambda: b.NormalizeBiNode(**kw),
            'poly': lambda: b.PolynomialExpansionBiNode(2, **kw), 'hist': lambda: nodes.HistogramNode(), 'signum': lambda: nodes.CutoffNode(-2., 2.), 'count': lambda: Tally(**kw)}[kind]()


def width(kind, d):
    return {'pca': max(1, d - 1), 'sfa': max(1, d - 1), 'fda': 1, 'poly': d + d * (d + 1) // 2}.get(kind, d)


@sub(st.fixed_dictionaries({'kinds': st.lists(st.sampled_from(KINDS), min_size=1, max_size=4), 'd': st.integers(2, 4), 'nchunks': st.integers(1, 4), 'sched': st.sampled_from(['serial', 'shuffle', 'pickled', 'shuffle', 'pickled', 'thread']),
                            'stop': st.lists(st.booleans(), min_size=4, max_size=4), 'msg': st.sampled_from(['plain', 'id']), 'how': st.sampled_from(['train', 'list', 'manual']), 'seed': seeds, 'reps': st.integers(1, 3), 'before': st.booleans()}),
     quick=250, rule='more than one chunk', shards=4)
def library(case, ctx):
    """Flows of nodes of the library."""
    if case['before']:
        # what an unrelated flow does does not matter
        other = ParallelBiFlow([bnode('poly', 7, 0, False), bnode('count', 35, 1, False)])
        s = Serial()
        other.execute([np.ones((2, 7))] * 2, scheduler=s)
        s.shutdown()
        ctx.label('another flow before')
    rng = rs(case['seed'])
    d = case['d']

    def make():
        out, dd, prev = [], d, None
        for i, k in enumerate(case['kinds']):
            if k == 'group':
                els = [bnode('id', dd, 20 + i, False), bnode('pca' if prev not in ('white', 'sfa', 'fda', 'sfa2') else 'count', dd, i, False)]
                out.append(BiFlowNode(BiFlow(els), node_id='grp%d' % i))
                dd = width('pca', dd) if prev not in ('white', 'sfa', 'fda', 'sfa2') else dd
                prev = prev if prev in ('white', 'sfa', 'fda', 'sfa2') else 'pca'
                continue
            if prev in ('white', 'sfa', 'fda', 'sfa2', 'pca', 'signum', 'norm', 'poly') and k in ('pca', 'white', 'sfa', 'sfa2', 'poly'):
                k = 'count'
            if k == 'signum' and i < len(case['kinds']) - 1:
                k = 'id'
            out.append(bnode(k, dd, i, case['stop'][i]))
            dd = width(k, dd)
            if k not in ('id', 'count', 'hist') and not (k == 'norm' and prev in ('white', 'sfa', 'fda', 'sfa2')):
                # normalising keeps white data white, and makes principal components white
                prev = 'white' if k == 'norm' and prev == 'pca' else k
        return out
    n = 60
    parts = []
    for _ in range(case['nchunks']):
        lab = rng.randint(0, 2, size=n)
        lab[:2] = [0, 1]
        parts.append((gen.spectral(rng, n, d) + lab[:, None] * 1.5, lab))
    xs = [p for p, _ in parts]
    nds = make()
    msgs = []
    for i, nd in enumerate(nds):
        if isinstance(nd, nodes.FDANode):
            key = 'labels' if case['msg'] == 'plain' else 'b%d->labels' % i
            msgs.append([{key: l, 'other': j} for j, (_, l) in enumerate(parts)])
        else:
            msgs.append([{'note': j} for j in range(len(parts))])
    ser, pf = BiFlow(nds), ParallelBiFlow(make())
    if not any(nd.is_trainable() for nd in nds):
        ctx.label('nothing to train')
    scheds = []

    def sched():
        scheds.append(make_scheduler(case['sched'], case['seed'] + len(scheds)))
        return scheds[-1]
    undo = waitless()
    try:
        with np.errstate(all='ignore'):
            try:
                ser.train([xs] * len(nds), msgs)
            except (mdp.MDPException, np.linalg.LinAlgError):
                ctx.label('untrainable')
                return
            if case['how'] == 'manual':
                manual_train(pf, case['seed'], True, [xs] * len(nds), msgs)
            else:
                pf.train([xs] * len(nds), msgs, scheduler=[sched() for _ in nds] if case['how'] == 'list' else sched())
            check(not pf.is_parallel_training, "still training")
            x = [gen.spectral(rng, rng.randint(1, 9), d) for _ in range(rng.randint(1, 5))]
            emsgs = [{'k': [j], 'arr': np.full((len(c), 1), float(j))} for j, c in enumerate(x)]
            s = sched()
            for rep in range(case['reps']):
                y, m = ser.execute(x, emsgs)
                if not np.all(np.isfinite(y)) or np.abs(y).max() > 1e4:
                    ctx.label('ill-conditioned')
                    return
                y2, m2 = pf.execute(x, emsgs, scheduler=s)
                check(y2.shape == y.shape, "result of shape %s, serial %s", y2.shape, y.shape)
                # directions are determined up to the sign
                sg = np.sign((y * y2).sum(axis=0))
                sg[sg == 0] = 1
                if not any(isinstance(nd, (nodes.PCANode, nodes.SFANode, nodes.FDANode, BiFlowNode)) for nd in nds):
                    sg[:] = 1
                close(y2 * sg, y, 1e-5, "execution %d of the parallel flow", scale=np.abs(y).max())
                check(set(m) == set(m2) and m['k'] == m2['k'] and m.get('rows') == m2.get('rows') and same(m['arr'], m2['arr']), "message %s, serial %s", m2, m)
                if 'rowids' in m:
                    a, b = m['rowids'], m2['rowids']
                    check(a.shape == b.shape and min(np.abs(a - b).max(), np.abs(a + b).max()) < 1e-5 * max(1, np.abs(a).max()), "rows of the message in another order")
            for a, b in zip(pbinodes.leaves(ser), pbinodes.leaves(pf)):
                check(a.is_training() == b.is_training() and (not a.is_trainable() or (a.input_dim, a.output_dim) == (b.input_dim, b.output_dim)), "state of %s: %s, serial %s", a, (b.input_dim, b.output_dim), (a.input_dim, a.output_dim))
                if isinstance(a, Tally):
                    check(a.rows == b.rows, "rows collected: %d, serial %d", b.rows, a.rows)
                if hasattr(a, 'tlen'):
                    check(a.tlen == b.tlen, "samples %s, serial %s", b.tlen, a.tlen)
                if isinstance(a, nodes.HistogramNode):
                    check(np.shape(a.data_hist) == np.shape(b.data_hist), "collected data %s, serial %s", np.shape(b.data_hist), np.shape(a.data_hist))
            ctx.nontrivial(len(xs) > 1)
            ctx.label(case['sched'])
    finally:
        undo()
        for s in scheds:
            s.shutdown()


# ------------------------------------------------------------------ layers
class SumBi(BiNode):
    """Trained with sums of data and of message entries; counts executions."""

    def __init__(self, phases=1, collect=False, **kw):
        self.phases, self.collect = phases, collect
        super(SumBi, self).__init__(**kw)
        self.s, self.n, self.hist, self.seen = 0., 0, [], 0.

    def is_trainable(self):
        return self.phases > 0

    def _get_train_seq(self):
        return [(self._train, self._stop_training)] * self.phases

    def _train(self, x, w=None, arr=None):
        self.s = self.s + x.sum(axis=0) + (0. if arr is None else arr.sum()) + (w or 0)
        self.n += len(x)

    def _stop_training(self):
        self.hist.append((self.n, float(np.sum(self.s))))
        self.s, self.n = 0., 0

    def _execute(self, x, msg=None, arr=None):
        if x is None:
            return None, dict(msg or {}, seen=1)
        if self.collect:
            self.seen += float(x.sum())
        shift = sum(h[1] for h in self.hist)
        m = dict(msg or {})
        m['back'] = x[:, :1] + shift
        if arr is not None:
            m['arr'] = arr * 2
        return x + shift, m


class ParSumBi(par.ParallelExtensionNode, SumBi):
    def _fork(self):
        f = SumBi(self.phases, self.collect, node_id=self._node_id, input_dim=self.input_dim, output_dim=self.output_dim, dtype=self.dtype)
        f._train_phase, f._training = self._train_phase, self._training
        f.hist = list(self.hist)
        return f

    def _join(self, f):
        self.s = self.s + f.s
        self.n += f.n
        self.seen += f.seen

    def use_execute_fork(self):
        return self.collect


@sub(st.fixed_dictionaries({'n': st.sampled_from([1, 1, 2, 2, 3, 3, 4, 4, 6, 11]), 'd': st.integers(1, 2), 'copies': st.booleans(), 'phases': st.integers(0, 2), 'collect': st.booleans(), 'inner': st.sampled_from(['node', 'node', 'flow']), 'where': st.integers(0, 2),
                            'flag': st.sampled_from([None, None, None, True, False]), 'flagkey': st.sampled_from(['use_copies', 'L->use_copies']), 'nchunks': st.one_of(*([st.integers(1, 4)] * 6 + [st.sampled_from([12, 70])])), 'keys': st.lists(st.sampled_from(['w', 'arr', 'in->w', 'x1']), max_size=3, unique=True),
                            'sched': SCHED, 'how': st.sampled_from(['train', 'manual']), 'reps': st.integers(1, 2), 'seed': seeds}), quick=900, rule='more than one chunk and node', shards=4)
def layer(case, ctx):
    """CloneBiLayers in parallel flows."""
    n, d = case['n'], case['d']
    rng = rs(case['seed'])

    def make():
        nd = SumBi(case['phases'], case['collect'], node_id='in', input_dim=d, dtype='d')
        if case['inner'] == 'flow':
            nd = BiFlowNode(BiFlow([nd]), input_dim=d, output_dim=d, dtype='d')
        lay = CloneBiLayer(nd, n, use_copies=case['copies'], node_id='L')
        nds = [Tally(), SumBi(1, False, node_id='pre', dtype='d')]
        nds.insert(case['where'], lay)
        return nds, lay
    (a, la), (b, lb) = make(), make()
    ser, pf = BiFlow(a), ParallelBiFlow(b)
    flag = case['flag']
    if (flag is False and case['copies']) or not case['phases']:
        # the serial layer refuses the first during training
        flag = None

    def chunk():
        rows = rng.randint(1, 4)
        m = {}
        for k in case['keys']:
            m[k] = {'w': int(rng.randint(5)), 'in->w': int(rng.randint(5)), 'arr': rng.randint(-9, 9, size=(rows, n)).astype(float), 'x1': 1}[k]
        return rng.randint(-20, 20, size=(rows, n * d)).astype(float), m
    cs = [chunk() for _ in range(case['nchunks'])]
    xs, ms = [c[0] for c in cs], [c[1] for c in cs]
    li = a.index(la)
    tm = [[dict(m, **({case['flagkey']: flag} if flag is not None and i == li else {})) for m in ms] for i in range(3)]
    s = make_scheduler(case['sched'], case['seed'])
    try:
        ra = outcome(lambda: ser.train([xs] * 3, tm))
        if case['how'] == 'manual':
            rb = outcome(lambda: manual_train(pf, case['seed'], False, [xs] * 3, tm))
        else:
            rb = outcome(lambda: pf.train([xs] * 3, tm, scheduler=s))
        check(ra[0] == rb[0], "training: serial %s, parallel %s", ra, rb)
        if ra[0] != 'ok':
            ctx.label('refused')
            return
        if flag is None or case['sched'] == 'serial':
            check(la.use_copies == lb.use_copies, "use_copies is %s after training, serial %s", lb.use_copies, la.use_copies)

        def st_(lay):
            out = []
            for nd in lay.nodes:
                nd = nd._flow[0] if isinstance(nd, BiFlowNode) else nd
                out.append((nd.hist, nd.is_training(), nd.n, nd.seen))
            return out
        check(st_(la) == st_(lb), "trained state of the layer %s, serial %s", st_(lb), st_(la))
        es = [chunk() for _ in range(case['nchunks'])]
        ex, em = [c[0] for c in es], [dict((k, v) for k, v in c[1].items() if k != 'arr' or n > 0) for c in es]
        for rep in range(case['reps']):
            ra = outcome(lambda: ser.execute(ex, [dict(m) for m in em]))
            rb = outcome(lambda: pf.execute(ex, [dict(m) for m in em], scheduler=s))
            check(ra[0] == rb[0], "execution: serial %s, parallel %s", ra, rb)
            if ra[0] != 'ok':
                ctx.label('exec refused')
                return
            check(same(ra[1][0], rb[1][0]) and same(ra[1][1], rb[1][1]), "execution: serial %s, parallel %s", ra[1], rb[1])
            check(st_(la) == st_(lb), "state of the layer after execution %s, serial %s", st_(lb), st_(la))
        ctx.nontrivial(len(xs) > 1 and n > 1)
        ctx.label('copies %s' % case['copies'])
        ctx.label('flag %s' % flag)
    finally:
        s.shutdown()


# ------------------------------------------------------------------ local training
class LocalBi(SumBi):
    """Cannot be forked."""


class ParLocalBi(par.ParallelExtensionNode, LocalBi):
    def _fork(self):
        raise par.NotForkableParallelException("stays at home")

    def _join(self, f):
        raise AssertionError("joined")


class StrayBi(SumBi):
    """Sends the training data away."""
    stray = None

    def _train(self, x, w=None, arr=None):
        SumBi._train(self, x, w, arr)
        if self.stray is not None:
            return x, {}, self.stray


class ParStrayBi(ParSumBi, StrayBi):
    def _fork(self):
        f = StrayBi(self.phases, self.collect, node_id=self._node_id, input_dim=self.input_dim, output_dim=self.output_dim, dtype=self.dtype)
        f._train_phase, f._training, f.hist, f.stray = self._train_phase, self._training, list(self.hist), self.stray
        return f


@sub(st.fixed_dictionaries({'kinds': st.lists(st.sampled_from(['sum', 'sum', 'local', 'local', 'still', 'inner']), min_size=1, max_size=4), 'phases': st.lists(st.integers(1, 3), min_size=4, max_size=4), 'nchunks': st.integers(1, 3),
                            'form': st.sampled_from(['list', 'list', 'empty', 'once', 'array']), 'at': st.integers(0, 3), 'keys': st.lists(st.sampled_from(['w', 'arr']), max_size=2, unique=True), 'stop': st.booleans(), 'stray': st.sampled_from([None] * 12 + ['nobody', 5, -9]),
                            'class': st.sampled_from(['plain', 'check']), 'sched': st.sampled_from(['none', 'serial', 'shuffle', 'pickled']), 'dtype': st.sampled_from([None, 'd', 'f']), 'seed': seeds}), quick=700, rule='a trainable node', shards=2)
def local(case, ctx):
    """Nodes that cannot be forked, missing data, no scheduler."""
    rng = rs(case['seed'])
    kinds, d = case['kinds'], 2
    dt = case['dtype']

    def make():
        out = []
        for i, k in enumerate(kinds):
            kw = dict(node_id='n%d' % i)
            ph = case['phases'][i]
            if k == 'inner':
                out.append(BiFlowNode(BiFlow([StrayBi(ph, node_id='in%d' % i)]), input_dim=d, dtype=dt, node_id='n%d' % i))
                continue
            nd = {'sum': StrayBi, 'local': LocalBi, 'still': SumBi}[k](0 if k == 'still' else ph, **kw)
            if k == 'sum' and i == case['at']:
                nd.stray = case['stray']
            out.append(nd)
        return out
    n = len(kinds)
    xs = [rng.randint(-20, 20, size=(rng.randint(1, 4), d)).astype(dt or 'd') for _ in range(case['nchunks'])]
    ms = [dict((k, {'w': int(rng.randint(5)), 'arr': rng.randint(-9, 9, size=(len(x), 2)).astype(float)}[k]) for k in case['keys']) for x in xs]
    at = case['at'] % n

    def args():
        if case['form'] == 'array':
            return xs[0], ms[0]
        data, mm = [list(xs) for _ in kinds], [list(ms) for _ in kinds]
        if case['form'] == 'empty':
            data[at], mm[at] = [], []
        if case['form'] == 'once':
            data[at], mm[at] = iter(xs), iter(ms)
        return data, mm
    stops = [{'q%d' % i: i} for i in range(n)] if case['stop'] else None
    cp = case['class'] == 'check'
    calls = ([], [])

    def cps(k):
        return [(lambda nd, i=i: calls[k].append(i)) if kinds[i] != 'still' else None for i in range(n)]
    ser, pf = (BiCheckpointFlow if cp else BiFlow)(make()), (ParallelCheckpointBiFlow if cp else ParallelBiFlow)(make())
    s = None if case['sched'] == 'none' else make_scheduler(case['sched'], case['seed'])

    def run(f, k, **kw):
        a = args()
        kw.update(msg_iterables=a[1], stop_messages=stops)
        return f.train(a[0], cps(k), **kw) if cp else f.train(a[0], **kw)
    try:
        ra = outcome(lambda: run(ser, 0))
        rb = outcome(lambda: run(pf, 1, **({} if s is None else {'scheduler': s})))
        check(ra[0] == rb[0], "training: serial %s, parallel %s", ra, rb)
        check(not pf.is_parallel_training, "still training")
        if ra[0] == 'error':
            ctx.label('refused %s' % str(ra[1]).strip()[:40])
            check(not isinstance(ra[1], mdp.FlowException) or isinstance(rb[1], mdp.FlowException), "training: serial %r, parallel %r", ra[1], rb[1])
            return
        check(calls[0] == calls[1], "checkpoints %s, serial %s", calls[1], calls[0])

        def leaves(f):
            return [nd._flow[0] if isinstance(nd, BiFlowNode) else nd for nd in f]
        for i, (p, q) in enumerate(zip(leaves(ser), leaves(pf))):
            check(p.hist == q.hist and p.is_training() == q.is_training(), "node %d: phases (samples, sum) %s, serial %s", i, q.hist, p.hist)
            if q.input_dim is not None and p.input_dim is not None:
                check((p.input_dim, p.dtype) == (q.input_dim, q.dtype), "node %d: %s, serial %s", i, (q.input_dim, q.dtype), (p.input_dim, p.dtype))
        ctx.nontrivial(any(k != 'still' for k in kinds))
        ctx.label('%s %s' % (case['form'], case['class']))
        ctx.label(case['sched'])
        if 'local' in kinds:
            ctx.label('local training')
        x = xs[0]
        ra = outcome(lambda: ser.execute(x))
        rb = outcome(lambda: pf.execute(x, **({} if s is None else {'scheduler': s})))
        check(ra[0] == rb[0], "execution: serial %s, parallel %s", ra, rb)
        if ra[0] == 'ok':
            check(same(ra[1][0], rb[1][0]) and same(ra[1][1], rb[1][1]), "execution: serial %s, parallel %s", ra[1], rb[1])
        # forks of the inner flows
        mdp.activate_extension('parallel')
        try:
            for nd in make():
                if isinstance(nd, BiFlowNode):
                    f = nd.fork()
                    check((f.input_dim, f.dtype, f.node_id) == (nd.input_dim, nd.dtype, nd.node_id), "fork with %s of a node with %s", (f.input_dim, f.dtype, f.node_id), (nd.input_dim, nd.dtype, nd.node_id))
        finally:
            mdp.deactivate_extension('parallel')
    finally:
        if s is not None:
            s.shutdown()
