"""Flows as checked lists; failures; checkpoints."""
import os
import pickle
import tempfile
import numpy as np
import mdp
from lib.harness import sub, check, close, st, raises, Violation
from lib import gen
from lib.gen import seeds, rs
from lib.flowzoo import Part, parts, signal, manual_train, RecBase, Affine, mkdata, source

ERR = (TypeError, ValueError, IndexError)


def node(a, b):
    return mdp.Node(input_dim=a, output_dim=b)


def consistent(nds):
    for u, v in zip(nds[:-1], nds[1:]):
        if u.output_dim is not None and v.input_dim is not None and u.output_dim != v.input_dim:
            return False
    return True


def same(f, model):
    return len(f.flow) == len(model) and all(u is v for u, v in zip(f.flow, model))


dim = st.sampled_from([None, None, 2, 3])
dimr = st.sampled_from([2, 2, 2, 3, None])
nd = st.tuples(dimr, dimr).map(list)
ix = st.integers(-7, 7)
sl = st.tuples(st.one_of(st.none(), ix), st.one_of(st.none(), ix), st.sampled_from([None, None, None, 1, 2, -1, -2])).map(list)
vals = st.lists(nd, max_size=3)
op = st.one_of(
    st.tuples(st.just('get'), ix), st.tuples(st.just('getslice'), sl), st.tuples(st.just('set'), ix, nd),
    st.tuples(st.just('setslice'), sl, vals, st.sampled_from(['list', 'tuple', 'gen', 'flow'])),
    st.tuples(st.just('del'), ix), st.tuples(st.just('delslice'), sl), st.tuples(st.just('insert'), ix, nd),
    st.tuples(st.just('append'), nd), st.tuples(st.just('extend'), vals), st.tuples(st.just('pop'), ix), st.tuples(st.just('pop')),
    st.tuples(st.just('add'), nd), st.tuples(st.just('addflow'), vals), st.tuples(st.just('iadd'), nd),
    st.tuples(st.just('iaddflow'), vals), st.tuples(st.just('iaddself')), st.tuples(st.just('extendself')),
    st.tuples(st.just('radd'), nd), st.tuples(st.just('nodenode'), nd, nd),
    st.tuples(st.just('bad'), st.sampled_from(['set', 'setslice', 'append', 'insert', 'add', 'iadd', 'extend', 'radd']),
              ix, st.integers(0, 5)),
    st.tuples(st.just('move'), ix, ix), st.tuples(st.just('query'))).map(list)


def junk(k):
    return [3, 'node', None, mdp.nodes.PCANode, [], object()][k]


@sub(st.fixed_dictionaries({'start': st.lists(nd, max_size=4), 'ops': st.lists(op, min_size=1, max_size=14),
                            'cls': st.sampled_from(['Flow', 'Flow', 'CheckpointFlow', 'BiFlow', 'Sub', 'ParallelFlow'])}),
     quick=3000, thorough=100000, shards=4, rule="at least one accepted and one refused change")
def listops(case, ctx):
    import bimdp
    cls = {'Flow': mdp.Flow, 'CheckpointFlow': mdp.CheckpointFlow, 'BiFlow': bimdp.BiFlow, 'Sub': SubFlow,
           'ParallelFlow': mdp.parallel.ParallelFlow}[case['cls']]
    model = [node(*d) for d in case['start']]
    given = list(model)
    if not consistent(model):
        raises(ValueError, lambda: cls(given), "constructor with inconsistent dimensions")
        return
    f = cls(given)
    given0 = list(given)
    check(same(f, model), "constructor")
    acc = ref = 0
    others = []
    for o in case['ops']:
        k = o[0]
        new = list(model)
        val = None       # (function on flow, result check)
        if k == 'get':
            try:
                exp = model[o[1]]
            except IndexError:
                raises(IndexError, lambda: f[o[1]], "index out of range")
            else:
                check(f[o[1]] is exp, "item %d", o[1])
            continue
        if k == 'getslice':
            s = slice(*o[1])
            exp = model[s]
            if consistent(exp):
                g = f[s]
                check(type(g) is cls and same(g, exp), "slice %s" % s)
                others.append((g, exp))
            else:
                raises(ValueError, lambda: f[s], "slice %s with disagreeing dimensions" % s)
            continue
        if k == 'query':
            check(len(f) == len(model), "length")
            check(all(a is b for a, b in zip(iter(f), model)) and len(list(f)) == len(model), "iteration")
            check(all(m in f for m in model) and node(2, 2) not in f and 3 not in f, "membership")
            check(repr(f).count('Node(') == len(model), "repr")
            check(str(f).count('Node') == len(model), "str")
            continue
        if k == 'bad':
            j = junk(o[3])
            how = o[1]
            if how == 'setslice':
                fn = lambda: f.__setitem__(slice(0, 1), [node(None, None), j])
            elif how == 'set':
                if not model:
                    continue
                fn = lambda: f.__setitem__(o[2] % len(model), j)
            elif how == 'append':
                fn = lambda: f.append(j)
            elif how == 'insert':
                fn = lambda: f.insert(o[2], j)
            elif how == 'add':
                fn = lambda: f + j
            elif how == 'iadd':
                fn = lambda: f.__iadd__(j)
            elif how == 'radd':
                fn = lambda: node(None, None) + j
            else:
                fn = lambda: f.extend(j)
            raises(TypeError, fn, "%s of something that is not a node" % how)
            check(same(f, model), "flow changed by a refused %s" % how)
            ref += 1
            continue
        if k in ('add', 'addflow', 'radd', 'nodenode'):
            # new flows; the operands stay
            if k == 'add':
                n = node(*o[1])
                exp, fn, rt = model + [n], lambda: f + n, cls
            elif k == 'addflow':
                ns = [node(*d) for d in o[1]]
                if not consistent(ns):
                    continue
                g2 = mdp.Flow(ns)
                exp, fn, rt = model + ns, lambda: f + g2, cls
            elif k == 'nodenode':
                n, n2 = node(*o[1]), node(*o[2])
                exp, fn, rt = [n, n2], lambda: n + n2, mdp.Flow
            else:
                n = node(*o[1])
                exp, fn, rt = [n] + model, lambda: n + f, cls
            if consistent(exp):
                g = fn()
                check(isinstance(g, rt), "type of the sum")
                if k == 'radd':
                    check(len(g) == len(exp) and all((a.input_dim, a.output_dim) == (b.input_dim, b.output_dim)
                                                     for a, b in zip(g, exp)), "node + flow")
                else:
                    check(same(g, exp), k)
                    others.append((g, exp))
            else:
                raises(ValueError, fn, "%s with disagreeing dimensions" % k)
                ref += 1
            check(same(f, model), "operand changed by %s" % k)
            continue
        # changes in place
        err = None
        res = None
        try:
            if k == 'set':
                n = node(*o[2])
                fn = lambda: f.__setitem__(o[1], n)
                new[o[1]] = n
            elif k == 'setslice':
                ns = [node(*d) for d in o[2]]
                if o[3] == 'flow' and not consistent(ns):
                    continue
                v = {'list': lambda: list(ns), 'tuple': lambda: tuple(ns), 'gen': lambda: (z for z in ns),
                     'flow': lambda: mdp.Flow(list(ns))}[o[3]]()
                fn = lambda: f.__setitem__(slice(*o[1]), v)
                new[slice(*o[1])] = ns
            elif k == 'del':
                fn = lambda: f.__delitem__(o[1])
                del new[o[1]]
            elif k == 'delslice':
                fn = lambda: f.__delitem__(slice(*o[1]))
                del new[slice(*o[1])]
            elif k == 'insert':
                n = node(*o[2])
                fn = lambda: f.insert(o[1], n)
                new.insert(o[1], n)
            elif k == 'append':
                n = node(*o[1])
                fn = lambda: f.append(n)
                new.append(n)
            elif k == 'extend':
                ns = [node(*d) for d in o[1]]
                if not consistent(ns):
                    continue
                g3 = mdp.Flow(ns)
                fn = lambda: f.extend(g3)
                new.extend(ns)
            elif k == 'extendself':
                if len(model) > 12:
                    continue
                fn = lambda: f.extend(f)
                new.extend(list(model))
            elif k == 'pop':
                a = o[1:] or []
                fn = lambda: f.pop(*a)
                res = (model[a[0]] if a else model[-1],)
                new.pop(*a)
            elif k == 'move':
                # take a node out and put it back elsewhere
                if not model:
                    continue
                i = o[1] % len(model)
                n = model[i]
                mid = model[:i] + model[i + 1:]
                if not consistent(mid):
                    continue
                f.pop(i)
                check(same(f, mid), "pop")
                model = mid
                new = list(mid)
                new.insert(o[2], n)
                fn = lambda: f.insert(o[2], n)
            elif k in ('iadd', 'iaddflow', 'iaddself'):
                if k == 'iadd':
                    n = node(*o[1])
                    ot, ns = n, [n]
                elif k == 'iaddflow':
                    ns = [node(*d) for d in o[1]]
                    if not consistent(ns):
                        continue
                    ot = mdp.Flow(list(ns))
                    others.append((ot, list(ns)))
                else:
                    if len(model) > 12:
                        continue
                    ot, ns = f, list(model)
                new.extend(ns)

                def fn():
                    g = f
                    g += ot
                    check(g is f, "in-place concatenation returned another flow")
        except (IndexError, ValueError) as e:
            err = type(e)
        if err is None and not consistent(new):
            err = ValueError
        if err is not None:
            raises(err, fn, "%s must be refused" % o)
            check(same(f, model), "flow changed by a refused %s" % k)
            ref += 1
        else:
            try:
                r = fn()
            except Violation:
                raise
            except Exception as e:
                raise Violation("%s refused with %s: %s" % (o, type(e).__name__, e))
            if res is not None:
                check(r is res[0], "pop returned another node")
            model = new
            acc += 1
            check(same(f, model), "nodes after %s", k)
    check(same(f, model) and len(f) == len(model), "nodes at the end")
    for g, exp in others:
        check(same(g, exp), "another flow changed")
    check(len(given) == len(given0) and all(a is b for a, b in zip(given, given0)), "the list given to the constructor changed")
    ctx.nontrivial(acc > 0 and ref > 0)


class SubFlow(mdp.Flow):
    pass


# ------------------------------------------------------------------ failures
class Boom(Exception):
    pass


class Fail(Affine):
    """Fails on the k-th call of one of its methods."""

    def __init__(self, where, k, text, exc=0, phases=1):
        self.where, self.k, self.text, self.exc = where, k, text, exc
        self.n = 0
        self.phases = phases
        super(Fail, self).__init__(1.5, 0.5)

    def is_trainable(self):
        return self.where in ('train', 'stop', 'execute-train')

    def hit(self, where):
        if where == self.where:
            self.n += 1
            if self.n == self.k:
                raise [Boom, ValueError, ZeroDivisionError, mdp.NodeException, KeyError][self.exc](self.text)

    def _get_train_seq(self):
        return [(self._t, self._s)] * self.phases

    def _train(self, x):
        pass

    def _t(self, x):
        self.hit('train')

    def _s(self):
        self.hit('stop')

    def _execute(self, x):
        self.hit('execute')
        return super(Fail, self)._execute(x)

    def _inverse(self, y):
        self.hit('inverse')
        return super(Fail, self)._inverse(y)

    def __getstate__(self):
        d = dict(self.__dict__)
        d.pop('_train_seq', None)
        return d


@sub(st.fixed_dictionaries({'n': st.integers(1, 5), 'pos': st.integers(0, 4), 'where': st.sampled_from(['train', 'stop', 'execute', 'inverse', 'upstream']),
                            'k': st.integers(1, 3), 'exc': st.integers(0, 4), 'rec': st.sampled_from(['no', 'no', 'name', 'temp', 'set']),
                            'seed': seeds, 'form': st.sampled_from(['array', 'list', 'gen']), 'phases': st.integers(1, 2),
                            'cp': st.booleans()}),
     quick=1200, thorough=20000, shards=2, rule="the failure happened")
def failures(case, ctx):
    rng = rs(case['seed'], 1)
    n = case['n']
    pos = case['pos'] % n
    d = rng.randint(1, 4)
    text = "failure text %d" % rng.randint(10 ** 6)
    where = case['where']
    up = where == 'upstream'
    tmp = ctx.tmpdir()
    nds = []
    for i in range(n):
        if i == pos:
            nds.append(Fail('execute' if up else where, case['k'], text, case['exc'], case['phases']))
        else:
            p = Part(['affine', 'rec', 'id'][rng.randint(3)], d, rng, **{})
            if p.kind == 'rec':
                p = Part('rec', d, rng, na=0)
            if up and i == pos + 1:
                p = Part('rec', d, rng, na=0)
            nds.append(p.new())
    if up and pos == n - 1:
        nds.append(Part('rec', d, rng, na=0).new())
        n += 1
    kw = {}
    dump = None
    if case['rec'] == 'name':
        dump = os.path.join(tmp, 'crash.pic')
        kw['crash_recovery'] = dump
    elif case['rec'] == 'temp':
        kw['crash_recovery'] = True
    cls = mdp.CheckpointFlow if case['cp'] else mdp.Flow
    f = cls(list(nds), **kw)
    if case['rec'] == 'set':
        f.set_crash_recovery(True)
    chunks = [signal(rng, 6, d) for _ in range(3)]
    called = []
    cpargs = ([[lambda nd: called.append(nd)] * n] if case['cp'] else [])
    old = tempfile.tempdir
    tempfile.tempdir = tmp
    try:
        err = None
        x = {'array': lambda: np.concatenate(chunks), 'list': lambda: list(chunks), 'gen': lambda: (c for c in chunks)}[case['form']]()
        try:
            f.train([list(chunks) for _ in nds], *cpargs)
            stage = 'exec'
            f.execute(x)
            x = {'array': lambda: np.concatenate(chunks), 'list': lambda: list(chunks), 'gen': lambda: (c for c in chunks)}[case['form']]()
            stage = 'inv'
            f.inverse(x)
        except mdp.FlowException as e:
            err = e
        except Exception as e:
            raise Violation("%s reported as %s: %s" % (where, type(e).__name__, str(e)[:300]))
    finally:
        tempfile.tempdir = old
    check(same(f, nds), "nodes after a failure")
    happened = nds[pos].n >= case['k']
    check(happened == (err is not None), "failure happened: %s, reported: %s" % (happened, str(err)[:300]))
    if not happened:
        check(not os.listdir(tmp), "crash dump without a crash")
        return
    msg = str(err)
    check("node #%d (%s)" % (pos, str(nds[pos])) in msg, "the failing node %d is not named in: %s" % (pos, msg[-400:]))
    check(text in msg, "the text of the error is missing in: %s" % msg[-400:])
    if isinstance(err, mdp.FlowExceptionCR):
        check(text in str(err.parent_exception) and type(err.parent_exception).__name__ ==
              ['Boom', 'ValueError', 'ZeroDivisionError', 'NodeException', 'KeyError'][case['exc']], "parent exception")
        check(err.crashing_obj is f, "crashing object")
        files = os.listdir(tmp)
        if case['rec'] == 'no':
            check(not files, "crash dump without being asked: %s" % files)
            name = err.dump(os.path.join(tmp, 'asked'))
            check(name == os.path.join(tmp, 'asked'), "name of the dump")
        else:
            check(len(files) == 1, "crash dump files: %s" % files)
            name = os.path.join(tmp, files[0])
            check(os.path.samefile(err.filename, name), "file name of the dump")
            check(dump is None or name == dump, "crash dump under another name")
            check(err.filename in msg, "name of the dump in the message")
    else:
        # the node failed while a later node was being trained
        check("training node #" in msg, "the trained node is not named: %s" % msg[-300:])
        files = os.listdir(tmp)
        check(len(files) == (case['rec'] != 'no'), "crash dump files: %s" % files)
        name = os.path.join(tmp, files[0]) if files else None
    if name is not None:
        with open(name, 'rb') as fh:
            g = pickle.load(fh)
        check(type(g) is type(f) and len(g) == n and all(type(a) is type(b) for a, b in zip(g, nds)), "dumped flow")
        check(g[pos].n == case['k'] and g[pos].text == text, "state of the dumped flow")
    if case['cp'] and 'train' in where:
        check(len(called) == pos and all(a is b for a, b in zip(called, nds)), "checkpoints called before the failure: %d, node %d"
              % (len(called), pos))
    ctx.label(type(err).__name__)
    ctx.nontrivial()


# ------------------------------------------------------------------ checkpoints
@sub(st.fixed_dictionaries({'kinds': st.lists(st.sampled_from(['rec', 'recopt', 'affine', 'pca', 'norm', 'fda', 'sfa', 'quad', 'id', 'rec', 'affine', 'id']),
                                              min_size=1, max_size=8),
                            'd': st.integers(2, 3), 'seed': seeds, 'which': st.lists(st.sampled_from(['no', 'log', 'dict', 'save0', 'save1', 'fn']),
                                                                                    min_size=1, max_size=5),
                            'single': st.sampled_from([False, False, False, True]), 'proto': st.sampled_from([2, 2, 0, 1, -1, None]),
                            'bin': st.sampled_from([1, 0]), 'bad': st.sampled_from([0, 0, 0, 0, 0, -1, 1])}),
     quick=500, thorough=10000, shards=2, rule="a checkpoint and two nodes")
def checkpoints(case, ctx):
    rng = rs(case['seed'], 1)
    d = case['d']
    ps = parts(case['kinds'], d, case['seed'])
    nds, ref = [p.new() for p in ps], [p.new() for p in ps]
    data = mkdata(ps, rng, False, d)
    its = [source('list', p, c, 'tuple') for p, c in zip(ps, data)]
    tmp = ctx.tmpdir()
    try:
        manual_train(ref, ps, data)
    except mdp.MDPException:
        ctx.label('node failure')
        return
    calls = []
    files = {}

    class CP(mdp.CheckpointFunction):
        def __init__(self, ret=None):
            self.ret = ret

        def __call__(self, nd):
            # what has been trained up to now
            calls.append((nd, [n.is_training() and n.get_remaining_train_phase() > 0 and not started(n) for n in nds],
                          [[e[0] for e in getattr(n, 'log', [])].count('train') for n in nds], nd.is_training()))
            return self.ret

    def started(n):
        return getattr(n, '_train_phase_started', False) or n.get_current_train_phase() > 0

    cps = []
    for i, p in enumerate(ps):
        w = case['which'][i % len(case['which'])]
        if case['single']:
            w = 'log'
        if not p.trainable and w == 'save1':
            w = 'log'
        if w == 'no':
            cps.append(None)
        elif w == 'log':
            cps.append(CP())
        elif w == 'dict':
            cps.append(CP({'extra%d' % i: 10 * i, 'shared': i}))
        elif w == 'fn':
            cps.append(lambda nd: CP().__call__(nd))
        else:
            files[i] = os.path.join(tmp, 'node%d' % i)
            kw = {} if case['proto'] is None else {'protocol': case['proto'], 'binary': case['bin']}
            cps.append(mdp.CheckpointSaveFunction(files[i], stop_training=int(w == 'save1'), **kw))
    f = mdp.CheckpointFlow(nds)
    if case['bad'] and not case['single']:
        wrong = cps[:-1] if case['bad'] < 0 else cps + [None]
        raises(mdp.FlowException, lambda: f.train(its, wrong), "wrong number of checkpoints")
        check(not any(getattr(n, 'log', None) for n in nds), "trained with a wrong number of checkpoints")
    arg = CP() if case['single'] else cps
    f.train(its, arg)
    # which were called, in order, each once
    exp = [i for i in range(len(ps)) if case['single'] or (cps[i] is not None and i not in files)]
    check([nds.index(c[0]) for c in calls] == exp, "checkpoints called for %s instead of %s" % ([nds.index(c[0]) for c in calls], exp))
    for (nd, fresh, counts, tr), i in zip(calls, exp):
        for j, p in enumerate(ps):
            if not p.trainable:
                continue
            if isinstance(nds[j], RecBase):
                full = len(data[j]) * p.phases
                check(counts[j] == (full if j <= i else 0), "node %d had seen %d chunks at the checkpoint of node %d (all: %d)"
                      % (j, counts[j], i, full))
            if j > i:
                check(fresh[j], "node %d trained before the checkpoint of node %d" % (j, i))
    for i, w in enumerate(cps):
        if isinstance(w, CP) and w.ret and not case['single']:
            check(f.__dict__.get('extra%d' % i) == 10 * i, "dictionary returned by the checkpoint")
    dl = [i for i, w in enumerate(cps) if isinstance(w, CP) and w.ret]
    if dl and not case['single']:
        check(f.shared == dl[-1], "entries of later checkpoints win")
    # result of the training
    x = signal(rng, 20, d)
    v = x
    for k, m in enumerate(ref):
        v = m.execute(v)
        close(f.execute(x, k), v, 1e-9, "execution after training with checkpoints, up to %d" % k)
    if not case['single']:
        check(sorted(os.listdir(tmp)) == sorted(os.path.basename(b) for b in files.values()), "files written")
        for i, fn in files.items():
            with open(fn, 'rb') as fh:
                g = pickle.load(fh)
            if ps[i].trainable:
                w = case['which'][i % len(case['which'])]
                check(g.is_training() == (w == 'save0'), "saved node %s training" % ('is not in' if w == 'save0' else 'is in'))
                if g.is_training():
                    g.stop_training()
            v = x
            for m in ref[:i]:
                v = m.execute(v)
            close(g.execute(v), ref[i].execute(v), 1e-9, "saved node %d" % i)
    ctx.nontrivial(len(ps) > 1 and bool(calls or files))
