"""Bidirectional nodes against a reference parser of messages; generated BiNode classes against the ordinary classes."""
import copy
import inspect
import pickle
import tempfile
import os
import numpy as np
import mdp
import bimdp
from mdp import nodes
from bimdp import BiNode, BiFlow, BiNodeException, binode_coroutine
from lib.harness import sub, check, close, st, raises, HarnessError
from lib import gen, nodetab
from lib.gen import seeds, rs

SEP = '->'
KEYS = ['a', 'b', 'c', 'labels']
NAMES = ['execute', 'train', 'inverse', 'alt', 'other', 'stop_training', 'train2', 'stop2', 'train3', 'stop3']

# ------------------------------------------------------------------ generated nodes
SIG = st.fixed_dictionaries({
    'args': st.lists(st.tuples(st.sampled_from(KEYS), st.sampled_from(['req', 'def'])).map(list), max_size=3, unique_by=lambda t: t[0]),
    'msg': st.sampled_from([False, False, True])})
RESULT = st.fixed_dictionaries({
    'kind': st.sampled_from(['y', 'y', 'm', 'mt', 'none', 'nm', 'nmt']),
    'msg': st.sampled_from([None, {}, {'r': 1}, {'a': 99, 'r': 2}, {'other->b': 5, 'z': 3}]),
    'target': st.sampled_from([1, -1, 'somewhere', 'exit', 0])})


class RecNode(BiNode):
    """Methods made from signatures; every call is noted and answered from the script."""

    def __init__(self, case=None, trainable=True, phases=1, **kw):
        self.case, self.trainable, self.phases = case, trainable, phases
        super(RecNode, self).__init__(**kw)
        self.calls = []

    def is_trainable(self):
        return self.trainable

    def _get_train_seq(self):
        return [(self._train, self._stop_training), (self._train2, self._stop2), (self._train3, self._stop3)][:self.phases]

    def rec(self, name, x, kw):
        self.calls.append((name, x, kw))
        return answer(self.case['results'][name], x, kw.get('msg') if self.case['sigs'][name]['msg'] else None,
                      self.case['sigs'][name]['msg'])


def answer(spec, x, msg, hasmsg):
    m = copy.deepcopy(spec['msg'])
    if hasmsg and spec['kind'] in ('m', 'mt', 'nm', 'nmt'):
        # keep a part of the message that was given
        m = dict(m or {})
        for k in list(msg or {}):
            if k != 'c':
                m.setdefault(k, msg[k])
    y = None if x is None else x * 2.
    k = spec['kind']
    if k == 'y':
        return y if y is not None else np.ones((1, 1))
    if k == 'none':
        return None
    if k == 'm':
        return y, m
    if k == 'mt':
        return y, m, spec['target']
    if k == 'nm':
        return None, m
    return None, m, spec['target']


def make(case, **kw):
    """A node class with the methods of the case."""
    ns = {}
    for name in NAMES:
        s = case['sigs'][name]
        req = [a for a, d in s['args'] if d == 'req']
        opt = [a for a, d in s['args'] if d == 'def']
        allx = req + opt
        nox = name in ('stop_training', 'stop2', 'stop3')
        params = (['self'] if nox else ['self', 'x']) + req
        if s['msg'] and s.get('msgreq'):
            params.append('msg')
        params += ['%s="default-%s"' % (a, a) for a in opt]
        if s['msg'] and not s.get('msgreq'):
            params.append('msg=None')
        src = "def _%s(%s):\n    return self.rec(%r, %s, dict(%s))\n" % (
            name, ', '.join(params), name, 'None' if nox else 'x', ', '.join('%s=%s' % (a, a) for a in allx + (['msg'] if s['msg'] else [])))
        exec(src, {}, ns)
    cls = type('GenNode', (RecNode,), ns)
    return cls(case, **kw)


def ref_parse(node_id, msg, nodesigs, default, isstop=False):
    """(method name, kwargs, rest or None, target) or an exception class."""
    own = {}
    rest = {}
    for k, v in msg.items():
        if SEP in k and k.index(SEP) > 0 and node_id is not None and k[:k.index(SEP)] == node_id:
            own[k[k.index(SEP) + len(SEP):]] = v
        else:
            rest[k] = v
    target = own.pop('target', rest.get('target'))
    method = own.pop('method', rest.get('method'))
    name = default
    if method:
        name = method
        if method == 'inverse' and target is None:
            target = -1
        if name not in nodesigs:
            return BiNodeException
    sig = nodesigs[name]
    kw = {}
    for a, d in sig['args']:
        if a in own:
            kw[a] = own[a]
        elif a in rest:
            kw[a] = rest[a]
        elif d == 'req':
            return TypeError
        else:
            kw[a] = 'default-' + a
    if sig['msg']:
        kw['msg'] = dict(rest)
        rest = None
    return name, kw, rest, target


def ref_combine(result, rest, target):
    """The documented result shape."""
    if isinstance(result, tuple):
        m = dict(rest or {})
        m.update(result[1] or {})
        if len(result) == 3:
            return ('t3', result[0], m, result[2])
        if target is not None:
            return ('t3', result[0], m, target)
        return ('t2', result[0], m)
    if target is not None:
        return ('t3', result, dict(rest or {}), target)
    if rest:
        return ('t2', result, dict(rest))
    return ('y', result)


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and np.array_equal(a, b)
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    return type(a) == type(b) and a == b


def match(got, want, what):
    kind = want[0]
    if kind == 'y':
        check(not isinstance(got, tuple), "%s: result %s, expected a single value", what, got)
        check(same(got, want[1]), "%s: value %s, expected %s", what, got, want[1])
    elif kind == 't2':
        check(isinstance(got, tuple) and len(got) == 2, "%s: result %s, expected (y, msg)", what, got)
        check(same(got[0], want[1]), "%s: value %s, expected %s", what, got[0], want[1])
        check(same(got[1] or {}, want[2]), "%s: message %s, expected %s", what, got[1], want[2])
    else:
        check(isinstance(got, tuple) and len(got) == 3, "%s: result %s, expected (y, msg, target)", what, got)
        check(same(got[0], want[1]), "%s: value %s, expected %s", what, got[0], want[1])
        check(same(got[1] or {}, want[2]), "%s: message %s, expected %s", what, got[1], want[2])
        check(got[2] == want[3] and type(got[2]) == type(want[3]), "%s: target %r, expected %r", what, got[2], want[3])


ENTRY = st.tuples(st.sampled_from(['', '', 'own', 'own', 'other', 'deep', 'near']),
                  st.sampled_from(KEYS + ['z', 'q']), st.integers(0, 5)).map(list)
MSG = st.fixed_dictionaries({
    'entries': st.lists(ENTRY, max_size=7),
    'target': st.sampled_from([None, None, None, ('', 1), ('', 0), ('own', 0), ('both', 0), ('', 'n2'), ('own', -1), ('own', 'n3'), ('both', 'n2'), ('other', 2)]),
    'method': st.sampled_from([None, None, None, ('', 'alt'), ('own', 'alt'), ('own', 'inverse'), ('', 'inverse'), ('own', 'other'),
                               ('own', 'nosuch'), ('both', 'alt'), ('other', 'alt'), ('own', ''), ('own', 'execute'), ('own', 'train')])})

STOPMSG = st.fixed_dictionaries({
    'entries': st.lists(ENTRY, max_size=7),
    'target': st.sampled_from([None, None, ('', 1), ('', 0), ('own', 0), ('both', 0), ('', 'n2'), ('own', -1), ('own', 'n3'), ('both', 'n2'), ('other', 2)]),
    'method': st.sampled_from([None] * 8 + [('own', 'stop2'), ('', 'stop_training'), ('own', 'nosuch'), ('own', ''), ('other', 'alt')])})


def build_msg(spec, nid):
    msg = {}

    def put(where, key, val):
        if where == '':
            msg[key] = val
        elif where == 'own':
            msg[nid + SEP + key] = val
        elif where == 'other':
            msg['other' + SEP + key] = val
        elif where == 'deep':
            msg['other' + SEP + nid + SEP + key] = val
        elif where == 'near':
            msg[nid + 'x' + SEP + key] = val
        elif where == 'both':
            msg[key] = 'plain'
            msg[nid + SEP + key] = val
    for where, key, val in spec['entries']:
        put(where, key, [val, 'v%d' % val][val % 2])
    for key in ('target', 'method'):
        if spec[key] is not None:
            put(spec[key][0], key, spec[key][1])
    return msg


def sigs(names):
    return st.fixed_dictionaries(dict((n, SIG) for n in names))


NODE = {'sigs': sigs(NAMES), 'results': st.fixed_dictionaries(dict((n, RESULT) for n in NAMES)), 'nid': st.sampled_from(['n1', 'n1', 'node 1', '', None])}


def nid_of(case):
    return case['nid'] if case['nid'] else 'n1'


@sub(st.fixed_dictionaries(dict(NODE, msg=MSG, seed=seeds, what=st.sampled_from(['execute', 'execute', 'train']), x=st.sampled_from(['array', 'none']),
                                reps=st.integers(1, 2))),
     quick=900, rule='message with at least two entries', shards=4)
def parse(case, ctx):
    """execute and train with messages."""
    what = case['what']
    nid = case['nid'] or None
    n = make(case, node_id=nid, input_dim=2, output_dim=2, dtype='d', trainable=what == 'train')
    x = rs(case['seed']).normal(size=(3, 2)) if case['x'] == 'array' else None
    for rep in range(case['reps']):
        msg = build_msg(case['msg'], nid_of(case))
        orig = dict(msg)
        want = ref_parse(nid, orig, case['sigs'], what)
        if what == 'train' and x is not None and not isinstance(want, type) and want[0] == 'inverse':
            return
        n.calls[:] = []
        call = (lambda: n.execute(x, msg)) if what == 'execute' else (lambda: n.train(x, msg))
        if isinstance(want, type):
            exc = (TypeError, BiNodeException, mdp.TrainingException) if want is TypeError else want
            raises(exc, call, "%s with message %s" % (what, orig))
            return
        name, kw, rest, target = want
        got = call()
        mine = n.calls
        check(len(mine) == 1 and mine[0][0] == name, "called %s instead of %s", [c[0] for c in n.calls], name)
        check(same(mine[0][2], kw) or _msgnone(mine[0][2], kw), "arguments of %s: %s, expected %s (message %s)", name, mine[0][2], kw, orig)
        check(same(mine[0][1], x), "data")
        result = answer(case['results'][name], x, kw.get('msg'), case['sigs'][name]['msg'])
        if what == 'train':
            if result is None or (isinstance(result, tuple) and result[0] is None and len(result) == 2 and target is None):
                check(got is None, "train returned %s instead of None", got)
                continue
        match(got, ref_combine(result, rest, target), "%s with %s" % (what, orig))
        for k in orig:
            if not (k.startswith(nid_of(case) + SEP) and nid is not None):
                pass
            if k in msg and k not in ((result[1] or {}) if isinstance(result, tuple) else {}):
                check(same(msg[k], orig[k]), "entry %s of the message was changed", k)
        ctx.nontrivial(len(orig) > 1)
        ctx.label('%s %d' % (name, len(got) if isinstance(got, tuple) else 1))


def _msgnone(a, b):
    """An empty message may be passed as such."""
    a, b = dict(a), dict(b)
    if 'msg' in a and 'msg' in b and not a['msg'] and not b['msg']:
        a.pop('msg')
        b.pop('msg')
        return same(a, b)
    return False


STOP = st.one_of(st.none(), st.tuples(st.sampled_from([{}, {'s': 1}, {'a': 7, 'z': 8}, {'n1->b': 3}]), st.sampled_from([1, -1, 0, 'goal', 'exit'])).map(list))


@sub(st.fixed_dictionaries(dict(NODE, msgs=st.lists(st.none() | STOPMSG | MSG | STOPMSG, min_size=3, max_size=3), phases=st.integers(1, 3),
                                stop=st.lists(STOP, min_size=3, max_size=3), copies=st.booleans())),
     quick=600, rule='stop message or stored stop result', shards=3)
def stop(case, ctx):
    """stop_training with messages and stored results."""
    nid = case['nid'] or None
    for nm in ('train', 'train2', 'train3'):
        case['sigs'][nm] = {'args': [], 'msg': False}
    phases = case['phases']
    use = all(s is not None for s in case['stop'][:phases])
    stored = [(dict(s[0]), s[1]) for s in case['stop'][:phases]] if use else None
    keep = copy.deepcopy(stored)
    sr = None if stored is None else (stored[0] if phases == 1 else stored)
    n = make(case, node_id=nid, input_dim=2, output_dim=2, dtype='d', phases=phases, stop_result=sr)
    twins = [n, n.copy()] if case['copies'] else [n]
    x = np.ones((3, 2))
    for ph in range(phases):
        for n in twins:
            n.train(x)
            n.calls[:] = []
            msg = None if case['msgs'][ph] is None else build_msg(case['msgs'][ph], nid_of(case))
            orig = dict(msg or {})
            default = ['stop_training', 'stop2', 'stop3'][ph]
            # only methods without data argument can be selected here
            want = ref_parse(nid, orig, case['sigs'], default)
            if not isinstance(want, type) and want[0] not in ('stop_training', 'stop2', 'stop3'):
                return
            call = lambda: n.stop_training() if msg is None else n.stop_training(msg)
            if isinstance(want, type):
                raises((want,), call, "stop_training with %s" % orig)
                return
            name, kw, rest, target = want
            got = call()
            check(len(n.calls) == 1 and n.calls[0][0] == name, "called %s instead of %s", n.calls, name)
            if msg or 'msg' not in kw:
                check(same(n.calls[0][2], kw) or _msgnone(n.calls[0][2], kw), "arguments %s, expected %s", n.calls[0][2], kw)
            given = n.calls[0][2].get('msg')
            result = answer(case['results'][name], None, given, case['sigs'][name]['msg'])
            if stored is not None:
                m = dict(keep[ph][0])
                m.update(rest or {})
                rest = m
                if target is None:
                    target = keep[ph][1]
            want = ref_combine(result, rest, target)
            if want == ('y', None):
                check(got is None, "stop_training returned %s instead of None", got)
            else:
                match(got, want, "stop_training with %s" % orig)
            check(n.is_training() == (ph + 1 < phases), "is_training after phase %d", ph)
            check(stored == keep, "the stored stop result was changed: %s, given %s", stored, keep)
            ctx.nontrivial(bool(orig) or stored is not None)


@sub(st.fixed_dictionaries({'seed': seeds, 'args': st.integers(1, 3), 'defaults': st.integers(0, 3), 'out': st.lists(st.sampled_from(['y', 'm', 'mt', 'none']), min_size=0, max_size=4),
                            'end': st.sampled_from(['return', 'plain', 'value', 'value3']), 'kind': st.sampled_from(['execute', 'alt', 'both', 'train']),
                            'ops': st.lists(st.sampled_from(['call', 'call', 'call', 'call2', 'reset', 'copy']), min_size=3, max_size=12)}),
     quick=300, rule='coroutine continued', shards=2)
def coroutine(case, ctx):
    """Coroutine methods against the plain generator."""
    args = ['p', 'q', 'r'][:case['args']]
    nd = min(case['defaults'], len(args))
    defaults = tuple(10 * (i + 1) for i in range(nd))
    out, end = case['out'], case['end']

    def script(x, start):
        """The plain generator."""
        got = (x, start)
        for k, o in enumerate(out):
            y = x + k
            m = {'seen': list(got[1:]), 'k': k}
            got = yield {'y': y, 'm': (y, m), 'mt': (y, m, 'n1'), 'none': None}[o]
            x = got[0]
        last = {'seen': list(got[1:]), 'k': 'end'}
        if end == 'value':
            return x, last
        if end == 'value3':
            return x, last, 'exit'
        if end == 'plain':
            return x
        return None

    class CoNode(BiNode):
        def is_trainable(self):
            return case['kind'] == 'train'

        @binode_coroutine(args, defaults)
        def _execute(self, x, start=0):
            return (yield from script(x, start))

        @binode_coroutine(args, defaults)
        def _alt(self, x, start=0):
            return (yield from script(x * 2, start))

        @binode_coroutine(args, defaults)
        def _train(self, x, start=0):
            return (yield from script(x, start))

    n = CoNode(node_id='n1')
    rng = rs(case['seed'])
    live = {}
    for step, op in enumerate(case['ops']):
        if op == 'reset':
            n.bi_reset()
            live = {}
            continue
        if op == 'copy':
            if not live:
                n.bi_reset()
                n = n.copy()
            continue
        which = {'execute': 'execute', 'alt': 'alt', 'train': 'train', 'both': 'alt' if op == 'call2' else 'execute'}[case['kind']]
        x = rng.normal(size=(2, 2))
        vals = {}
        for i, a in enumerate(args):
            if i < len(args) - nd or rng.rand() < 0.5:
                vals[a] = int(rng.randint(100))
        msg = dict(vals, start=step)
        if which == 'alt':
            msg['n1' + SEP + 'method'] = 'alt'
        x0 = x * 2 if which == 'alt' and which not in live else x
        rest = dict(vals, start=step)
        try:
            if which not in live:
                g = script(x0, step)
                live[which] = g
                want = next(g)
            else:
                full = tuple(vals.get(a, defaults[i - len(args)] if i >= len(args) - nd else None) for i, a in enumerate(args))
                ctx.nontrivial()
                want = live[which].send((x,) + full)
        except StopIteration as e:
            want = e.value
            del live[which]
        got = n.train(x, msg) if which == 'train' else n.execute(x, msg)
        if want is None and which == 'train':
            check(got is None, "train: %s instead of None", got)
        else:
            match(got, ref_combine(want, rest, None), "step %d of coroutine %s" % (step, which))


# ------------------------------------------------------------------ generated classes
def _bimap():
    """The bidirectional version of each node class."""
    out = {}
    for nm in dir(bimdp.nodes):
        c = getattr(bimdp.nodes, nm)
        if inspect.isclass(c) and issubclass(c, BiNode) and len(c.__bases__) == 2:
            out[c.__bases__[1].__name__] = nm
    return out


BIMAP = _bimap()


def biname(name):
    return BIMAP.get(name, 'missing')


# RBMWithLabelsNode: see known_findings.txt
TABS = [nm for nm in nodetab.NAMES if hasattr(bimdp.nodes, biname(nm)) and nm not in ('NoiseNode', 'RBMWithLabelsNode')]


class Swap(object):
    """While active the name in mdp.nodes is the BiNode version."""

    def __init__(self, name, extra):
        self.name, self.extra = name, extra

    def __enter__(self):
        self.old = getattr(nodes, self.name)
        bi = getattr(bimdp.nodes, biname(self.name))
        extra = self.extra
        setattr(nodes, self.name, lambda *a, **k: bi(*a, **dict(k, **extra)))

    def __exit__(self, *a):
        setattr(nodes, self.name, self.old)


def arg_names(node, extra):
    """Names of the training arguments after the data."""
    if not extra:
        return []
    f = node._train_seq[node._train_phase][0]
    names = [p for p in inspect.signature(f).parameters][1:]
    return names[:len(extra)]


@sub(st.fixed_dictionaries({'name': st.sampled_from(TABS), 'seed': seeds, 'route': st.sampled_from(['plain', 'msg', 'id', 'empty']), 'n': st.integers(3, 12),
                            'copy': st.sampled_from(['no', 'copy', 'pickle', 'save']), 'at': st.integers(0, 2), 'dt': st.sampled_from([None, 'd', 'f']),
                            'chunks': st.integers(1, 3)}),
     quick=500, rule='generated class trained and executed', shards=6, timeout=100)
def generated(case, ctx):
    """The generated bidirectional classes."""
    name = case['name']
    e = nodetab.TAB[name]
    cfg = e.cfg(case['seed'])
    kw = {}
    if case['dt'] == 'd' or (case['dt'] == 'f' and e.f32):
        if np.dtype(case['dt']) in cfg.new().get_supported_dtypes():
            kw['dtype'] = case['dt']
    kw.update(cfg.extra.get('kw', {}))
    gen.reseed(case['seed'])
    a = cfg.new(**kw)
    with Swap(name, {'node_id': 'n1'}):
        gen.reseed(case['seed'])
        b = cfg.new(**kw)
    check(isinstance(b, BiNode) and isinstance(b, type(a)), "class of the generated node")
    check(b.node_id == 'n1', "node_id")
    check(b.is_trainable() == a.is_trainable() and b.is_invertible() == a.is_invertible(), "trainable, invertible")

    def dup(n):
        how = case['copy']
        if how == 'no' or not e.picklable:
            return n
        if how == 'copy':
            return n.copy()
        if how == 'pickle':
            return pickle.loads(pickle.dumps(n))
        d = ctx.tmpdir()
        n.save(os.path.join(d, 'n'))
        with open(os.path.join(d, 'n'), 'rb') as fid:
            return pickle.load(fid)

    def message(extra, names):
        m = {'more': 5}
        for k, v in zip(names, extra):
            m[('n1' + SEP if case['route'] == 'id' else '') + k] = v
        return m

    if case['at'] == 0:
        b = dup(b)
    if e.trainable:
        ph = 0
        n0 = max(e.n, case['chunks'] * e.min_chunk)
        x = cfg.data(n0)
        targs = cfg.targs(x)
        sizes = [n0] if not e.incremental else gen.cuts(rs(case['seed']), n0, case['chunks'], e.min_chunk)
        for ph in range(e.phases):
            if not a.is_training():
                break
            i = 0
            for s in sizes:
                xx = x[i:i + s]
                aa = [t[i:i + s] if isinstance(t, (np.ndarray, list)) and len(t) == len(x) else t for t in targs]
                i += s
                gen.reseed(case['seed'] + i)
                a.train(xx, *aa)
                gen.reseed(case['seed'] + i)
                if not aa and case['route'] == 'plain':
                    r = b.train(xx)
                elif not aa and case['route'] == 'empty':
                    r = b.train(xx, {})
                else:
                    r = b.train(xx, message(aa, arg_names(a, aa)))
                check(r is None, "train returned %s", r)
            if case['at'] == 1:
                b = dup(b)
            gen.reseed(case['seed'])
            a.stop_training()
            gen.reseed(case['seed'])
            r = b.stop_training()
            check(r is None, "stop_training returned %s", r)
            check(a.is_training() == b.is_training() and a.get_current_train_phase() == b.get_current_train_phase(), "training state")
    if case['at'] == 2:
        b = dup(b)
    n1 = e.rows(case['n'] if e.same_rows else max(case['n'], 10))
    y = cfg.data(n1, 1)
    ea = cfg.eargs(y, 1)
    gen.reseed(3)
    want = a.execute(y, *ea)
    gen.reseed(3)
    check((a.input_dim, a.output_dim, str(a.dtype)) == (b.input_dim, b.output_dim, str(b.dtype)) or b.input_dim is None or b.dtype is None, "dimensions before execution")
    if isinstance(a, mdp.ClassifierNode):
        gen.reseed(3)
        got = b.execute(y) if not ea else b.execute(y, message(ea, []))[0]
        y0 = y.astype(a.dtype)
        close(got, y0, 0., "a bidirectional classifier passes its data on")
        gen.reseed(3)
        try:
            lab = a.label(y)
        except NotImplementedError:
            raises(NotImplementedError, lambda: b.execute(y, {'return_labels': True}), "label")
            return
        for flag, key in ((True, 'labels'), ('pre-', 'pre-labels')):
            gen.reseed(3)
            yy, m = b.execute(y, {'return_labels': flag, 'keep': 1})
            close(yy, y0, 0., "data")
            check(list(np.asarray(m[key]).ravel()) == list(np.asarray(lab).ravel()), "labels in the message")
            check(m['keep'] == 1 and set(m) == {'return_labels', 'keep', key}, "message %s", sorted(m))
        for ret, f, key in (('return_probs', 'prob', 'probs'), ('return_ranks', 'rank', 'ranks')):
            try:
                gen.reseed(3)
                w = getattr(a, f)(y)
            except Exception as ex:
                raises(type(ex), lambda: b.execute(y, {ret: True}), ret)
                continue
            gen.reseed(3)
            yy, m = b.execute(y, {ret: True, 'n1' + SEP + 'return_labels': 'x'})
            check(repr(m[key]) == repr(w), "%s in the message", key)
            gen.reseed(3)
            m2 = b.execute(y, {ret: 'p.'})[1]
            check(repr(m2['p.' + key]) == repr(w) and set(m2) == {ret, 'p.' + key}, "%s in the message with a prefix", key)
            check('xlabels' in m, "second request")
        ctx.nontrivial()
        return
    names = [p for p in inspect.signature(a._execute).parameters][1:][:len(ea)] if ea else []
    if not ea and case['route'] == 'plain':
        got = b.execute(y)
    elif not ea and case['route'] == 'empty':
        got = b.execute(y, {})
    else:
        m = message(ea, names)
        got = b.execute(y, m)
        check(isinstance(got, tuple) and len(got) == 2, "result of execute with a message: %s", type(got))
        want_m = {'more': 5}
        if case['route'] != 'id':
            want_m = message(ea, names)
        check(set(got[1]) == set(want_m), "message %s", sorted(got[1]))
        got = got[0]
    check(type(got) is type(want), "type of the result")
    for g, w in zip(got if isinstance(want, tuple) else [got], want if isinstance(want, tuple) else [want]):
        check(g.dtype == w.dtype, "dtype of the result: %s, ordinary %s", g.dtype, w.dtype)
        close(g, w, 0. if not e.sign else 1e-9, "%s as BiNode" % name)
    check((a.input_dim, a.output_dim, str(a.dtype)) == (b.input_dim, b.output_dim, str(b.dtype)), "dimensions after execution")
    ctx.nontrivial()
    if a.is_invertible() and not isinstance(want, tuple):
        try:
            z = a.inverse(want)
        except Exception:
            return
        close(b.inverse(want), z, 0. if not e.sign else 1e-9, "inverse")
        for k in ('method', 'n1' + SEP + 'method'):
            w2 = want.astype('d')
            r = b.execute(w2, {k: 'inverse'})
            z2 = a.inverse(w2)
            check(isinstance(r, tuple) and len(r) == 3 and r[2] == -1, "inverse by a message returns (x, msg, -1)")
            check(r[0].dtype == z2.dtype, "dtype of the inverse by a message: %s, ordinary %s", r[0].dtype, z2.dtype)
            close(r[0], z2, 0. if not e.sign else 1e-9, "inverse by a message")
        ctx.label('inverse')


ALL = sorted(nm for nm in dir(bimdp.nodes) if inspect.isclass(getattr(bimdp.nodes, nm)) and issubclass(getattr(bimdp.nodes, nm), BiNode)
             and (nm.endswith('BiNode') or nm.endswith('BiClassifier')))
ORD = sorted(nm for nm in dir(nodes) if inspect.isclass(getattr(nodes, nm)) and issubclass(getattr(nodes, nm), mdp.Node) and nm != 'NoiseNode')


@sub(st.fixed_dictionaries({'name': st.sampled_from(ORD)}), quick=200, rule='generated class exists')
def signature(case, ctx):
    """Every node class has a bidirectional version with the same constructor arguments."""
    name = case['name']
    check(hasattr(bimdp.nodes, biname(name)), "no bidirectional version of %s", name)
    a, b = getattr(nodes, name), getattr(bimdp.nodes, biname(name))
    if name == 'SenderNode':
        return
    check(issubclass(b, a) and issubclass(b, BiNode), "bases of %s", biname(name))
    pa = list(inspect.signature(a.__init__).parameters.values())[1:]
    pb = list(inspect.signature(b.__init__).parameters.values())[1:]
    pos = [p.name for p in pa if p.kind == p.POSITIONAL_OR_KEYWORD]
    check([p.name for p in pb if p.kind == p.POSITIONAL_OR_KEYWORD] == pos + ['node_id', 'stop_result'], "arguments of %s", biname(name))
    db = dict((p.name, p) for p in pb)
    for p in pa:
        if p.kind == p.POSITIONAL_OR_KEYWORD and p.default is not p.empty:
            check(same(db[p.name].default, p.default), "default of %s in %s: %r, ordinary %r", p.name, biname(name), db[p.name].default, p.default)
    ctx.nontrivial()


@sub(st.fixed_dictionaries({'seed': seeds, 'rec': st.sampled_from([None, 'r1']), 'nox': st.sampled_from([None, 'plain', 'id', 'false']), 'more': st.booleans(),
                            'n': st.integers(1, 4)}), quick=60, rule='message sent')
def misc(case, ctx):
    """The sender node, representation and sums of nodes."""
    x = rs(case['seed']).normal(size=(case['n'], 2))
    n = bimdp.nodes.SenderBiNode(recipient_id=case['rec'], node_id='s')
    msg = {}
    if case['nox'] == 'plain':
        msg['no_x'] = True
    elif case['nox'] == 'id':
        msg['s' + SEP + 'no_x'] = True
    elif case['nox'] == 'false':
        msg['no_x'] = False
    if case['more']:
        msg['more'] = 1
    rest = dict((k, v) for k, v in msg.items() if not k.startswith('s' + SEP))
    y, m = n.execute(x, msg or None)
    if case['nox'] in ('plain', 'id'):
        check(y is None, "no_x")
    else:
        close(y, x, 0., "data")
    key = ('r1' + SEP if case['rec'] else '') + 'msg_x'
    check(set(m) == set(rest) | {key}, "message %s", sorted(m))
    close(m[key], x, 0., "sent data")
    ctx.nontrivial()
    check('node_id="s"' in repr(n) and 'SenderBiNode' in repr(n), "representation %r", repr(n))
    check('node_id=None' in repr(bimdp.nodes.IdentityBiNode()), "representation without id")
    for other in (bimdp.nodes.IdentityBiNode(), nodes.IdentityNode()):
        f = n + other
        check(type(f) is BiFlow and f[0] is n and f[1] is other and len(f) == 2, "sum of nodes")
    g = mdp.Flow([nodes.IdentityNode(), nodes.IdentityNode()])
    f = n + g
    check(type(f) is BiFlow and len(f) == 3 and f[1] is not g[0], "sum with a flow")
    raises(BiNodeException, lambda: n.execute(None), "no data and no message")
    e = raises(Exception, lambda: n + 3, "sum with a number")
    check(n._request_node_id('s') is n and n._request_node_id('t') is None, "node id request")
