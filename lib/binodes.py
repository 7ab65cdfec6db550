"""Scripted bidirectional nodes and a reference interpreter of bidirectional flows."""
import copy
import numpy as np
import mdp
import bimdp
from bimdp import BiNode, BiFlow, BiFlowException
from bimdp.hinet import BiFlowNode

LOG = []
SEP = '->'


class Discard(Exception):
    """The case is outside of what is specified."""


def snap(m):
    return copy.deepcopy(m)


def answer(entry, x, msg):
    """Result of one scripted call. `entry` is None to pass everything on."""
    if entry is None:
        return (x, msg) if msg is not None else x
    y = {'same': x, 'scale': None if x is None else x * 2. + 1., 'none': None}[entry['y']]
    m = None if msg is None else dict(msg)
    if entry['msg'] == 'drop':
        m = None
    elif entry['msg'] is not None:
        m = dict(m or {})
        m.update(snap(entry['msg']))
    kind = entry['kind']
    if kind == 'y':
        return y
    if kind == 'm':
        return y, m
    if kind == 't':
        return y, m, entry['target']
    if kind == 'bad':
        return y, m, entry['target'], 1
    return None


class Scripted(BiNode):
    """Answers from its script; the script starts again at each reset."""

    def __init__(self, name, execs, trains=(), stops=(), **kw):
        self.name, self.execs, self.trains, self.stops = name, execs, trains, stops
        self.k = 0
        super(Scripted, self).__init__(**kw)

    def is_trainable(self):
        return len(self.trains) > 0

    def _get_train_seq(self):
        return [(getattr(self, '_train%d' % i), getattr(self, '_stop%d' % i)) for i in range(len(self.trains))]

    def _nxt(self, script):
        self.k += 1
        return script[self.k - 1] if self.k <= len(script) else None

    def _bi_reset(self):
        self.k = 0

    def _ex(self, x, msg, a):
        LOG.append((self.name, 'execute', None if x is None else x.copy(), snap(msg), a))
        return answer(self._nxt(self.execs), x, msg)

    def _tr(self, ph, x, msg, a):
        LOG.append((self.name, 'train%d' % ph, None if x is None else x.copy(), snap(msg), a))
        e = self._nxt(self.trains[ph])
        return None if e is None else answer(e, x, msg)

    def _st(self, ph, msg):
        LOG.append((self.name, 'stop%d' % ph, None, snap(msg), None))
        e = self.stops[ph]
        return None if e is None else answer(e, np.full((2, 2), float(ph)), msg)


class ScrMsg(Scripted):
    """Takes the whole message."""

    def _execute(self, x, msg=None, a=None):
        return self._ex(x, msg, a)

    def _train0(self, x, msg=None, a=None):
        return self._tr(0, x, msg, a)

    def _train1(self, x, msg=None, a=None):
        return self._tr(1, x, msg, a)

    def _train2(self, x, msg=None, a=None):
        return self._tr(2, x, msg, a)

    def _stop2(self, msg=None):
        return self._st(2, msg)

    def _stop0(self, msg=None):
        return self._st(0, msg)

    def _stop1(self, msg=None):
        return self._st(1, msg)


class ScrPlain(Scripted):
    """Takes only an argument from the message."""

    def _execute(self, x, a=None):
        return self._ex(x, None, a)

    def _train0(self, x, a=None):
        return self._tr(0, x, None, a)

    def _train1(self, x, a=None):
        return self._tr(1, x, None, a)

    def _train2(self, x, a=None):
        return self._tr(2, x, None, a)

    def _stop2(self):
        return self._st(2, None)

    def _stop0(self):
        return self._st(0, None)

    def _stop1(self):
        return self._st(1, None)


class Ordinary(mdp.Node):
    """No bidirectional node."""

    def __init__(self, name, phases=0, **kw):
        self.name, self.phases = name, phases
        super(Ordinary, self).__init__(**kw)

    def is_trainable(self):
        return self.phases > 0

    def _get_train_seq(self):
        return [(self._tr(i), self._st(i)) for i in range(self.phases)]

    def _tr(self, i):
        def _train(x):
            LOG.append((self.name, 'train%d' % i, x.copy(), None, None))
        return _train

    def _st(self, i):
        def _stop():
            LOG.append((self.name, 'stop%d' % i, None, None, None))
        return _stop

    def _execute(self, x):
        LOG.append((self.name, 'execute', x.copy(), None, None))
        return x * 3.


# ------------------------------------------------------------------ building
def build(spec):
    """The BiFlow of a list of element specifications."""
    return BiFlow([build_el(e) for e in spec])


def build_el(e):
    if e['t'] == 'group':
        return BiFlowNode(build(e['els']), node_id=e['id'])
    if e['t'] == 'ord':
        return pretrained(Ordinary(e['name'], len(e['trains'])), e)
    cls = ScrMsg if e['t'] == 'msg' else ScrPlain
    return pretrained(cls(e['name'], e['execs'], e['trains'], e['stops'], node_id=e['id']), e)


def pretrained(node, e):
    """Some of the phases are already done."""
    for i in range(min(e.get('pre', 0), len(e['trains']))):
        node.train(np.ones((2, 2)))
        node.stop_training()
        if hasattr(node, 'bi_reset'):
            node.bi_reset()
    return node


# ------------------------------------------------------------------ the reference
class FlowErr(Exception):
    """A BiFlowException is expected."""


class NodeErr(Exception):
    """A NodeException is expected."""


class El(object):
    def __init__(self, e):
        self.e = e
        self.kind = e['t']
        self.id = e.get('id')
        self.k = 0
        self.phase = 0
        self.started = False
        self.els = [El(c) for c in e['els']] if self.kind == 'group' else []
        self.nph = sum(c.nph - c.phase for c in self.els) if self.els else len(e.get('trains', ()))
        if not self.els:
            self.phase = min(e.get('pre', 0), self.nph)
        # where the execution enters
        self.entry = None

    def trained(self):
        return self.phase >= self.nph

    def reset(self):
        self.k = 0
        self.entry = None
        for c in self.els:
            c.reset()

    def has(self, name):
        return self.kind != 'ord' and ((self.id is not None and self.id == name) or any(c.has(name) for c in self.els))


class Model(object):
    def __init__(self, spec):
        self.els = [El(e) for e in spec]
        self.log = []
        self.jumps = 0
        # the failure may be reported before all chunks are done
        self.joining = False

    def reset(self):
        for e in self.els:
            e.reset()

    # -------------------------------------------------------------- targets
    def lookup(self, els, name):
        """Index of the element that contains the name, or None."""
        for i, e in enumerate(els):
            if e.has(name):
                if e.kind == 'group' and e.id != name:
                    e.entry = name
                self.jumps += 1
                return i
        return None

    # -------------------------------------------------------------- single elements
    def parse(self, el, msg):
        """(rest of the message, own entries, value of argument a)"""
        own, rest = {}, {}
        for k, v in msg.items():
            if SEP in k and k.split(SEP, 1)[0] == el.id:
                own[k.split(SEP, 1)[1]] = v
            else:
                rest[k] = v
        return rest, own, own.get('a', rest.get('a'))

    @staticmethod
    def combine(result, rest, target):
        if isinstance(result, tuple):
            if rest:
                rest.update(result[1] or {})
                result = (result[0], rest) + result[2:]
            if target is not None and len(result) == 2:
                result = result + (target,)
            return result
        if target is not None:
            return result, rest, target
        return (result, rest) if rest else result

    def script(self, el, script):
        el.k += 1
        return script[el.k - 1] if el.k <= len(script) else None

    def call(self, el, what, x, msg, inner):
        """One call with message parsing; `inner` gets (msg, a)."""
        if msg is None:
            if x is None:
                raise NodeErr()
            return inner(None, None)
        rest, own, a = self.parse(el, msg)
        target = own.get('target')
        if el.kind == 'plain':
            result = inner(None, a)
        else:
            result = inner(rest, a)
            rest = None
        if what == 'train':
            if result is None:
                return None
            result = self.combine(result, rest, target)
            if isinstance(result, tuple) and len(result) == 2 and result[0] is None:
                return None
            return result
        return self.combine(result, rest, target)

    def execute_el(self, el, x, msg):
        if x is not None and not el.trained():
            raise Discard()
        if el.kind == 'ord':
            if x is None:
                raise Discard()
            self.log.append((el.e['name'], 'execute', x, None, None))
            return x * 3.
        if el.kind == 'group':
            def inner(m, a):
                return self.close(self.run(el.els, x, m, self.enter(el)))
        else:
            def inner(m, a):
                self.log.append((el.e['name'], 'execute', x, snap(m), a))
                return answer(self.script(el, el.e['execs']), x, m)
        return self.call(el, 'execute', x, msg, inner)

    def enter(self, group):
        name, group.entry = group.entry, None
        return 0 if name is None else self.lookup(group.els, name)

    @staticmethod
    def close(res):
        """What a flow node returns after running its flow."""
        how, x, msg, target = res
        if how == 'end':
            return (x, msg) if msg else x
        return x, msg, target

    @staticmethod
    def interpret(result):
        if not isinstance(result, tuple):
            return result, None, None
        if len(result) == 2:
            return result + (None,)
        if len(result) == 3:
            return result
        raise FlowErr()

    def run(self, els, x, msg, i, stop=None):
        """Execute from i until the end, an exit or the element `stop`."""
        while i != stop:
            if not 0 <= i < len(els):
                raise FlowErr()
            el = els[i]
            if el.kind == 'ord':
                x = self.execute_el(el, x, msg)
                target = 1
            else:
                x, msg, target = self.interpret(self.execute_el(el, x, msg))
                if target is None:
                    target = 1
            if isinstance(target, int):
                i += target
                if target != 1:
                    self.jumps += 1
                if i == len(els):
                    return 'end', x, msg, None
                if i == -1:
                    return 'out', x, msg, -1
            else:
                j = None if target == 'exit' else self.lookup(els, target)
                if j is None:
                    return 'out', x, msg, target
                i = j
        return 'stop', x, msg, True

    # -------------------------------------------------------------- training
    def train_el(self, el, x, msg):
        """Result of a training step."""
        if el.kind == 'ord':
            if x is None:
                raise Discard()
            el.started = True
            self.log.append((el.e['name'], 'train%d' % el.phase, x, None, None))
            return None
        if x is not None or msg is None:
            el.started = True
        if el.kind == 'group':
            def inner(m, a):
                return self.train_group(el, x, m)
        else:
            def inner(m, a):
                self.log.append((el.e['name'], 'train%d' % el.phase, x, snap(m), a))
                e = self.script(el, el.e['trains'][el.phase])
                return None if e is None else answer(e, x, m)
        return self.call(el, 'train', x, msg, inner)

    def current(self, group):
        for i, c in enumerate(group.els):
            if not c.trained():
                return i

    def train_group(self, el, x, msg):
        nr = self.current(el)
        i = self.enter(el)
        while True:
            res = self.run(el.els, x, msg, i, stop=nr)
            if res[0] != 'stop':
                return self.close(res)
            _, x, msg, _ = res
            result = self.train_el(el.els[nr], x, msg)
            if result is None:
                return None
            if isinstance(result, tuple) and len(result) > 3:
                return result
            x, msg, target = self.interpret(result)
            if isinstance(target, int):
                i = nr + target
                if i == len(el.els):
                    return (x, msg) if msg else x
                if i == -1:
                    return x, msg, -1
            else:
                i = self.index(el.els, target, nr)
                if i is None:
                    return x, msg, target

    def index(self, els, target, nr):
        """Absolute index of a target that has to be in the flow."""
        if target == 'exit':
            return None
        if target is None:
            target = 1
        if isinstance(target, int):
            if not 0 <= nr + target < len(els):
                if nr + target == len(els):
                    # whether this ends the execution or is refused is not specified
                    raise Discard()
                raise FlowErr()
            self.jumps += 1
            return nr + target
        return self.lookup(els, target)

    def stop_el(self, el, msg):
        if el.kind == 'ord':
            if msg is not None:
                raise Discard()
            if not el.started:
                raise NodeErr()
            self.log.append((el.e['name'], 'stop%d' % el.phase, None, None, None))
            el.phase += 1
            el.started = False
            return None
        if not el.started:
            raise NodeErr()

        def inner(m):
            if el.kind == 'group':
                return self.stop_group(el, m)
            self.log.append((el.e['name'], 'stop%d' % el.phase, None, snap(m), None))
            e = el.e['stops'][el.phase]
            return None if e is None else answer(e, np.full((2, 2), float(el.phase)), m)
        target, rest = None, msg
        if not msg:
            result = inner(None)
        else:
            rest, own, _ = self.parse(el, msg)
            target = own.get('target')
            if el.kind == 'plain':
                result = inner(None)
            else:
                result = inner(rest)
                rest = None
        el.phase += 1
        el.started = False
        return self.combine(result, rest, target)

    def stop_group(self, el, msg):
        nr = self.current(el)
        child = el.els[nr]
        result = self.stop_el(child, None if child.kind == 'ord' else msg)
        if result is None:
            return None
        x, msg, target = self.interpret(result)
        if isinstance(target, int):
            i = nr + target
            if i == len(el.els):
                return x, msg, 1
            if i == -1:
                return x, msg, -1
        else:
            i = self.index(el.els, target, nr)
            if i is None:
                return x, msg, target
        # the group is still in its training phase here
        return self.close(self.run(el.els, x, msg, i))

    # -------------------------------------------------------------- the flow
    def train(self, data, msgs, stops):
        self.reset()
        for nr, el in enumerate(self.els):
            while not el.trained():
                n = 0
                for x, msg in zip(data[nr], msgs[nr]):
                    n += 1
                    i = 0
                    while True:
                        res = self.run(self.els, x, msg, i, stop=nr)
                        if res[0] != 'stop':
                            raise FlowErr()
                        _, x, msg, _ = res
                        result = self.train_el(el, x, msg)
                        if result is None:
                            break
                        x, msg, target = self.interpret(result)
                        i = self.index(self.els, target, nr)
                        if i is None:
                            raise FlowErr()
                    self.reset()
                if n == 0:
                    raise FlowErr()
                self.stop_phase(nr, stops[nr])
                self.reset()

    def stop_phase(self, nr, stop):
        result = self.stop_el(self.els[nr], None if stop is None else dict(stop))
        if result is None:
            return
        x, msg, target = self.interpret(result)
        if target == 'exit':
            return
        i = self.index(self.els, target, nr)
        if i is None:
            raise FlowErr()
        how, x, msg, target = self.run(self.els, x, msg, i)
        if how == 'out' and target not in (1, -1, 'exit'):
            raise FlowErr()

    def execute(self, xs, msgs, targets):
        self.reset()
        ys, out = [], []
        for x, msg, target in zip(xs, msgs, targets):
            i = 0
            if target:
                if target == 'exit':
                    raise FlowErr()
                if isinstance(target, int):
                    if not 0 <= target < len(self.els):
                        raise FlowErr()
                    i = target
                else:
                    i = self.lookup(self.els, target)
                    if i is None:
                        raise FlowErr()
            how, y, m, t = self.run(self.els, x, msg, i)
            if how == 'out' and t not in (1, -1, 'exit'):
                raise FlowErr()
            self.reset()
            ys.append(y)
            out.append(m)
            if len(set(v is None for v in ys)) > 1:
                raise FlowErr()
        if not ys:
            raise FlowErr()
        self.joining = True
        return (None if ys[0] is None else np.concatenate(ys)), join(out)


def join(msgs):
    res = {}
    arr = {}
    for m in msgs:
        for k, v in (m or {}).items():
            if type(v) is np.ndarray:
                arr.setdefault(k, []).append(v)
            elif k in res:
                try:
                    res[k] = res[k] + v
                except Exception:
                    raise FlowErr()
            else:
                res[k] = snap(v)
    for k in arr:
        if k in res:
            raise FlowErr()
        res[k] = np.concatenate(arr[k])
    return res


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and np.array_equal(a, b)
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    return type(a) == type(b) and a == b


def same_log(a, b):
    if len(a) != len(b):
        return False
    for p, q in zip(a, b):
        if p[:2] != q[:2] or not same(p[2], q[2]) or p[4] != q[4]:
            return False
        # an empty message may be given as None
        if not same(p[3] or {}, q[3] or {}):
            return False
    return True


def show(log):
    return [(p[0], p[1], sorted(p[3] or {})) for p in log]
