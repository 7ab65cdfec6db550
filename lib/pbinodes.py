"""Forkable scripted bidirectional nodes and schedulers for the parallel checks of bidirectional flows."""
import copy
import pickle
import numpy as np
import mdp
import bimdp
from mdp import parallel as par
from bimdp.hinet import BiFlowNode, CloneBiLayer
from lib import binodes
from lib.binodes import ScrMsg, ScrPlain, Ordinary, LOG, snap, pretrained
from lib.gen import rs


class Acc(object):
    """State that is collected in training phases and, if asked for, during execution. All numbers are
    integers, so that the order of the sums does not matter."""
    collect = False
    local = ()

    def setup(self, collect, local):
        self.collect, self.local = collect, tuple(local)
        self.rows = self.total = self.words = 0
        self.seen = {'rows': 0, 'total': 0, 'calls': 0}
        self.hist = []
        return self

    def fresh(self):
        f = type(self)(self.name, self.execs, self.trains, self.stops, node_id=self.node_id).setup(self.collect, self.local)
        f._train_phase, f._training = self._train_phase, self._training
        f.hist = list(self.hist)
        return f

    def absorb(self, f):
        self.rows += f.rows
        self.total += f.total
        self.words += f.words
        for k in self.seen:
            self.seen[k] += f.seen[k]

    def _tr(self, ph, x, msg, a):
        if x is not None:
            self.rows += len(x)
            self.total += int(x.sum())
        self.words += 1 + (a or 0 if isinstance(a, int) else 0) + (sum(v for v in msg.values() if isinstance(v, int)) if msg else 0)
        return super(Acc, self)._tr(ph, x, msg, a)

    def _st(self, ph, msg):
        self.hist.append((self.rows, self.total, self.words))
        self.rows = self.total = self.words = 0
        return super(Acc, self)._st(ph, msg)

    def _ex(self, x, msg, a):
        if self.collect:
            self.seen['calls'] += 1
            if x is not None:
                self.seen['rows'] += len(x)
                self.seen['total'] += int(x.sum())
        r = super(Acc, self)._ex(x, msg, a)
        # what was learned shows in the data
        shift = sum(sum(h) for h in self.hist)
        if shift and isinstance(r, tuple) and r[0] is not None:
            r = (r[0] + shift,) + r[1:]
        elif shift and r is not None and not isinstance(r, tuple):
            r = r + shift
        return r


class AccMsg(Acc, ScrMsg):
    pass


class AccPlain(Acc, ScrPlain):
    pass


class ForkMsg(AccMsg):
    pass


class ForkPlain(AccPlain):
    pass


class ParForkMsg(par.ParallelExtensionNode, ForkMsg):
    def _fork(self):
        if self.get_current_train_phase() in self.local and self.is_training():
            raise par.NotForkableParallelException("phase is local")
        return self.fresh()

    def _join(self, f):
        self.absorb(f)

    def use_execute_fork(self):
        return self.collect


class ParForkPlain(par.ParallelExtensionNode, ForkPlain):
    def _fork(self):
        if self.get_current_train_phase() in self.local and self.is_training():
            raise par.NotForkableParallelException("phase is local")
        return self.fresh()

    def _join(self, f):
        self.absorb(f)

    def use_execute_fork(self):
        return self.collect


def build(spec):
    return [build_el(e) for e in spec]


def build_el(e):
    if e['t'] == 'group':
        return BiFlowNode(bimdp.BiFlow(build(e['els'])), node_id=e['id'])
    if e['t'] == 'ord':
        return pretrained(Ordinary(e['name'], len(e['trains'])), e)
    cls = {('msg', True): ForkMsg, ('plain', True): ForkPlain, ('msg', False): AccMsg, ('plain', False): AccPlain}[e['t'], e['fork']]
    # the state is only collected in executions by nodes that say so
    return pretrained(cls(e['name'], e['execs'], e['trains'], e['stops'], node_id=e['id']).setup(e['fork'] and e['collect'], e['local']), e)


def leaves(nodes):
    for nd in nodes:
        if isinstance(nd, BiFlowNode):
            for x in leaves(nd._flow):
                yield x
        else:
            yield nd


def state(nodes):
    out = []
    for nd in leaves(nodes):
        if isinstance(nd, Acc):
            out.append((nd.name, nd.hist, nd.seen, (nd.rows, nd.total, nd.words), nd.get_remaining_train_phase(), nd.is_training()))
        else:
            out.append((nd.name, nd.get_remaining_train_phase(), nd.is_training()))
    return out


# ------------------------------------------------------------------ schedulers
class Shuffle(par.Scheduler):
    """Runs the tasks of a collection in a random order and stores the results in another one."""

    def __init__(self, seed, pickled=False, **kw):
        super(Shuffle, self).__init__(**kw)
        self.rng = rs(seed, 31)
        self.pickled = pickled
        self.todo = []
        self.down = self.tasks = 0

    def _process_task(self, data, task_callable, task_index):
        self.todo.append((data, task_callable, task_index))
        self.tasks += 1
        self._lock.release()

    def get_results(self):
        todo, self.todo = self.todo, []
        done = []
        for k in self.rng.permutation(len(todo)):
            data, c, i = todo[k]
            if self.pickled:
                c = pickle.loads(pickle.dumps(c, -1))
                data = pickle.loads(pickle.dumps(data, -1))
            r = c.fork()(data)
            if self.pickled:
                r = pickle.loads(pickle.dumps(r, -1))
            done.append((r, i))
        for k in self.rng.permutation(len(done)):
            self._store_result(*done[k])
        return super(Shuffle, self).get_results()

    def _shutdown(self):
        self.down += 1


class Serial(par.Scheduler):
    down = 0
    tasks = 0

    def _process_task(self, *a):
        self.tasks += 1
        super(Serial, self)._process_task(*a)

    def _shutdown(self):
        self.down += 1


def make_scheduler(kind, seed):
    if kind == 'serial':
        return Serial()
    if kind == 'shuffle':
        return Shuffle(seed)
    if kind == 'pickled':
        return Shuffle(seed, pickled=True)
    if kind == 'thread':
        return par.ThreadScheduler(n_threads=1 + seed % 4, copy_callable=True)
    return par.ProcessScheduler(n_processes=1 + seed % 2, cache_callable=seed % 3 > 0)


def waitless():
    """Avoid the long polling intervals of the schedulers."""
    import time
    real = time.sleep

    def short(t):
        real(min(t, 0.002))
    time.sleep = short
    return lambda: setattr(time, 'sleep', real)
