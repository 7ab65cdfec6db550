"""Schedulers run every task once and return results in order."""
import contextlib
import io
import os
import sys
import threading
import time
import mdp
import mdp.parallel as par
from lib import tasks
from lib.harness import sub, check, st, raises, Violation

_sleep = time.sleep
MAXW = 20.


_Thread = threading.Thread


@contextlib.contextmanager
def quick(delays=()):
    """The schedulers poll with long sleeps: shorten those (not the ones of the tasks).
    delays: new threads start running a bit later (as an operating system may do)."""
    delays = list(delays)

    class Late(_Thread):
        def run(self):
            if delays:
                _sleep(delays.pop(0) / 1000.)
            _Thread.run(self)

    def short(s):
        _sleep(min(s, 0.002) if s >= 0.1 else s)
    time.sleep = short
    old = sys.stdout
    sys.stdout = io.StringIO()
    threading.Thread = Late
    try:
        yield
    finally:
        threading.Thread = _Thread
        time.sleep = _sleep
        sys.stdout = old


def pool(kinds, tag):
    res = []
    for i, k in enumerate(kinds):
        name = '%s%d' % (tag, i)
        if k == 'stateful':
            res.append((name, tasks.Stateful(name)))
        elif k == 'plain':
            res.append((name, tasks.Plain(name)))
        elif k == 'callme':
            res.append((name, tasks.Callme(name)))
        else:
            name = 'func_%d' % (i % 2)
            res.append((name, getattr(tasks, name)))
    return res


def wait(cond, what):
    t = time.monotonic()
    while not cond():
        if time.monotonic() - t > MAXW:
            raise Violation("dead wait: %s" % what)
        _sleep(0.001)


delays = st.lists(st.sampled_from([0, 0, 2, 10, 30]), max_size=8)
kinds = st.lists(st.sampled_from(['stateful', 'stateful', 'plain', 'callme', 'func']), min_size=1, max_size=4)
sleeps = st.sampled_from([0, 0, 0, 1, 2, 5, 10])
task_op = st.tuples(st.just('task'), st.one_of(st.none(), st.none(), st.integers(0, 3)), sleeps).map(list)
set_op = st.tuples(st.just('set'), st.integers(0, 3)).map(list)
ops = st.lists(st.one_of(task_op, task_op, task_op, task_op, set_op), min_size=1, max_size=10)


def rounds(fault=None):
    return st.lists(st.fixed_dictionaries({'ops': ops, 'fault': fault if fault is not None else st.none()}), min_size=1, max_size=3)


class Collector(par.ResultContainer):
    """Records what is handed to the container."""

    def __init__(self):
        self.got = []

    def add_result(self, result, task_index):
        self.got.append((task_index, result))

    def get_results(self):
        r, self.got = self.got, []
        return r


CONT = {'default': lambda: None, 'ordered': par.OrderedResultContainer, 'list': par.ListResultContainer, 'own': Collector}
conts = st.sampled_from(['default', 'default', 'ordered', 'list', 'own'])


def most_overlap(iv):
    ev = sorted([(a, 1) for a, b in iv] + [(b, -1) for a, b in iv])
    n = m = 0
    for t, d in ev:
        n += d
        m = max(m, n)
    return m


def session(s, case, ctx, kind, limit, log=None):
    """Drive a scheduler through the rounds of a case and compare with the model."""
    P = pool(case['kinds'], 'c')
    cur = None
    count = 0
    base = None
    faulty = False
    for r, rd in enumerate(case['rounds']):
        exp = []
        fpos = rd['fault']
        fpos = None if fpos is None else (fpos[0] % max(1, sum(o[0] == 'task' for o in rd['ops'])), fpos[1])
        n_task = -1
        failed_at_add = False
        for o in rd['ops']:
            if o[0] == 'set':
                name, c = P[o[1] % len(P)]
                s.set_task_callable(c)
                cur = name
                continue
            n_task += 1
            c = None
            fault = fpos[1] if fpos is not None and fpos[0] == n_task else None
            if o[1] is not None:
                name, c = P[o[1] % len(P)]
            else:
                name = cur
            key = 'r%d-%d' % (r, n_task)
            data = {'value': n_task + 100 * r, 'ms': o[2], 'key': key}
            if log:
                data['log'] = log
            if name is None:
                raises(Exception, lambda: s.add_task(data), "a task without callable")
                check(s.n_open_tasks == 0, "open tasks after a refused task: %s", s.n_open_tasks)
                continue
            if fault in ('fork', 'pickle'):
                bad = (tasks.BadFork if fault == 'fork' else tasks.BadPickle)('bad')
                c = bad
                name = 'bad'
            elif fault == 'data':
                data['x'] = tasks.Unpicklable()
            elif fault:
                data['fault'] = fault
            cur = name
            try:
                s.add_task(data, c)
            except tasks.Boom:
                check(fault is not None, "add_task raised without a failing task")
                failed_at_add = True
                key = None
            if fault in ('fork', 'pickle'):
                # a good callable for the next one
                s.set_task_callable(P[0][1])
                cur = P[0][0]
            if key:
                exp.append((name, data['value'], fault, key))
            check(0 <= s.n_open_tasks <= len(exp) and (kind != 'serial' or s.n_open_tasks == 0), "open tasks: %s of %s", s.n_open_tasks, len(exp))
        if case['wait']:
            wait(lambda: s.n_open_tasks == 0, "%d open tasks" % s.n_open_tasks)
        bad = [e for e in exp if e[2]]
        try:
            got = s.get_results()
            err = None
        except Exception as e:
            err = e
            got = []
        if err is not None:
            check(fpos is not None and not failed_at_add or bad, "get_results raised %s: %s", type(err).__name__, err)
            faulty = True
            # leftovers are dropped or available, but not mixed with the next round
            rest = s.get_results()
            got = rest
        if failed_at_add:
            faulty = True
        check(s.n_open_tasks == 0, "open tasks after collection: %s", s.n_open_tasks)
        if bad and err is None and not failed_at_add:
            # a failing task which this scheduler does not see as failing?
            harmless = [e for e in bad if e[2] == 'unpicklable' and kind != 'process'] + [e for e in bad if e[2] == 'pickle' and kind == 'serial'] \
                + [e for e in bad if e[2] == 'data' and kind != 'process'] + [e for e in bad if e[2] == 'pickle' and kind == 'thread' and not case.get('copy', True)]
            if len(harmless) < len(bad):
                raise Violation("a failing task gave no error (fault %s)" % bad[0][2])
        if case['cont'] == 'own':
            idx = [i for i, _ in got]
            check(len(set(idx)) == len(idx), "task indices: %s", idx)
            if err is None:
                check(len(idx) == len(exp) , "%d results of %d tasks", len(idx), len(exp))
                if base is None and not failed_at_add and idx:
                    base = min(idx)
                if base is not None and idx and not faulty:
                    check(sorted(idx) == list(range(base + count, base + count + len(idx))), "task indices %s, %d tasks before" % (sorted(idx), count))
            got = [g for _, g in sorted(got, key=lambda t: t[0])]
        got = list(got)
        flat = [(g[0], g[1]) if isinstance(g, tuple) else None for g in got]
        want = [(e[0], e[1]) if e[2] != 'unpicklable' else None for e in exp]
        if err is None:
            if case['cont'] == 'list':
                check(sorted(map(str, flat)) == sorted(map(str, want)), "results %s instead of %s" % (flat, want))
            else:
                check(flat == want, "results %s instead of %s" % (flat, want))
        else:
            for f in flat:
                check(f in want, "unexpected result %s after an error" % (f,))
            check(len(set(flat)) == len(flat), "duplicate results after an error")
        for g in got:
            if isinstance(g, tuple) and isinstance(g[2], tuple):
                calls, forked, env = g[2]
                check(calls == 1, "a callable was used for %d tasks without a fork", calls)
                check(forked >= 1, "a callable was called without being forked")
                if kind == 'process':
                    check(env >= 1, "setup_environment was not called in the process")
        for name, c in P:
            if isinstance(c, tasks.Stateful):
                check((c.calls, c.forked) == (0, 0), "the caller's callable was used itself: %s", (c.calls, c.forked))
        iv = [(g[4], g[5]) for g in got if isinstance(g, tuple)]
        if err is None:
            m = most_overlap(iv)
            check(m <= limit, "%d tasks at the same time with %d workers", m, limit)
            if m > 1:
                ctx.label('parallel')
        if log and os.path.exists(log):
            with open(log) as f:
                ran = f.read().split()
            ran = [k for k in ran if k.startswith('r%d-' % r)]
            check(len(set(ran)) == len(ran), "tasks were executed more than once: %s" % sorted(ran))
            if err is None:
                check(set(ran) >= set(e[3] for e in exp if e[2] != 'data'), "executed tasks %s instead of %s" % (sorted(ran), [e[3] for e in exp]))
        count += len(exp)
        # empty now
        again = s.get_results()
        check(len(again) == 0, "results are not removed: %s" % str(again)[:100])
    ctx.nontrivial(count > 1 or faulty)
    if faulty:
        ctx.label('fault')
    if not faulty:
        check(s.task_counter == count, "task counter %s after %d tasks", s.task_counter, count)


def fault(names):
    return st.one_of(st.none(), st.tuples(st.integers(0, 9), st.sampled_from(names)).map(list))


def common(names=None, **kw):
    d = {'kinds': kinds, 'rounds': rounds(fault(names) if names else None), 'cont': conts, 'wait': st.booleans(), 'verbose': st.booleans(), 'delays': delays}
    d.update(kw)
    return st.fixed_dictionaries(d)


@sub(common(['raise', 'fork']), quick=800, thorough=20000, shards=4, timeout=30, rule="more than one task, or a failing task")
def serial(case, ctx):
    with quick(case['delays']):
        s = par.Scheduler(result_container=CONT[case['cont']](), verbose=case['verbose'])
        session(s, case, ctx, 'serial', 1, os.path.join(ctx.tmpdir(), 'log'))
        s.shutdown()


@sub(common(['raise', 'fork', 'pickle', 'exit'], n=st.integers(1, 6), copy=st.booleans(), cm=st.booleans()), quick=700, thorough=20000, shards=8, timeout=30,
     rule="more than one task, or a failing task")
def threads(case, ctx):
    with quick(case['delays']):
        s = par.ThreadScheduler(result_container=CONT[case['cont']](), verbose=case['verbose'], n_threads=case['n'], copy_callable=case['copy'])
        log = os.path.join(ctx.tmpdir(), 'log')
        if case['cm']:
            with s as t:
                check(t is s, "context manager value")
                session(s, case, ctx, 'thread', case['n'], log)
        else:
            session(s, case, ctx, 'thread', case['n'], log)
            s.shutdown()


@sub(common(['raise', 'exit', 'die', 'unpicklable', 'data', 'pickle', 'fork'], n=st.integers(1, 3), cache=st.booleans(), cm=st.booleans()), quick=70, thorough=1500, shards=8,
     timeout=60, rule="more than one task, or a failing task")
def processes(case, ctx):
    with quick(case['delays']):
        s = par.ProcessScheduler(result_container=CONT[case['cont']](), verbose=case['verbose'], n_processes=case['n'], cache_callable=case['cache'])
        log = os.path.join(ctx.tmpdir(), 'log')
        if case['cm']:
            with s as t:
                check(t is s, "context manager value")
                session(s, case, ctx, 'process', case['n'], log)
        else:
            session(s, case, ctx, 'process', case['n'], log)
            # at once after the collection
            s.shutdown()


# ------------------------------------------------------------------ gated: counts while tasks are running
GATE = {}


class Gated(par.TaskCallable):
    def __call__(self, data):
        k, ev = GATE[data]
        with tasks.LOCK:
            tasks.RUNNING[0] += 1
            tasks.RUNNING[1] = max(tasks.RUNNING)
        k.set()
        ok = ev.wait(MAXW)
        with tasks.LOCK:
            tasks.RUNNING[0] -= 1
        return data, ok


@sub(st.fixed_dictionaries({'n': st.integers(1, 5), 'k': st.integers(1, 9), 'order': st.lists(st.integers(0, 8), min_size=9, max_size=9), 'copy': st.booleans()}),
     quick=150, thorough=4000, shards=4, timeout=60, rule="more tasks than threads")
def gated(case, ctx):
    """Tasks wait for permission: number of open tasks, limit of running tasks, blocking of add_task and get_results."""
    n, k = case['n'], case['k']
    with quick():
        s = par.ThreadScheduler(n_threads=n, copy_callable=case['copy'])
        GATE.clear()
        for i in range(k):
            GATE[i] = (threading.Event(), threading.Event())
        tasks.RUNNING[:] = [0, 0]
        added = []
        res = []

        def feed():
            for i in range(k):
                s.add_task(i, Gated())
                added.append(i)
            res.append(s.get_results())
        th = threading.Thread(target=feed)
        th.start()
        first = min(n, k)
        try:
            wait(lambda: sum(GATE[i][0].is_set() for i in range(k)) >= first, "%d tasks should be running, %s are" % (first, sum(GATE[i][0].is_set() for i in range(k))))
            _sleep(0.01)
            started = set(i for i in range(k) if GATE[i][0].is_set())
            check(len(started) == first, "%d tasks are running with %d threads", len(started), n)
            check(not res, "get_results does not wait")
            wait(lambda: len(added) >= min(k, n), "add_task blocks although threads are free")
            check(len(added) <= n, "add_task does not block: %d tasks with %d threads", len(added), n)
            # add_task counts a task before it waits for a thread
            check(first <= s.n_open_tasks <= min(k, n + 1), "open tasks %s, %d running", s.n_open_tasks, first)
            done = 0
            for c in case['order']:
                run = sorted(i for i in range(k) if GATE[i][0].is_set() and not GATE[i][1].is_set())
                if not run:
                    break
                i = run[c % len(run)]
                GATE[i][1].set()
                done += 1
                more = min(k, n + done)
                wait(lambda: sum(GATE[j][0].is_set() for j in range(k)) == more, "the next task is not started after one is done")
                wait(lambda: s.n_open_tasks in (min(k, n + done) - done, min(k, n + done + 1) - done), "open tasks are not counted down: %s" % s.n_open_tasks)
        finally:
            for i in GATE:
                GATE[i][1].set()
            th.join(MAXW)
        check(not th.is_alive(), "get_results does not return")
        check(list(res[0]) == [(i, True) for i in range(k)], "results %s" % (res,))
        check(tasks.RUNNING[1] <= n, "%d tasks at the same time with %d threads", tasks.RUNNING[1], n)
        check((s.n_open_tasks, s.task_counter) == (0, k), "open tasks and counter: %s" % ((s.n_open_tasks, s.task_counter),))
        s.shutdown()
    ctx.nontrivial(k > n)


# ------------------------------------------------------------------ several threads add tasks
@sub(st.fixed_dictionaries({'n': st.integers(1, 4), 'adders': st.integers(2, 4), 'k': st.integers(1, 6), 'kinds': kinds, 'which': st.sampled_from(['serial', 'thread', 'thread', 'process']),
                            'ms': sleeps, 'delays': delays, 'cache': st.booleans()}), quick=120, thorough=3000, shards=8, timeout=60, rule="a scheduler with more than one worker")
def adders(case, ctx):
    with quick(case['delays']):
        if case['which'] == 'serial':
            s = par.Scheduler(result_container=Collector())
        elif case['which'] == 'thread':
            s = par.ThreadScheduler(result_container=Collector(), n_threads=case['n'], copy_callable=case['cache'])
        else:
            s = par.ProcessScheduler(result_container=Collector(), n_processes=min(2, case['n']), cache_callable=case['cache'])
        P = pool(case['kinds'], 'a')
        errs = []

        def add(t):
            try:
                for j in range(case['k']):
                    name, c = P[(t + j) % len(P)]
                    s.add_task({'value': 100 * t + j, 'ms': case['ms'], 'key': '-'}, c)
            except Exception as e:
                errs.append(e)
        ths = [threading.Thread(target=add, args=(t,)) for t in range(case['adders'])]
        for t in ths:
            t.start()
        for t in ths:
            t.join(MAXW)
            check(not t.is_alive(), "add_task does not return")
        check(not errs, "add_task raised %s" % errs)
        got = s.get_results()
        want = sorted((P[(t + j) % len(P)][0], 100 * t + j) for t in range(case['adders']) for j in range(case['k']))
        check(sorted((g[0], g[1]) for _, g in got) == want, "results %s instead of %s" % (sorted((g[0], g[1]) for _, g in got), want))
        idx = [i for i, _ in got]
        check(len(set(idx)) == len(idx), "task indices %s" % idx)
        # each thread's tasks in its order
        for t in range(case['adders']):
            mine = [g[1] for i, g in sorted(got, key=lambda q: q[0]) if g[1] // 100 == t]
            check(mine == sorted(mine), "order of the tasks of a thread: %s" % mine)
        check((s.n_open_tasks, s.task_counter) == (0, len(want)), "open tasks and counter: %s" % ((s.n_open_tasks, s.task_counter),))
        s.shutdown()
    ctx.nontrivial(case['n'] > 1 and case['which'] != 'serial')


@sub(st.fixed_dictionaries({'which': st.sampled_from(['serial', 'thread', 'thread', 'serial', 'process']), 'n': st.integers(1, 4), 'cont': conts, 'copy': st.booleans(),
                            'batches': st.lists(st.one_of(st.integers(0, 40), st.sampled_from([63, 64, 65, 100, 129, 257, 300, 520, 1030])), min_size=1, max_size=4)}),
     quick=90, thorough=2000, shards=4, timeout=60, rule="more than a hundred tasks")
def many(case, ctx):
    """Long lives: hundreds of tasks in several rounds."""
    with quick():
        kw = dict(result_container=CONT[case['cont']]())
        if case['which'] == 'thread':
            s = par.ThreadScheduler(n_threads=case['n'], copy_callable=case['copy'], **kw)
        elif case['which'] == 'process':
            s = par.ProcessScheduler(n_processes=min(case['n'], 2), **kw)
        else:
            s = par.Scheduler(**kw)
        try:
            tag, last = 0, -1
            for b, k in enumerate(case['batches']):
                if case['which'] == 'process':
                    k = min(k, 150)
                for i in range(k):
                    s.add_task(tag + i, tasks.echo if i == 0 else None)
                got = s.get_results()
                want = list(range(tag, tag + k))
                if case['cont'] in ('default', 'ordered'):
                    check(list(got) == want, "round %d: results %s", b, got)
                elif case['cont'] == 'list':
                    check(sorted(got) == want and (case['which'] != 'serial' or got == want), "round %d: results %s", b, got)
                else:
                    got = sorted(got)
                    check([r for _, r in got] == want, "round %d: results %s", b, got)
                    ids = [q for q, _ in got]
                    check(len(set(ids)) == k and all(q > last for q in ids), "round %d: task numbers %s", b, ids)
                    last = max(ids + [last])
                check(s.n_open_tasks == 0, "open tasks %d", s.n_open_tasks)
                tag += k
            ctx.nontrivial(tag > 100)
            ctx.label(case['which'])
        finally:
            s.shutdown()
