"""Caching: random histories of executions, changes of nodes and of the caching settings, run once
without and once with the caching commands; every result must be the same."""
import os
import tempfile
import numpy as np
import mdp
from mdp import nodes, hinet
from mdp.caching import activate_caching, deactivate_caching, cache, set_cachedir
from lib.harness import sub, check, close, st, raises, HarnessError
from lib import gen, nodetab, cachenodes as cn
from lib.gen import seeds, rs

TABS = [n for n in nodetab.NAMES if not nodetab.TAB[n].stateful and not nodetab.TAB[n].stochastic
        and nodetab.TAB[n].picklable and nodetab.TAB[n].weight == 1]


def built(kind, seed, d):
    """A node for kind, trained (except of the ones that are trained in the history)."""
    rng = rs(seed, 91)
    if kind in cn.CLS:
        cls = cn.CLS[kind]
        if kind == 'Sum':
            return cls()
        if kind == 'Run':
            return cls()
        return cls(float(rng.randint(1, 4)), float(rng.randint(0, 3)))
    x = rng.normal(size=(60, d)).dot(rng.normal(size=(d, d)))
    if kind == 'PCA':
        n = nodes.PCANode(output_dim=1 + seed % d)
    elif kind == 'White':
        n = nodes.WhiteningNode()
    elif kind == 'SFA':
        n = nodes.SFANode()
    elif kind == 'Quad':
        return nodes.QuadraticExpansionNode()
    elif kind == 'Lambda':
        k = 1. + seed % 3
        return nodes.GeneralExpansionNode([lambda x: x * k, lambda x: x ** 2])
    elif kind == 'KNN':
        n = nodes.KNNClassifier(k=1, execute_method='label')
        n.train(x, [int(i) for i in rng.randint(0, 3, size=60)])
        n.stop_training()
        return n
    elif kind == 'Gauss':
        n = nodes.GaussianClassifier()
        n.train(x, [['a', 'b', 'c'][i] for i in rng.randint(0, 3, size=60)])
        n.stop_training()
        return n
    elif kind == 'FlowNode':
        n = hinet.FlowNode(mdp.Flow([nodes.PCANode(), cn.Second(1. + seed % 3), nodes.QuadraticExpansionNode()]))
    elif kind == 'Layer':
        return hinet.Layer([cn.Second(1. + seed % 3, input_dim=1, output_dim=1),
                            cn.First(2., input_dim=d - 1, output_dim=d - 1)])
    elif kind == 'Clone':
        return hinet.CloneLayer(cn.ShapeNode(1. + seed % 3, input_dim=1, output_dim=1), d)
    elif kind == 'Switch':
        return hinet.Switchboard(d, [int(i) for i in rs(seed).randint(0, d, size=d + 1)])
    elif kind == 'Bi':
        import bimdp
        n = bimdp.nodes.PCABiNode(node_id='pca')
    else:
        raise HarnessError(kind)
    n.train(x)
    n.stop_training()
    return n


KINDS = sorted(cn.CLS) + ['PCA', 'White', 'SFA', 'Quad', 'Lambda', 'KNN', 'Gauss', 'FlowNode', 'Layer', 'Clone', 'Switch', 'Bi']
CLASSOF = {'PCA': nodes.PCANode, 'White': nodes.WhiteningNode, 'SFA': nodes.SFANode, 'Quad': nodes.QuadraticExpansionNode,
           'FlowNode': hinet.FlowNode, 'Layer': hinet.Layer}


def pool_data(seed, d):
    """Inputs which look alike."""
    rng = rs(seed, 5)
    a = rng.normal(size=(4, d))
    out = [a, a.copy(), np.asfortranarray(a), np.repeat(a, 2, axis=0)[::2], a.astype('f'), a.astype('f').astype('d'), a[::-1],
           a[:2], a * 0., -(a * 0.), np.round(a * 3).astype('i'), np.round(a * 3), a[[1, 0, 2, 3]], np.zeros((2, d)), np.zeros((4, d)),
           np.zeros((4, d), dtype='i')]
    # the same bytes in another shape
    b = rng.normal(size=d * 4)
    out += [b.reshape(4, d), b.reshape(d, 4).T, b.reshape(d, 4).T.copy()]
    return out


OPS = st.one_of(
    st.tuples(st.just('ex'), st.integers(0, 9), st.integers(0, 18), st.integers(0, 3)).map(list),
    st.tuples(st.just('ex'), st.integers(0, 3), st.integers(0, 5), st.just(0)).map(list),
    st.tuples(st.just('twice'), st.integers(0, 9), st.integers(0, 18)).map(list),
    st.tuples(st.just('on'), st.integers(0, 2), st.integers(0, 3), st.integers(0, 9)).map(list),
    st.tuples(st.just('on'), st.integers(0, 1), st.just(0), st.just(0)).map(list),
    st.tuples(st.just('off')).map(list),
    st.tuples(st.just('dir'), st.integers(0, 2)).map(list),
    st.tuples(st.just('copy'), st.integers(0, 9)).map(list),
    st.tuples(st.just('train'), st.integers(0, 9), st.integers(0, 18)).map(list),
    st.tuples(st.just('stop'), st.integers(0, 9)).map(list),
    st.tuples(st.just('state'), st.integers(0, 9), st.integers(1, 3)).map(list),
    st.tuples(st.just('data'), st.integers(0, 18)).map(list),
    st.tuples(st.just('inst'), st.integers(0, 9), st.booleans()).map(list),
    st.tuples(st.just('new'), st.sampled_from(KINDS), st.integers(0, 4)).map(list),
    st.tuples(st.just('spoil'), st.integers(0, 9)).map(list),
)

HIST = st.fixed_dictionaries({
    'seed': seeds, 'd': st.integers(2, 4),
    'kinds': st.lists(st.tuples(st.sampled_from(KINDS), st.integers(0, 4)).map(list), min_size=1, max_size=4),
    'same': st.booleans(),
    'first': st.none() | st.tuples(st.integers(0, 2), st.integers(0, 3), st.integers(0, 9)).map(list),
    'ops': st.lists(OPS, min_size=6, max_size=24)})


def listing(path):
    out = set()
    for base, dirs, files in os.walk(path):
        for f in files:
            if f.endswith('.pkl'):
                p = os.path.join(base, f)
                out.add((p, os.stat(p).st_size))
    return out


class World(object):
    """Runs the history; with caching=False all caching commands are skipped."""

    def __init__(self, case, caching, dirs=None):
        self.case, self.caching = case, caching
        self.d = case['d']
        kinds = list(case['kinds'])
        if case['same']:
            kinds = [[kinds[0][0], k[1]] for k in kinds] + [list(kinds[0])]
        self.pool = [built(k, s, self.d) for k, s in kinds]
        self.kinds = [k for k, s in kinds]
        self.data = pool_data(case['seed'], self.d)
        self.dirs = dirs
        self.active = False
        self.classes = self.insts = None
        self.where = None
        self.log = []
        self.last = {}
        self.hits = 0
        self.calls = 0

    def chosen(self, i):
        if not self.active:
            return False
        if self.classes is None and self.insts is None:
            return True
        return type(self.pool[i]) in (self.classes or []) or any(n is self.pool[i] for n in self.insts or [])

    def ex(self, i, x, arg=0):
        kind, n = self.kinds[i], self.pool[i]
        if kind == 'WithArg' and arg:
            a = [(), (5.,), (5., 1.), (3., 5.)][arg]
        else:
            a = ()
        try:
            y = n.execute(x, *a)
        except mdp.MDPException as e:
            return ('raise', type(e).__name__)
        if isinstance(y, np.ndarray):
            self.last[i] = y
            return ('ok', y.copy(), y.dtype.str)
        return ('val', y)

    def run(self):
        if self.case['first'] is not None:
            self.op_on(*self.case['first'])
        for op in self.case['ops']:
            getattr(self, 'op_' + op[0])(*op[1:])
            st_ = tuple((n.is_training(), n.input_dim, n.output_dim, str(n.dtype)) for n in self.pool)
            self.log.append((op, ('state', st_)))
        return self.log

    def out(self, r):
        self.log.append((None, r))

    def op_ex(self, i, j, arg):
        i, j = i % len(self.pool), j % len(self.data)
        watch = self.caching and self.active
        before = self.files() if self.caching else None
        self.out(self.ex(i, self.data[j], arg))
        if self.caching:
            self.calls += self.active
            self.confined(before, i)

    def op_twice(self, i, j):
        """Two equal calls in a row."""
        i, j = i % len(self.pool), j % len(self.data)
        c0 = cn.COUNT[0]
        self.out(self.ex(i, self.data[j].copy()))
        c1 = cn.COUNT[0]
        r = self.ex(i, self.data[j].copy())
        c2 = cn.COUNT[0]
        self.out(r)
        if self.caching and self.kinds[i] in cn.SIMPLE and r[0] == 'ok':
            if self.chosen(i):
                self.hits += 1
                check(c2 == c1, "%s was chosen for caching but is executed again for the same input", self.kinds[i])
            else:
                check(c1 == c0 + 1 and c2 == c1 + 1, "%s is not cached but it was not executed at each call (%d and %d calls)",
                      self.kinds[i], c1 - c0, c2 - c1)

    def files(self):
        if not self.caching:
            return None
        return [listing(d) for d in self.dirs] + [listing(os.getcwd())]

    def confined(self, before, i):
        after = self.files()
        for k in range(len(before)):
            new = after[k] - before[k]
            if new:
                check(self.active, "files are written with caching switched off: %s", sorted(new)[:2])
                check(k == self.where, "files are written to directory %s while %s is the chosen one: %s", k, self.where, sorted(new)[:2])
                if self.kinds[i] not in ('FlowNode', 'Layer', 'Clone'):
                    check(self.chosen(i), "a node that is not chosen is cached: %s", sorted(new)[:2])

    def op_on(self, where, what, k):
        if not self.caching:
            return
        self.where = where if where < 2 else None
        path = self.dirs[where] if where < 2 else None
        cl = il = None
        if what in (1, 3):
            own = [type(n) for n in self.pool]
            cl = sorted(set(own), key=lambda c: c.__name__)[k % len(set(own)):][:2]
        if what in (2, 3):
            il = [self.pool[k % len(self.pool)]]
        activate_caching(path, cl, il)
        self.active, self.classes, self.insts = True, cl, il
        self.flags()

    def flags(self):
        for i, n in enumerate(self.pool):
            if self.active:
                check(bool(n.is_cached()) == self.chosen(i), "is_cached() of %s", self.kinds[i])
        check(mdp.get_active_extensions() == (['cache_execute'] if self.active else []), "active extensions")

    def op_off(self):
        if self.caching:
            deactivate_caching()
            self.active, self.classes, self.insts = False, None, None
            self.flags()

    def op_dir(self, where):
        if self.caching:
            set_cachedir(self.dirs[where] if where < 2 else None)
            self.where = where if where < 2 else None

    def op_inst(self, i, on):
        times = 1 + i // 4 if on else 1
        i %= len(self.pool)
        if self.caching and self.active and (self.classes is not None or self.insts is not None):
            for _ in range(times):
                self.pool[i].set_instance_cache(on)
            if times > 2 and self.pool[i].is_cached() and type(self.pool[i]) not in (self.classes or []):
                # asked for several times is still asked for
                self.pool[i].set_instance_cache(False)
                check(not self.pool[i].is_cached(), "the instance is still cached")
                self.pool[i].set_instance_cache(True)
            l = [n for n in (self.insts or []) if n is not self.pool[i]]
            self.insts = l + ([self.pool[i]] if on else [])
            self.flags()

    def op_copy(self, i):
        i %= len(self.pool)
        if len(self.pool) < 8 and self.kinds[i] != 'Lambda':
            self.pool.append(self.pool[i].copy())
            self.kinds.append(self.kinds[i])

    def op_new(self, kind, s):
        if len(self.pool) < 8:
            self.pool.append(built(kind, s, self.d))
            self.kinds.append(kind)

    def op_train(self, i, j):
        i, j = i % len(self.pool), j % len(self.data)
        if self.kinds[i] in ('Sum', 'Run'):
            try:
                self.pool[i].train(self.data[j])
                self.out(('done',))
            except mdp.MDPException as e:
                self.out(('raise', type(e).__name__))

    def op_stop(self, i):
        i %= len(self.pool)
        if self.kinds[i] == 'Sum':
            try:
                self.pool[i].stop_training()
                self.out(('done',))
            except mdp.MDPException as e:
                self.out(('raise', type(e).__name__))

    def op_state(self, i, k):
        n = self.pool[i % len(self.pool)]
        if isinstance(n, cn.First):
            n.o = n.o + k
        elif isinstance(n, hinet.Layer) and isinstance(n.nodes[0], cn.First):
            n.nodes[0].o += k

    def op_data(self, j):
        x = self.data[j % len(self.data)]
        x[0, -1] += 1

    def op_spoil(self, i):
        """The caller changes the array it was given."""
        y = self.last.get(i % len(self.pool))
        if y is not None and y.flags.writeable:
            y[...] = 77


def reset():
    deactivate_caching()
    set_cachedir(None)


def compare(ref, got):
    check(len(ref) == len(got), "the histories differ in length: %d %d", len(ref), len(got))
    for k, ((op, a), (op2, b)) in enumerate(zip(ref, got)):
        if a[0] == 'ok' and b[0] == 'ok':
            check(a[2] == b[2], "step %d: type of the result is %s, without caching %s", k, b[2], a[2])
            close(b[1], a[1], 0., "step %d: result with caching" % k)
        else:
            check(a == b, "step %d (%s): %s with caching, %s without", k, op, b, a)


@sub(HIST, quick=400, rule='at least one execution with active caching', shards=6, timeout=100)
def history(case, ctx):
    a = World(case, False)
    ref = a.run()
    old = tempfile.tempdir
    tmp = ctx.tmpdir()
    tempfile.tempdir = tmp
    dirs = [os.path.join(tmp, 'd0'), os.path.join(tmp, 'd1')]
    for d in dirs + [os.path.join(tmp, 'cwd')]:
        os.mkdir(d)
    os.chdir(os.path.join(tmp, 'cwd'))
    try:
        w = World(case, True, dirs)
        got = w.run()
        compare(ref, got)
        deactivate_caching()
        w.active = False
        w.flags()
        for i in range(len(w.pool)):
            r = [v.ex(i, a.data[0]) for v in (a, w)]
            compare([(None, r[0])], [(None, r[1])])
            w.op_twice(i, 1)
        ctx.nontrivial(w.calls > 0)
        if w.hits:
            ctx.label('cached twice')
    finally:
        try:
            reset()
        finally:
            tempfile.tempdir = old


@sub(st.fixed_dictionaries({'name': st.sampled_from(TABS), 'seed': seeds, 'n': st.integers(8, 16), 'global': st.sampled_from(['all', 'class', 'inst', 'other']),
                            'nested': st.sampled_from(['no', 'flow', 'flownode', 'layer']), 'fail': st.booleans()}),
     quick=400, rule='node cached', shards=6, timeout=100)
def library(case, ctx):
    """Every node class of the library."""
    e = nodetab.TAB[case['name']]
    cfg = e.cfg(case['seed'])
    node = cfg.new()
    e.train(node, cfg, cfg.data(e.n))
    xs = [cfg.data(e.rows(case['n']) if e.rows(2) > 1 else 1, s) for s in (0, 1, 0)]
    args = [cfg.eargs(x, s) for x, s in zip(xs, (0, 1, 0))]
    nest = case['nested'] if not args[0] else 'no'
    if nest == 'flow':
        obj = mdp.Flow([node])
    elif nest == 'flownode' and not e.online:
        obj = hinet.FlowNode(mdp.Flow([node]))
    elif nest == 'layer' and not e.online and node.input_dim is not None:
        obj = hinet.Layer([node])
    else:
        obj = node
    refs = [np.array(obj.execute(x, *a)) for x, a in zip(xs, args)]
    again = np.array(obj.execute(xs[0], *args[0]))
    if not np.array_equal(again, refs[0], equal_nan=again.dtype.kind in 'fc'):
        ctx.label('not reproducible: ' + case['name'])
        return
    tmp = ctx.tmpdir()
    kw = {'all': {}, 'class': {'cache_classes': [type(node)]}, 'inst': {'cache_instances': [node]},
          'other': {'cache_classes': [cn.First]}}[case['global']]
    try:
        try:
            with cache(tmp, **kw):
                for k in range(2):
                    for x, a, r in zip(xs, args, refs):
                        y = obj.execute(x.copy(), *a)
                        close(np.array(y), r, 0., "%s: execution with caching" % case['name'])
                        if case['fail'] and k == 0:
                            c = obj.copy()
                            close(np.array(c.execute(x, *a)), r, 0., "%s: execution of a copy with caching" % case['name'])
                if case['fail']:
                    raise KeyError('stop')
        except KeyError:
            pass
        check(mdp.get_active_extensions() == [], "extension still active after the context")
        found = len(listing(tmp))
        if case['global'] == 'other':
            check(found == 0, "%s: is cached though another class was chosen", case['name'])
        else:
            ctx.nontrivial(found > 0)
            if not found:
                ctx.label('no cache files: ' + case['name'])
        n0 = listing(tmp)
        for x, a, r in zip(xs, args, refs):
            close(np.array(obj.execute(x, *a)), r, 0., "%s: execution after caching" % case['name'])
        check(listing(tmp) == n0, "the cache is used after leaving the section")
    finally:
        reset()


@sub(st.fixed_dictionaries({'seed': seeds, 'inside': st.booleans(), 'depth': st.integers(1, 3), 'own': st.booleans(), 'd': st.integers(1, 4)}),
     quick=60, rule='class defined while the cache is active')
def defined_inside(case, ctx):
    """Node classes which are created while the caching is active work before and after."""
    x = rs(case['seed']).normal(size=(5, case['d']))
    tmp = ctx.tmpdir()
    counts = [0]

    def mk(base, add, own):
        class New(base):
            def is_trainable(self):
                return False

            def _execute(self, x):
                counts[0] += 1
                return x + add
        if own:
            def execute(self, x, *args, **kwargs):
                return super(New, self).execute(x, *args, **kwargs)
            New.execute = execute
        return New
    try:
        cls = mdp.Node
        with cache(tmp):
            for k in range(case['depth']):
                cls = mk(cls, float(k + 1), case['own'] and k == 0)
            n = cls()
            for _ in range(2):
                close(n.execute(x), x + case['depth'], 0., "inside")
        c0 = counts[0]
        for _ in range(2):
            close(n.execute(x), x + case['depth'], 0., "after the section")
        check(counts[0] == c0 + 2, "still cached after the section")
        cls = mk(cls, 9., False)
        close(cls().execute(x), x + 9., 0., "subclass defined after the section")
        with cache(tmp):
            close(cls().execute(x), x + 9., 0., "subclass in a second section")
        ctx.nontrivial()
    finally:
        reset()


@sub(st.fixed_dictionaries({'seed': seeds, 'n': st.integers(1, 6), 'd': st.integers(1, 3), 'reps': st.integers(1, 3),
                            'kinds': st.lists(st.sampled_from(cn.SIMPLE), min_size=1, max_size=3)}),
     quick=80, rule='results shared by two sections')
def sections(case, ctx):
    """Several sections with the same directory share it; other directories are left alone; temporary
    directories vanish."""
    rng = rs(case['seed'])
    tmp = ctx.tmpdir()
    old = tempfile.tempdir
    tempfile.tempdir = tmp
    a, b = os.path.join(tmp, 'a'), os.path.join(tmp, 'b')
    os.mkdir(b)
    xs = [rng.normal(size=(case['n'], case['d'])) for _ in range(2)]
    specs = [(cn.CLS[k], float(rng.randint(1, 4)), float(rng.randint(3))) for k in case['kinds']]
    try:
        for rep in range(case['reps']):
            for cls, k, o in specs:
                want = [cls(k, o).execute(x) for x in xs]
                c0 = cn.COUNT[0]
                with cache(a):
                    n = cls(k, o)
                    for x, w in zip(xs, want):
                        close(n.execute(x), w, 0., "section %d" % rep)
                    with_hits = cn.COUNT[0] - c0
                    n.o += 7.
                    close(n.execute(xs[0]), _plain(cls, k, o + 7., xs[0]), 0., "changed node in section %d" % rep)
                if rep:
                    check(with_hits == 0, "%s: results of an earlier section with the same directory are not used", cls.__name__)
                    ctx.nontrivial()
        check(listing(b) == set(), "unused directory written")
        with cache():
            n = specs[0][0](*specs[0][1:])
            n.execute(xs[0])
        set_cachedir(a)
        left = [p for p in os.listdir(tmp) if p not in ('a', 'b')]
        check(len(left) <= 1, "temporary cache directories left: %s", left)
    finally:
        try:
            reset()
        finally:
            tempfile.tempdir = old


def _plain(cls, k, o, x):
    """The result computed with another route than execute."""
    n = cls(k, o)
    act = mdp.get_active_extensions()
    mdp.deactivate_extensions(act)
    try:
        return n.execute(x)
    finally:
        mdp.activate_extensions(act)
