"""Extensions add and remove class behaviour exactly."""
import itertools
import sys
import numpy as np
import mdp
import bimdp
from lib.harness import sub, check, close, st, raises, Violation
from lib.gen import seeds, rs

X = sys.modules['mdp.extension']
COUNT = itertools.count()

CLS = ['A', 'B', 'C', 'D', 'M']          # A(Node), B(A), C(B), D(A), M(D, Mix)
ATTR = ['m', 'n', 'p', 's', 'c', 'v', 'new']
KIND = {'p': 'property', 's': 'static', 'c': 'class', 'v': 'value'}
EXT = ['e0', 'e1', 'e2', 'e3']


def make_attr(attr, tag):
    """An attribute of the kind that belongs to the name; its use gives the tag."""
    k = KIND.get(attr)
    if k == 'property':
        return property(lambda self: tag)
    if k == 'static':
        return staticmethod(lambda *a: (tag, len(a)))
    if k == 'class':
        return classmethod(lambda cls: (tag, cls))
    if k == 'value':
        return tag

    def f(self):
        return tag
    f.__name__ = attr
    return f


def use(inst, attr):
    """Use an attribute of an instance: its tag, None if it is missing."""
    if not hasattr(inst, attr):
        return None
    k = KIND.get(attr)
    if k in ('property', 'value'):
        return getattr(inst, attr)
    if k == 'static':
        r = getattr(inst, attr)()
        check(r[1] == 0, "static method %s was called with %d arguments", attr, r[1])
        return r[0]
    if k == 'class':
        r = getattr(inst, attr)()
        check(r[1] is type(inst), "class method %s was called with %s", attr, r[1])
        return r[0]
    return getattr(inst, attr)()


own = st.lists(st.tuples(st.sampled_from(CLS), st.sampled_from(['m', 'n', 'p', 's', 'c', 'v', 'm'])).map(list), max_size=8)
ext_def = st.lists(st.tuples(st.sampled_from(CLS), st.sampled_from(ATTR)).map(list), min_size=1, max_size=5)
names = st.sampled_from(EXT)
base_op = st.one_of(st.tuples(st.just('on'), names), st.tuples(st.just('on'), names), st.tuples(st.just('off'), names),
                    st.tuples(st.just('onmany'), st.lists(st.sampled_from(EXT + ['unknown']), min_size=1, max_size=3)),
                    st.tuples(st.just('offmany'), st.lists(names, min_size=1, max_size=3)),
                    st.tuples(st.just('unknown'), st.sampled_from(['on', 'off', 'with', 'deco']))).map(list)
op = st.recursive(base_op, lambda ch: st.tuples(st.sampled_from(['with', 'deco', 'same']), st.lists(names, min_size=1, max_size=3),
                                                st.sampled_from(['list', 'str', 'tuple']), st.booleans(),
                                                st.lists(ch, max_size=3)).map(list), max_leaves=6)


class Bang(Exception):
    pass


class World(object):
    """Fresh node classes and extensions and the model of their behaviour."""

    def __init__(self, case):
        self.k = next(COUNT)
        self.boom = case['hooks'] and case['boom']
        self.orig = {c: {} for c in CLS + ['Mix']}
        for c, a in case['own']:
            self.orig[c][a] = '%s.%s' % (c, a)
        self.orig['Mix']['n'] = 'Mix.n'
        defs = {c: {a: make_attr(a, t) for a, t in self.orig[c].items()} for c in self.orig}
        mk = type(mdp.Node)
        A = mk('A', (mdp.Node,), defs['A'])
        B = mk('B', (A,), defs['B'])
        C = mk('C', (B,), defs['C'])
        D = mk('D', (A,), defs['D'])
        Mix = type('Mix', (object,), defs['Mix'])
        M = mk('M', (D, Mix), defs['M'])
        self.cls = dict(A=A, B=B, C=C, D=D, M=M, Mix=Mix)
        self.before = [c(input_dim=2) for c in (A, B, C, D, M)]
        self.name = {e: 'verif%d_%s' % (self.k, e) for e in EXT + ['unknown']}
        self.over = {}
        self.calls = {e: [0, 0] for e in EXT}
        self.exp_calls = {e: [0, 0] for e in EXT}
        for i, e in enumerate(EXT):
            self.over[e] = {}
            how = case['how'][i % len(case['how'])]
            spec = {}
            for c, a in case['ext'][i % len(case['ext'])]:
                spec.setdefault(c, {})[a] = '%s:%s.%s' % (e, c, a)
            self.over[e] = spec
            self.register(e, how, spec)
            self.has_hooks = case['hooks']
            if case['hooks']:
                self.hooks(e)
        self.active = []
        self.refusals = {}
        self.nref = self.most = 0
        self.snap = {c: dict(vars(k)) for c, k in self.cls.items()}

    def hooks(self, e):
        @mdp.extension_setup(self.name[e])
        def up():
            self.calls[e][0] += 1
            if self.boom and e == 'e2':
                raise Bang()

        @mdp.extension_teardown(self.name[e])
        def down():
            self.calls[e][1] += 1

    def register(self, e, how, spec):
        if how == 'method':
            for c in spec:
                for a, t in spec[c].items():
                    mdp.extension_method(self.name[e], self.cls[c], a)(make_attr(a, t))
            return
        base = X.ExtensionNodeMetaclass('Base' + e, (mdp.ExtensionNode,), {'extension_name': self.name[e]})
        made = {}
        for c in sorted(spec):
            # the class of the extension may follow the hierarchy of the nodes
            up = {'B': 'A', 'C': 'B', 'D': 'A', 'M': 'D'}.get(c)
            b = made[up] if how == 'inherit' and up in made else base
            made[c] = X.ExtensionNodeMetaclass(c + e, (b, self.cls[c]), {a: make_attr(a, t) for a, t in spec[c].items()})

    def cleanup(self):
        for e in EXT:
            n = self.name[e]
            try:
                if n in mdp.get_active_extensions():
                    mdp.deactivate_extension(n)
            except Exception:
                pass
            X._extensions.pop(n, None)

    # model
    def on(self, e):
        """True if the activation must be refused."""
        if e == 'unknown' or (e == 'e2' and self.boom and e not in self.active):
            return True
        if e in self.active:
            return False
        for f in self.active:
            for c in self.over[e]:
                if set(self.over[e][c]) & set(self.over[f].get(c, ())):
                    # setup and teardown may have been run, but as often
                    return True
        self.active.append(e)
        self.exp_calls[e][0] += 1
        return False

    def off(self, e):
        if e in self.active:
            self.active.remove(e)
            self.exp_calls[e][1] += 1

    def lookup(self, c, a):
        for k in self.cls[c].__mro__:
            n = k.__name__
            if self.cls.get(n) is not k:
                # outside of the generated classes
                continue
            for e in self.active:
                if a in self.over[e].get(n, ()):
                    return self.over[e][n][a]
            if a in self.orig[n]:
                return self.orig[n][a]
        return None

    def original(self, c, a):
        act, self.active = self.active, []
        try:
            return self.lookup(c, a)
        finally:
            self.active = act

    def verify(self, what):
        act = mdp.get_active_extensions()
        check(sorted(act) == sorted(self.name[e] for e in self.active), "%s: active extensions %s instead of %s"
              % (what, sorted(act), self.active))
        for c in CLS:
            exp = {a: self.lookup(c, a) for a in ATTR}
            for inst in (self.before[CLS.index(c)], self.cls[c](input_dim=2)):
                for a in ATTR:
                    got = use(inst, a)
                    check(got == exp[a], "%s: %s().%s gives %s instead of %s" % (what, c, a, got, exp[a]))
            # the original stays reachable from the class that is extended
            for e in self.active:
                for a in self.over[e].get(c, ()):
                    o = self.original(c, a)
                    if o is None:
                        continue
                    at = X.ORIGINAL_ATTR_PREFIX + a
                    inst = self.before[CLS.index(c)]
                    k = KIND.get(a)
                    check(hasattr(inst, at), "%s: original of %s.%s not available" % (what, c, a))
                    got = getattr(inst, at)
                    if k == 'static':
                        got = got()[0]
                    elif k == 'class':
                        got = got()[0]
                    elif k is None:
                        got = got()
                    check(got == o, "%s: original of %s.%s gives %s instead of %s" % (what, c, a, got, o))
        if not self.active:
            self.restored(what)
        for e in EXT:
            n = self.calls[e]
            x = self.exp_calls[e]
            if self.has_hooks:
                # refused activations may run both hooks
                check(n[0] - x[0] == n[1] - x[1] and n[0] - x[0] in range(0, self.refusals.get(e, 0) + 1),
                      "%s: setup and teardown of %s were called %s times instead of %s" % (what, e, n, x))

    def restored(self, what):
        for c, k in self.cls.items():
            now = dict(vars(k))
            ref = self.snap[c]
            check(set(now) == set(ref), "%s: attributes of %s added %s removed %s"
                  % (what, c, sorted(set(now) - set(ref)), sorted(set(ref) - set(now))))
            for a in ref:
                if not a.startswith('__'):
                    check(now[a] is ref[a], "%s: attribute %s.%s was not restored" % (what, c, a))


def run_ops(w, ops):
    for o in ops:
        k = o[0]
        what = 'after %s' % str(o)[:80]
        if k == 'on':
            n = w.name[o[1]]
            if w.on(o[1]):
                w.refusals[o[1]] = w.refusals.get(o[1], 0) + 1
                raises((X.ExtensionException, Bang), lambda: mdp.activate_extension(n), "conflicting extension")
                w.nref += 1
            else:
                mdp.activate_extension(n)
        elif k == 'off':
            w.off(o[1])
            mdp.deactivate_extension(w.name[o[1]])
        elif k == 'onmany':
            enter(w, o[1], lambda ns: mdp.activate_extensions(ns))
        elif k == 'offmany':
            for e in o[1]:
                w.off(e)
            mdp.deactivate_extensions([w.name[e] for e in o[1]])
        elif k == 'unknown':
            n = w.name['unknown']
            fn = {'on': lambda: mdp.activate_extension(n), 'off': lambda: mdp.deactivate_extension(n),
                  'with': lambda: mdp.extension(n).__enter__(), 'deco': lambda: mdp.with_extension(n)(lambda: None)()}[o[1]]
            raises(X.ExtensionException, fn, "unknown extension")
        else:
            block(w, o)
        w.most = max(w.most, len(w.active))
        w.verify(what)


def enter(w, es, fn):
    """Activate several: all of them or an exception without change.  Returns the new ones or None."""
    old = list(w.active)
    exp = {e: list(v) for e, v in w.exp_calls.items()}
    new = []
    ok = True
    for e in es:
        was = e in w.active
        if w.on(e):
            w.refusals[e] = w.refusals.get(e, 0) + 1
            ok = False
            break
        if not was:
            new.append(e)
    ns = [w.name[e] for e in es]
    if ok:
        fn(ns)
        return new
    w.nref += 1
    w.active = old
    w.exp_calls = exp
    for e in new:
        w.refusals[e] = w.refusals.get(e, 0) + 1
    raises((X.ExtensionException, Bang), lambda: fn(ns), "conflicting extensions %s" % es)
    return None


def block(w, o):
    k, es, form, fail, body = o
    what = 'inside %s' % str(o)[:80]
    if k == 'deco':
        e = es[0]
        ran = []

        @mdp.with_extension(w.name[e])
        def g(a, b=2):
            ran.append((a, b))
            w.verify(what)
            run_ops(w, body)
            if fail:
                raise Bang()
            return 'result'
        new = [] if e in w.active else [e]
        if w.on(e):
            w.refusals[e] = w.refusals.get(e, 0) + 1
            w.nref += 1
            raises((X.ExtensionException, Bang), lambda: g(1), "conflicting extension in a decorator")
            check(not ran, "decorated function ran without its extension")
            return
        w.most = max(w.most, len(w.active))
        if fail:
            raises(Bang, lambda: g(1), "exception of a decorated function")
        else:
            check(g(1) == 'result', "result of a decorated function")
        check(ran == [(1, 2)], "decorated function calls: %s" % ran)
    else:
        arg = {'list': list, 'tuple': tuple, 'str': lambda l: l[0]}[form]([w.name[e] for e in es])
        if form == 'str':
            es = es[:1]
        cm = mdp.extension(arg)
        new = enter(w, es, lambda ns: cm.__enter__())
        if new is None:
            return
        w.verify(what)
        if k == 'same':
            # the same context manager once more
            with cm:
                w.verify(what + ' twice')
                run_ops(w, body)
            # the inner exit is no exit
            w.verify(what + ' left once')
        else:
            run_ops(w, body)
        r = cm.__exit__(*((Bang, Bang(), None) if fail else (None, None, None)))
        check(not r, "the context manager swallows exceptions")
    for e in new:
        w.off(e)


@sub(st.fixed_dictionaries({'own': own, 'ext': st.lists(ext_def, min_size=1, max_size=4), 'how': st.lists(st.sampled_from(['method', 'class', 'inherit']), min_size=1, max_size=4),
                            'hooks': st.booleans(), 'boom': st.sampled_from([False, False, True]), 'ops': st.lists(op, min_size=1, max_size=8)}),
     quick=2500, thorough=60000, shards=8, rule="two extensions were active at once, or an activation was refused")
def histories(case, ctx):
    w = World(case)
    try:
        w.verify('before')
        run_ops(w, case['ops'])
        for e in list(w.active):
            w.off(e)
            mdp.deactivate_extension(w.name[e])
            w.verify('at the end')
    finally:
        w.cleanup()
    ctx.nontrivial(w.most > 1 or w.nref > 0)
    ctx.label('refused' if w.nref else 'accepted')


# ------------------------------------------------------------------ the extensions of the library
def all_classes():
    seen = []
    todo = [mdp.Node]
    while todo:
        c = todo.pop()
        if c in seen:
            continue
        seen.append(c)
        todo.extend(c.__subclasses__())
    return [c for c in seen if c.__module__.split('.')[0] in ('mdp', 'bimdp')]


@sub(st.fixed_dictionaries({'ops': st.lists(st.tuples(st.sampled_from(['on', 'off', 'with', 'many']), st.lists(st.integers(0, 9), min_size=1, max_size=4)).map(list),
                                            min_size=1, max_size=8), 'seed': seeds}),
     quick=60, thorough=1500, shards=4, rule="two extensions of the library active at once")
def library(case, ctx):
    names = sorted(n for n in mdp.get_extensions() if not n.startswith('verif') and n != 'cache_execute')
    check(len(names) >= 2, "extensions of the library: %s" % names)
    classes = all_classes()
    snap = {c: dict(vars(c)) for c in classes}
    active = []
    most = 0
    x = rs(case['seed'], 1).normal(size=(30, 3))
    pca = mdp.nodes.PCANode()
    pca.train(x)
    y = pca.execute(x)
    try:
        for o, ks in case['ops']:
            ns = [names[k % len(names)] for k in ks]
            if o == 'on':
                mdp.activate_extension(ns[0])
                active += [ns[0]] if ns[0] not in active else []
            elif o == 'off':
                mdp.deactivate_extension(ns[0])
                active = [n for n in active if n != ns[0]]
            elif o == 'many':
                mdp.activate_extensions(ns)
                active += [n for n in dict.fromkeys(ns) if n not in active]
            else:
                with mdp.extension(ns):
                    check(set(mdp.get_active_extensions()) == set(active) | set(ns), "active extensions in a block")
                    close(pca.execute(x), y, 1e-12, "execution with %s" % ns)
            check(sorted(mdp.get_active_extensions()) == sorted(active), "active extensions")
            most = max(most, len(active))
            close(pca.execute(x), y, 1e-12, "execution with %s" % active)
        order = rs(case['seed'], 2).permutation(len(active))
        for k in order:
            mdp.deactivate_extension(active[k])
    finally:
        mdp.deactivate_extensions(mdp.get_active_extensions())
    for c in classes:
        now = dict(vars(c))
        check(set(now) == set(snap[c]), "attributes of %s: %s" % (c.__name__, sorted(set(now) ^ set(snap[c]))))
        for a, v in snap[c].items():
            if not a.startswith('__'):
                check(now[a] is v, "attribute %s.%s was not restored", c.__name__, a)
    ctx.nontrivial(most > 1)
