"""Templates, temporary directories, HTML representations, traced training and execution, slide shows and the introspection helpers."""
import contextlib
import copy
import html as htmllib
import io
import os
import pickle
import re
import sys
import tempfile
import webbrowser
import xml.etree.ElementTree as ET
import numpy as np
import mdp
import bimdp
from mdp import nodes, hinet
from mdp.utils import templet
from mdp.utils.temporarydir import TemporaryDirectory as Backport
from bimdp import BiFlow, BiNode
from bimdp.inspection import show_execution, show_training, inspect_execution, EmptyTraceException
from lib.harness import sub, check, close, st, raises, Violation
from lib import gen, binodes, flowzoo
from lib.bitrees import calm_tree, tree, CALMMSG, MSG, mkmsg, prepare
from lib.binodes import build, LOG, same, same_log
from lib.gen import seeds, rs, reseed

# ------------------------------------------------------------------ templates
TEXT = st.lists(st.sampled_from(list("ab _0{}<>()[]\"'\\%#:;,.-/&\n\n\t\r") + ['\u00e9', '\u2605', '\U0001f600', 'self', '{{', '}}', '\\n', '"""', "'''"]), max_size=8).map(''.join)
NAMES = ['a', 'b_1', 'Cd', '_x', 'N2', 'long_Name9']
VALUE = st.one_of(st.integers(-99, 99), st.floats(-5, 5).map(lambda v: round(v, 3)), st.text(alphabet=list("xy$ {}<>'\"\\\n\u00fc"), max_size=5), st.none(), st.lists(st.integers(0, 3), max_size=3))
# expressions of one variable with their values
EXPRS = [('%s', lambda v: str(v)), ('repr(%s)', lambda v: repr(v)), ('len(str(%s)) + 1', lambda v: str(len(str(v)) + 1)), ('str(%s) * 2', lambda v: str(v) * 2), (' %s ', lambda v: str(v)),
         ('[%s, "$"]', lambda v: str([v, '$'])), ('"yes" if %s else \'no\'', lambda v: 'yes' if v else 'no'), ('"%%s!" %% (%s,)', lambda v: '%s!' % (v,)), ('(%s,\n 1)', lambda v: str((v, 1)))]
NAME = st.integers(0, len(NAMES) - 1)
PART = st.one_of(st.tuples(st.just('text'), TEXT), st.tuples(st.just('text'), TEXT), st.tuples(st.just('var'), NAME), st.tuples(st.just('expr'), NAME, st.integers(0, len(EXPRS) - 1)), st.tuples(st.just('dollar'), st.just(0)),
                 st.tuples(st.just('cont'), st.sampled_from(['', ' ', '\t '])), st.tuples(st.just('code'), NAME, st.integers(0, 5), st.integers(0, 3)), st.tuples(st.just('sub'), st.integers(0, 1)), st.tuples(st.just('multi'), NAME, NAME))


def code_block(k, name, margin, write):
    """source of an embedded code block and its effect: fn(env, out)"""
    pad = ' ' * margin
    if k == 0:
        return write % name, lambda env, out: out.append(str(env[name]))
    if k == 1:
        return "\n%sfor i in range(3):\n%s    %s\n%s    if i == 1: break\n" % (pad, pad, write % ('%s, i' % name if 'self' in write else '%s) + str(i' % name), pad), lambda env, out: [out.append(str(env[name]) + str(i)) for i in range(2)]
    if k == 2:
        # an assignment is visible afterwards
        return "\n%s\n%s%s = str(%s) + '!'\n" % (pad, pad, name, name), lambda env, out: env.__setitem__(name, str(env[name]) + '!')
    if k == 3:
        return "\n%sif %s:\n%s  %s\n%selse:\n\n%s  pass" % (pad, name, pad, write % "'T'", pad, pad), lambda env, out: out.append('T') if env[name] else None
    if k == 4:
        return " %s; %s " % (write % "'p'", write % "'q'"), lambda env, out: out.append('pq')
    return "\n%s# $%s is a comment\n%s%s" % (pad, name, pad, write % "'$' + '<z>'"), lambda env, out: out.append('$<z>')


def template_of(parts, fn, subs):
    """template text and the effects of its parts"""
    text, acts = '', []
    parts = [p for p in parts if not (fn and p[0] in ('sub', 'multi'))]
    merged = []
    for p in parts:
        if p[0] == 'text':
            if not p[1]:
                continue
            if merged and merged[-1][0] == 'text':
                merged[-1] = ('text', merged[-1][1] + p[1])
                continue
            if merged and merged[-1][0] == 'var' and re.match('[_a-zA-Z0-9]', p[1]):
                p = ('text', ':' + p[1])
        merged.append(tuple(p))
    eat = False
    for p in merged:
        if p[0] == 'text':
            s = p[1]
            text += s
            if eat:
                m = re.match(r'[^\S\n]*\n', s)
                if m:
                    s = s[m.end():]
            acts.append(lambda env, out, s=s: out.append(s))
            eat = False
            continue
        eat = p[0] in ('code', 'sub')
        if p[0] == 'var':
            text += '$' + NAMES[p[1]]
            acts.append(lambda env, out, n=NAMES[p[1]]: out.append(str(env[n])))
        elif p[0] == 'expr':
            src, f = EXPRS[p[2]]
            text += '${' + src % NAMES[p[1]] + '}'
            acts.append(lambda env, out, n=NAMES[p[1]], f=f: out.append(f(env[n])))
        elif p[0] == 'dollar':
            text += '$$'
            acts.append(lambda env, out: out.append('$'))
        elif p[0] == 'cont':
            text += '$' + p[1] + '\n'
        elif p[0] == 'code':
            src, f = code_block(p[2], NAMES[p[1]], p[3], 'out.append(str(%s))' if fn else 'self.write(%s)')
            text += '${{' + src + '}}'
            acts.append(f)
        elif p[0] == 'multi':
            text += '${' + NAMES[p[1]] + ', ' + NAMES[p[2]] + '}'
            acts.append(lambda env, out, a=NAMES[p[1]], b=NAMES[p[2]]: out.append(str(env[a]) + str(env[b])))
        elif p[0] == 'sub':
            text += '$<%s_template>' % 'st'[p[1]]
            acts.append(lambda env, out, k=p[1]: [f(e, out) for e in [dict(env)] for f in subs[k]])
    return text, acts


def cheap(p):
    return [q for q in p if q[0] != 'sub']


@sub(st.fixed_dictionaries({'parts': st.lists(PART, max_size=9), 'subs': st.lists(st.lists(PART, max_size=4), min_size=2, max_size=2), 'over': st.none() | st.lists(PART, max_size=3), 'vals': st.lists(VALUE, min_size=len(NAMES), max_size=len(NAMES)),
                            'kind': st.sampled_from(['string', 'unicode', 'sfunc', 'ufunc']), 'call': st.sampled_from(['kw', 'dict', 'both'])}),
     quick=1500, rule='at least two directives', shards=4)
def templates(case, ctx):
    """The expanded template is the text with the values of its directives."""
    fn = case['kind'].endswith('func')
    subsrc, subacts = [], []
    for s in case['subs']:
        t, a = template_of(cheap(s), fn, None)
        subsrc.append(t)
        subacts.append(a)
    env = dict(zip(NAMES, case['vals']))
    if case['over'] is not None and not fn:
        overt, overa = template_of(cheap(case['over']), fn, None)
    text, acts = template_of(case['parts'], fn, subacts)
    if sum(p[0] != 'text' for p in case['parts']) >= 2:
        ctx.nontrivial()

    def expected(acts):
        e, out = dict(env), []
        for f in acts:
            f(e, out)
        return ''.join(out)

    if fn:
        def func(a, b_1, Cd, _x, N2, long_Name9='default'):
            pass
        func.__doc__ = text
        tf = (templet.stringfunction if case['kind'] == 'sfunc' else templet.unicodefunction)(func)
        for _ in range(2):
            got = tf(**env) if case['call'] == 'kw' else tf(*[env[n] for n in NAMES])
            check(got == expected(acts), "template %r gives %r instead of %r", text, got, expected(acts))
        del env['long_Name9']
        got = tf(**env)
        env['long_Name9'] = 'default'
        check(got == expected(acts), "template %r with a default gives %r instead of %r", text, got, expected(acts))
        return
    base = templet.StringTemplate if case['kind'] == 'string' else templet.UnicodeTemplate
    cls = type(base)('Cls', (base,), {'template': text, 's_template': subsrc[0], 't_template': subsrc[1], '__module__': __name__, 'other': '$not_a_template'})

    def make(c):
        if case['call'] == 'kw':
            return c(**env)
        if case['call'] == 'dict':
            return c(dict(env))
        # keywords win
        d = dict(env)
        d['a'] = 'wrong'
        return c(d, a=env['a'])
    got = make(cls)
    check(str(got) == expected(acts), "template %r gives %r instead of %r", text, str(got), expected(acts))
    check(str(make(cls)) == str(got) == str(got), "a second expansion differs")
    got.write('x', 1)
    check(str(got) == expected(acts) + 'x1', "writing to an expanded template")
    if case['over'] is not None:
        child = type(base)('Child', (cls,), {'t_template': overt, '__module__': __name__})
        _, acts2 = template_of(case['parts'], fn, [subacts[0], overa])
        check(str(make(child)) == expected(acts2), "derived template %r gives %r instead of %r", text, str(make(child)), expected(acts2))
        check(str(make(cls)) == expected(acts), "deriving from a template changes it")


@sub(st.fixed_dictionaries({'pre': TEXT, 'bad': st.sampled_from(['$0', '$ x', '$-', '$', '$\u00e9', '$<a b>', '$<', '$(', '$.', '$< a>']), 'post': st.sampled_from(['', 'q', ' q', '$a', '>']), 'kind': st.sampled_from(['string', 'unicode', 'sfunc', 'sub'])}),
     quick=200, rule='text before the error')
def template_errors(case, ctx):
    """An unescaped dollar is reported when the template is defined."""
    text = case['pre'] + case['bad'] + case['post']
    if case['bad'] == '$' and case['post'][:1] in ('q', '$'):
        return 'discard'
    if case['pre']:
        ctx.nontrivial()
    if case['kind'] == 'sfunc':
        def func(a):
            pass
        func.__doc__ = text
        raises(SyntaxError, lambda: templet.stringfunction(func), "template %r is accepted" % text)
        func.__doc__ = 'x $<y> z'
        raises(SyntaxError, lambda: templet.stringfunction(func), "a call of a sub template in a function is accepted")
        return
    base = templet.UnicodeTemplate if case['kind'] == 'unicode' else templet.StringTemplate
    d = {'template': text, '__module__': __name__}
    if case['kind'] == 'sub':
        d = {'template': 'fine', 'x_template': text, '__module__': __name__}
    raises(SyntaxError, lambda: type(base)('Cls', (base,), d), "template %r is accepted" % text)


# ------------------------------------------------------------------ temporary directories
FNAME = st.sampled_from(['f', 'g.txt', 'h h', '.hidden', '\u00fc'])
ENTRY = st.one_of(st.tuples(st.just('file'), FNAME), st.tuples(st.just('rofile'), FNAME), st.tuples(st.just('linkfile'), FNAME), st.tuples(st.just('linkdir'), FNAME), st.tuples(st.just('dangling'), FNAME), st.tuples(st.just('linkin'), FNAME),
                  st.tuples(st.just('linkup'), FNAME), st.tuples(st.just('fifo'), FNAME))
TREE = st.recursive(st.lists(ENTRY, max_size=4), lambda s: st.lists(st.one_of(ENTRY, st.tuples(st.just('dir'), FNAME, s)), max_size=4), max_leaves=12)


def listing(path):
    out = {}
    for root, dirs, files in os.walk(path):
        for f in dirs + files:
            full = os.path.join(root, f)
            rel = os.path.relpath(full, path)
            if os.path.islink(full):
                out[rel] = ('link', os.readlink(full))
            elif os.path.isdir(full):
                out[rel] = 'dir'
            else:
                with open(full, 'rb') as g:
                    out[rel] = g.read()
    return out


def fill(path, entries, outside, top):
    n = 0
    for e in entries:
        p = os.path.join(path, e[1])
        if os.path.lexists(p):
            continue
        n += 1
        if e[0] == 'dir':
            os.mkdir(p)
            n += fill(p, e[2], outside, top)
        elif e[0] in ('file', 'rofile'):
            with open(p, 'w') as f:
                f.write('content')
            if e[0] == 'rofile':
                os.chmod(p, 0o400)
        elif e[0] == 'fifo':
            os.mkfifo(p)
        else:
            os.symlink({'linkfile': os.path.join(outside, 'keep.txt'), 'linkdir': os.path.join(outside, 'keepdir'), 'dangling': os.path.join(outside, 'nothing'), 'linkin': top, 'linkup': '..'}[e[0]], p)
    return n


@sub(st.fixed_dictionaries({'tree': TREE, 'suffix': st.sampled_from(['', '.s']), 'prefix': st.sampled_from(['tmp', 'MDP_x']), 'end': st.sampled_from(['with', 'error', 'cleanup', 'twice', 'del', 'gone', 'partly']), 'default': st.booleans(), 'which': st.sampled_from(['backport', 'utils'])}),
     quick=400, rule='at least two entries')
def temporary_directories(case, ctx):
    """The directory is removed with its contents and nothing else is."""
    base = ctx.tmpdir()
    outside = os.path.join(base, 'outside')
    os.makedirs(os.path.join(outside, 'keepdir', 'deep'))
    for f in ('keep.txt', 'keepdir/a', 'keepdir/deep/b'):
        with open(os.path.join(outside, f), 'w') as g:
            g.write(f)
    where = os.path.join(base, 'where')
    os.mkdir(where)
    with open(os.path.join(where, 'neighbour'), 'w') as g:
        g.write('n')
    before = listing(base)
    kw = dict(suffix=case['suffix'], prefix=case['prefix'])
    old = tempfile.tempdir
    if case['default']:
        tempfile.tempdir = where
    else:
        kw['dir'] = where
    try:
        cls = mdp.utils.TemporaryDirectory if case['which'] == 'utils' else Backport
        td = cls(**kw)
        d2 = cls(**kw)
    finally:
        tempfile.tempdir = old
    name = td.name
    check(os.path.isdir(name) and os.listdir(name) == [], "the new directory is not empty")
    check(os.path.dirname(name) == where and os.path.basename(name).startswith(case['prefix']) and name.endswith(case['suffix']), "directory name %s", name)
    check(os.stat(name).st_mode & 0o77 == 0, "others can access the directory")
    check(name != d2.name and os.path.isdir(d2.name), "the same directory twice")
    if fill(name, case['tree'], outside, name) >= 2:
        ctx.nontrivial()
    end = case['end']
    ctx.label(end)
    if end == 'with':
        with td as n:
            check(n == name and os.path.isdir(n), "context manager value")
    elif end == 'error':
        def f():
            with td:
                raise KeyError('x')
        raises(KeyError, f, "error inside the context")
    elif end in ('cleanup', 'twice'):
        td.cleanup()
        if end == 'twice':
            check(not os.path.lexists(name), "the directory is still there")
            td.cleanup()
    elif end == 'gone':
        td.cleanup()
        d3 = cls(**dict(kw, dir=where))
        os.rmdir(d3.name)
        d3.cleanup()
        check('TemporaryDirectory' in repr(d3), "repr")
    elif end == 'partly':
        for f in sorted(os.listdir(name))[:1]:
            f = os.path.join(name, f)
            if not os.path.isdir(f) or os.path.islink(f):
                os.remove(f)
        td.cleanup()
    else:
        del td
    check(not os.path.lexists(name), "the directory is still there")
    check(os.path.isdir(d2.name), "another temporary directory is removed")
    d2.cleanup()
    check(listing(base) == before, "something else was changed: %s", sorted(set(listing(base)) ^ set(before)))


# ------------------------------------------------------------------ HTML representations
def h_node(kind, d, r):
    """(node, additional lines of the representation)"""
    if kind == 'special':
        k = r.randint(9)
        if k == 0:
            lo = -r.randint(1, 5)
            return nodes.CutoffNode(lo, 2, input_dim=d), ['lower bound: %s' % lo, 'upper bound: 2']
        if k == 1:
            return nodes.HistogramNode(0.25, input_dim=d), ['history data fraction: 0.25']
        if k == 2:
            return nodes.AdaptiveCutoffNode(0.1, None, hist_fraction=0.5, input_dim=d), ['lower cutoff fraction: 0.1', 'upper cutoff fraction: None', 'history data fraction: 0.5']
        if k == 3:
            return nodes.NormalNoiseNode(noise_args=(1.5, 2), input_dim=d), ['noise level: 2', 'noise offset: 1.5']
        if k == 4:
            return nodes.SFA2Node(input_dim=d), ['expansion dim: %d' % (d + d * (d + 1) // 2)]
        if k in (5, 6):
            xy = (r.randint(2, 7), r.randint(2, 7))
            f = (r.randint(1, xy[0] + 1), r.randint(1, xy[1] + 1))
            s = (r.randint(1, 4), r.randint(1, 4))
            node = (hinet.Rectangular2dSwitchboard if k == 5 else bimdp.hinet.Rectangular2dBiSwitchboard)(in_channels_xy=xy, field_channels_xy=f, field_spacing_xy=s, in_channel_dim=2, ignore_cover=True)
            out = tuple((a - b) // c + 1 for a, b, c in zip(xy, f, s))
            un = tuple((a - b) % c if a > b else 0 for a, b, c in zip(xy, f, s))
            lines = ['rec. field size (in channels): %d x %d = %d' % (f[0], f[1], f[0] * f[1]), '# of rec. fields (out channels): %d x %d = %d' % (out[0], out[1], out[0] * out[1]),
                     'rec. field distances (in channels): %s' % (s,), 'channel width: 2']
            return node, lines + (['unused channels: (%d, %d)' % un] if any(un) else [])
        if k == 7:
            return hinet.DoubleRhomb2dSwitchboard(long_in_channels_xy=(4, 4), diag_field_channels=2), None
        f = 2 * r.randint(1, 3)
        xy = (f * r.randint(1, 4) + r.choice([0, 0, f // 2]), f * r.randint(1, 4) + r.choice([0, 0, f // 2]))
        try:
            return hinet.DoubleRect2dSwitchboard(in_channels_xy=xy, field_channels_xy=(f, f), ignore_cover=True), None
        except mdp.MDPException:
            return nodes.IdentityNode(input_dim=d), []
    if kind == 'sender':
        return bimdp.nodes.SenderBiNode(node_id='s%d' % r.randint(9), recipient_id='rec%d' % r.randint(9), input_dim=d), 'sender'
    if kind == 'bipca':
        return bimdp.nodes.PCABiNode(node_id='p%d' % r.randint(9), input_dim=d, output_dim=r.randint(1, d + 1)), []
    if kind == 'trained':
        n = nodes.SFANode()
        n.train(gen.spectral(r, 40, d))
        if r.rand() < .5:
            n.stop_training()
        return n, []
    cls = [nodes.PCANode, nodes.SFANode, nodes.IdentityNode, nodes.WhiteningNode, nodes.QuadraticExpansionNode, nodes.FDANode, nodes.NearestMeanClassifier, nodes.NoiseNode][r.randint(8)]
    if kind == 'nodim':
        return cls(), []
    return cls(input_dim=d), []


HKIND = st.sampled_from(['plain', 'nodim', 'special', 'special', 'sender', 'bipca', 'trained'])
HTREE = st.recursive(st.tuples(st.just('leaf'), HKIND, seeds), lambda s: st.one_of(st.tuples(st.sampled_from(['flow', 'biflow', 'layer', 'same']), st.lists(s, min_size=1, max_size=3), seeds),
                                                                                   st.tuples(st.sampled_from(['clone', 'biclone', 'biclonecopies']), s, seeds)), max_leaves=6)


class Unbuildable(Exception):
    pass


def h_build(t, d):
    """(node, expected sequence of entries)"""
    r = rs(t[2], 77)
    if t[0] == 'leaf':
        node, lines = h_node(t[1], d, r)
        return node, ('leaf', node, lines)
    try:
        if t[0] in ('flow', 'biflow'):
            els = [h_build(c, d) for c in t[1]]
            ns = [e[0] for e in els]
            node = hinet.FlowNode(mdp.Flow(ns)) if t[0] == 'flow' else bimdp.hinet.BiFlowNode(BiFlow(ns), node_id='g%d' % r.randint(9))
            return node, ('flow', node, [e[1] for e in els])
        if t[0] in ('layer', 'same'):
            els = [h_build(c, d) for c in t[1]]
            node = (hinet.Layer if t[0] == 'layer' else hinet.SameInputLayer)([e[0] for e in els])
            return node, (t[0], node, [e[1] for e in els])
        el = h_build(t[1], d)
        k = r.randint(1, 4)
        if t[0] == 'clone':
            node = hinet.CloneLayer(el[0], k)
        else:
            node = bimdp.hinet.CloneBiLayer(el[0], k, use_copies=t[0] == 'biclonecopies', node_id='c%d' % r.randint(9))
        return node, ('clone', node, el[1], k)
    except (mdp.MDPException, TypeError, AttributeError, ValueError) as e:
        raise Unbuildable(e)


def h_expect(e, bi, out):
    """the texts of the representation in document order"""
    kind, node = e[0], e[1]
    isbi = bi and isinstance(node, BiNode)
    ident = 'id: %s' % node._node_id if isbi else None
    if kind == 'flow':
        if isbi:
            out.append(ident)
    else:
        out.append('in-dim: %s' % node.input_dim + ('  ' + ident if isbi else ''))
    if kind == 'leaf':
        out.append(str(node))
        lines = e[2]
        if lines == 'sender':
            lines = ['recipient id: %s' % node._recipient_id]
        if lines is None:
            out.append(None)
        else:
            out.append(' '.join(lines))
    elif kind == 'clone':
        s = str(node) + ' %d repetitions' % e[3]
        if bi and isinstance(node, bimdp.hinet.CloneBiLayer):
            s += ' use copies: %s' % node.use_copies
        out.append(s)
        h_expect(e[2], bi, out)
    else:
        if kind == 'same':
            out.append(str(node))
        for c in e[2]:
            h_expect(c, bi, out)
    if kind != 'flow':
        out.append('out-dim: %s' % node.output_dim)


def ws(s):
    return re.sub(r'\s+', ' ', s).strip()


def h_read(text):
    """the texts of the innermost table cells in document order"""
    root = ET.fromstring(text)
    out = []

    def walk(el):
        if el.tag == 'td' and el.get('class') in ('dim', 'nodename', 'nodeparams') :
            out.append(ws(''.join((' ' if x.tag == 'br' else (x.text or '')) + (x.tail or '' if x is not el else '') for x in el.iter())))
            return
        for c in el:
            walk(c)
    walk(root)
    return out


@contextlib.contextmanager
def browser():
    """A stand-in that records what is opened."""
    seen = []

    def op(url, *a, **k):
        with open(url) as f:
            seen.append((url, f.read()))
        return True
    old, webbrowser.open = webbrowser.open, op
    try:
        yield seen
    finally:
        webbrowser.open = old


@contextlib.contextmanager
def tempdir(path):
    old, tempfile.tempdir = tempfile.tempdir, path
    try:
        yield
    finally:
        tempfile.tempdir = old


def frozen(flow):
    return pickle.dumps([vars(n) for n in flow])


@sub(st.fixed_dictionaries({'els': st.lists(HTREE, min_size=1, max_size=3), 'd': st.integers(2, 5), 'bi': st.booleans(), 'size': st.booleans(), 'how': st.sampled_from(['visitor', 'file', 'temp']), 'fail': st.booleans()}),
     quick=500, rule='at least three nodes', shards=4)
def flow_html(case, ctx):
    """The representation of a flow mentions every node with its dimensions in order."""
    d = case['d']
    ns, exp = [], []
    for t in case['els']:
        try:
            node, e = h_build(t, d)
            mdp.Flow(ns + [node])
        except (Unbuildable, mdp.MDPException, ValueError):
            continue
        ns.append(node)
        exp.append(e)
    if not ns:
        return 'discard'
    if case['bi']:
        try:
            flow = BiFlow(ns)
        except mdp.MDPException:
            return 'discard'
    else:
        flow = mdp.Flow(ns)
    want = []
    for e in exp:
        h_expect(e, case['bi'], want)
    if len(want) > 6:
        ctx.nontrivial()
    before = frozen(flow)
    ids = [id(n) for n in flow]
    if case['bi']:
        from bimdp.hinet import BiHiNetHTMLVisitor as V, show_biflow as show
    else:
        from mdp.hinet import HiNetHTMLVisitor as V, show_flow as show
    base = ctx.tmpdir()
    active = list(mdp.get_active_extensions())
    if case['how'] == 'visitor':
        f = io.StringIO()
        V(f, show_size=case['size']).convert_flow(flow)
        text = f.getvalue()
        if not case['bi']:
            g = io.StringIO()
            hinet.HiNetXHTMLVisitor(g, show_size=case['size']).convert_flow(flow)
            check(h_read(g.getvalue()) == h_read(text.replace('<br>', '<br />').replace('&nbsp;', '&#160;')), "the XHTML representation differs")
    else:
        fname = os.path.join(base, 'out.html') if case['how'] == 'file' else None
        with tempdir(base), browser() as seen:
            got = show(flow, filename=fname, title='The <i>Title</i>', show_size=case['size'], browser_open=case['fail'])
            check(os.path.dirname(got) == base and (fname is None or got == fname) and os.listdir(base) == [os.path.basename(got)], "files written: %s, %s", got, os.listdir(base))
            with open(got) as f:
                page = f.read()
            check(seen == ([(os.path.abspath(got), page)] if case['fail'] else []), "browser called with %s", [s[0] for s in seen])
        check(page.count('<title>The <i>Title</i></title>') == 1 and page.rstrip().endswith('</html>') and page.startswith('<html>'), "frame of the page")
        for css in (mdp.utils.basic_css(), V.hinet_css()):
            check(css in page, "a style is missing")
        text = page[page.index('<table'):page.rindex('</table>') + 8]
    got = h_read(text.replace('<br>', '<br />').replace('&nbsp;', '&#160;'))
    if case['size']:
        out = []
        for g in got:
            if g.startswith('out-dim'):
                m = re.match(r'^(out-dim: \w+) size: [0-9.]+ (B|KiB|MiB)$', g)
                check(m is not None, "no size given in %r", g)
                g = m.group(1)
            out.append(g)
        got = out
    check(len(got) == len(want), "entries %s instead of %s", got, want)
    for g, w in zip(got, want):
        if w is None:
            check('channel' in g, "representation of the switchboard: %r", g)
        else:
            check(g == ws(w), "entry %r instead of %r (all: %s)", g, w, got)
    check(frozen(flow) == before and [id(n) for n in flow] == ids, "the flow has changed")
    check(mdp.get_active_extensions() == active, "extensions are active afterwards: %s", mdp.get_active_extensions())
    check(not hasattr(flow[0], 'html_representation'), "the extension is still there")
    if case['fail']:
        # a failing representation leaves no extension behind
        class Bad(io.StringIO):
            def write(self, s):
                raise IOError('full')
        raises(IOError, lambda: V(Bad()).convert_flow(flow), "failing output file")
        check(mdp.get_active_extensions() == active, "extensions are active after a failure: %s", mdp.get_active_extensions())


# ------------------------------------------------------------------ traced execution
class Fails(mdp.Node):
    """Fails in the k-th call."""

    def __init__(self, k, where='execute', **kw):
        self.k, self.where = k, where
        super(Fails, self).__init__(**kw)

    def is_trainable(self):
        return self.where != 'execute'

    def _check(self, where):
        if self.where == where:
            self.k -= 1
            if self.k < 0:
                raise ZeroDivisionError('planned <&> failure')

    def _execute(self, x):
        self._check('execute')
        return x

    def _train(self, x):
        self._check('train')

    def _stop_training(self):
        self._check('stop')


CALLS = []


class Track(mdp.Node):
    """Records its calls; affine."""

    def __init__(self, name, a, trainable=False, **kw):
        self.name, self.a, self.tr = name, a, trainable
        self.b = 0.
        super(Track, self).__init__(**kw)

    def is_trainable(self):
        return self.tr

    def _train(self, x):
        CALLS.append((self.name, 'train'))
        self.b = self.b * 0.5 + x.mean(axis=0)

    def _stop_training(self):
        CALLS.append((self.name, 'stop_training'))

    def _execute(self, x):
        CALLS.append((self.name, 'execute'))
        return x * self.a + self.b

    def __str__(self):
        return 'Track%s' % self.name


class BiTrack(BiNode, Track):
    def __str__(self):
        return 'Track%s' % self.name


ETREE = st.recursive(st.tuples(st.just('leaf'), st.sampled_from(['track', 'track', 'trackt', 'pca', 'quad', 'sfa']), seeds), lambda s: st.one_of(st.tuples(st.sampled_from(['flow', 'layer', 'same', 'biflow']), st.lists(s, min_size=1, max_size=2), seeds),
                                                                                                                                       st.tuples(st.sampled_from(['clone', 'biclone', 'biclonecopies']), s, seeds)), max_leaves=5)


class Namer(object):
    def __init__(self):
        self.k = 0

    def __call__(self):
        self.k += 1
        return 'n%dq' % self.k


def e_build(t, d, name, allow=True, bi=False):
    r = rs(t[2], 78)
    if bi:
        # a CloneBiLayer is made of bidirectional nodes
        if t[0] == 'leaf':
            k = t[1]
            if k == 'pca':
                return bimdp.nodes.PCABiNode(input_dim=d, output_dim=d)
            if k == 'sfa':
                return bimdp.nodes.SFABiNode(input_dim=d, output_dim=d)
            return BiTrack(name=name(), a=0.5 + r.rand(), trainable=k == 'trackt', input_dim=d, output_dim=d)
        if t[0] not in ('flow', 'biflow', 'biclone', 'biclonecopies'):
            return BiTrack(name=name(), a=1.5, input_dim=d, output_dim=d)
        if t[0] == 'flow':
            t = ('biflow',) + tuple(t[1:])
    if t[0] == 'leaf':
        k = t[1]
        if k == 'track' or not allow and k in ('pca', 'sfa', 'quad'):
            return Track(name(), 0.5 + r.rand(), input_dim=d, output_dim=d)
        if k == 'trackt':
            return Track(name(), 0.5 + r.rand(), True, input_dim=d, output_dim=d)
        if k == 'pca':
            return nodes.PCANode(input_dim=d, output_dim=max(1, d - r.randint(2)))
        if k == 'sfa':
            return nodes.SFANode(input_dim=d, output_dim=d)
        return nodes.QuadraticExpansionNode(input_dim=d) if d < 4 else Track(name(), 1., input_dim=d, output_dim=d)
    if t[0] in ('flow', 'biflow'):
        ns = []
        for c in t[1]:
            n = e_build(c, d, name, allow, bi)
            ns.append(n)
            d = n.output_dim
        return hinet.FlowNode(mdp.Flow(ns)) if t[0] == 'flow' else bimdp.hinet.BiFlowNode(BiFlow(ns))
    if t[0] in ('layer', 'same'):
        if t[0] != 'same':
            sizes = [d // len(t[1]) + (1 if i < d % len(t[1]) else 0) for i in range(len(t[1]))]
            if min(sizes) < 1:
                return Track(name(), 1., input_dim=d, output_dim=d)
        else:
            sizes = [d] * len(t[1])
        ns = [e_build(c, s, name, False) for c, s in zip(t[1], sizes)]
        return {'layer': hinet.Layer, 'same': hinet.SameInputLayer}[t[0]](ns)
    k = 2 if d % 2 == 0 else 1
    n = e_build(t[1], d // k, name, False, t[0] != 'clone')
    if t[0] == 'clone':
        return hinet.CloneLayer(n, k)
    return bimdp.hinet.CloneBiLayer(n, k, use_copies=t[0] == 'biclonecopies', node_id='clone%d' % r.randint(99))


def leaves(node):
    """all the elementary nodes, and those the tracer follows"""
    if hasattr(node, 'flow'):
        return sum([leaves(n) for n in node.flow], [])
    if isinstance(node, hinet.CloneLayer):
        return [(n, w and i == 0) for i, c in enumerate(node.nodes[:1] if node.nodes[0] is node.nodes[-1] else node.nodes) for n, w in leaves(c)]
    if isinstance(node, hinet.Layer):
        return sum([leaves(n) for n in node.nodes], [])
    return [(node, True)]


def hasclone(node):
    if hasattr(node, 'flow'):
        return any(hasclone(n) for n in node.flow)
    if isinstance(node, hinet.CloneLayer):
        return True
    return isinstance(node, hinet.Layer) and any(hasclone(n) for n in node.nodes)


class BodyText(object):
    pass


def slide(path, name):
    with open(os.path.join(path, name)) as f:
        s = f.read()
    check(s.startswith('<html>') and s.rstrip().endswith('</html>'), "slide %s is not complete", name)
    return s


def slide_call(text):
    """(name of the active node, method) of a slide"""
    m = re.findall(r'<h3>(\w+) arguments</h3>', text)
    check(len(m) == 1, "methods on the slide: %s", m)
    i = text.find('<table class=" current_node')
    node = None
    if i >= 0:
        node = re.search(r'<td class="nodename">\s*(.*?)\s*</td>', text[i:], re.S).group(1)
    return node, m[0]


def residue(o, seen=None):
    """what the tracer leaves in the nodes"""
    out = []
    for n in o:
        d = vars(n)
        out += [k for k in d if 'insp' in k or k in ('__getstate__', '_original_set_use_copies', '_set_use_copies', 'execute', 'train', 'stop_training') or k.startswith('_snapshot')]
        if hasattr(n, 'flow'):
            out += residue(n.flow)
        elif isinstance(n, hinet.Layer):
            out += residue(n.nodes)
    return out


def clean(flow):
    left = residue(flow) + [k for k in vars(flow) if 'insp' in k or 'snapshot' in k or k in ('__getstate__', '_stop_training_hook')]
    check(not left, "the trace leaves %s behind", left)
    try:
        c = flow.copy()
        p = pickle.loads(pickle.dumps(flow))
    except Exception as e:
        raise Violation("the flow can no longer be copied: %s" % e)
    return c, p


def show_names(text, files):
    """slides in a slide show"""
    return re.findall(r'<option[^>]*value="([^"]*)"', text)


def prep(case, name):
    d = case['d']
    els = []
    for t in case['els']:
        n = e_build(t, d, name)
        els.append(n)
        d = n.output_dim
        if d > 30:
            raise Unbuildable()
    return els


@contextlib.contextmanager
def quiet():
    a, b = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(a), contextlib.redirect_stderr(b):
        yield


@sub(st.fixed_dictionaries({'els': st.lists(ETREE, min_size=1, max_size=3), 'd': st.integers(2, 4), 'seed': seeds, 'bi': st.booleans(), 'fail': st.none() | st.tuples(st.integers(0, 3), st.integers(0, 1)), 'debug': st.booleans(), 'twice': st.booleans(),
                            'how': st.sampled_from(['show', 'inspect', 'temp']), 'name': st.sampled_from([None, 'nm']), 'size': st.booleans(), 'msg': st.booleans(), 'nr': st.booleans(), 'untrained': st.booleans()}),
     quick=300, rule='at least two nodes', shards=8, timeout=120)
def execution(case, ctx):
    """A traced execution gives the result of the execution and leaves the flow as it was."""
    reseed(case['seed'])
    r = rs(case['seed'], 3)
    try:
        els = prep(case, Namer())
        flow = mdp.Flow(els)
        x = flowzoo.signal(r, 60, case['d'])
        with np.errstate(all='ignore'):
            try:
                flow.train(x)
            except (mdp.MDPException, np.linalg.LinAlgError):
                return 'discard'
        if case['untrained']:
            # the last phase is closed by the execution
            els.append(Track('open', 1.5, True))
            els[-1].train(x[:, :1].dot(np.ones((1, els[-2].output_dim))))
    except Unbuildable:
        return 'discard'
    if case['twice'] and els[0].input_dim == els[0].output_dim == els[-1].output_dim:
        # a node can be used at two places
        els.append(els[0])
    if case['fail']:
        k, t = case['fail']
        els.insert(min(k, len(els)), Fails(t))
    flow = (BiFlow if case['bi'] else mdp.Flow)(els)
    if len(leaves(hinet.FlowNode(mdp.Flow(els)))) > 1:
        ctx.nontrivial()
    x = flowzoo.signal(r, 7, case['d'])
    kw = {}
    if case['bi'] and case['msg']:
        kw['msg'] = {'foo': 3, 'arr': np.ones((7, 2)), 'd': {'k': [1]}}
    if not case['bi'] and case['nr'] and len(els) > 1:
        kw['nodenr'] = r.randint(len(els))
    ref = flow.copy()
    del CALLS[:]
    exc = None
    try:
        want = ref.execute(x.copy(), *copy.deepcopy(list(kw.values()))) if case['bi'] else ref.execute(x.copy(), **kw)
    except Exception as e:
        want, exc = None, e
        if not case['fail'] or 'planned' not in str(e):
            return 'discard'
    calls = list(CALLS)
    base = ctx.tmpdir()
    path = os.path.join(base, 'new', 'sub') if case['how'] != 'temp' else None
    for rnd in range(2):
        del CALLS[:]
        xin, before = x.copy(), list(flow)
        try:
            with tempdir(base), browser() as seen, quiet():
                if case['how'] == 'inspect':
                    got = inspect_execution(flow, xin, path=path, name=case['name'], debug=case['debug'], show_size=case['size'], **copy.deepcopy(kw))
                else:
                    got = show_execution(flow, xin, path=path, name=case['name'], debug=case['debug'], show_size=case['size'], open_browser=rnd == 0, **copy.deepcopy(kw))
        except Violation:
            raise
        except Exception as e:
            check(exc is not None and not case['debug'], "the trace fails: %s: %s", type(e).__name__, e)
            check(type(e) is type(exc), "the trace fails with %s instead of %s", type(e), type(exc))
            got = None
        check(np.array_equal(xin, x), "the data have changed")
        check([id(n) for n in flow] == [id(n) for n in before], "other nodes in the flow")
        c, p = clean(flow)
        if exc is not None and not case['debug']:
            check(got is None, "the error is not reported")
            return
        out = got[1]
        if exc is not None:
            check(out is None, "a result in spite of the error")
        else:
            w, o = want, out
            if case['bi']:
                check(len(w) == len(o) == 2 and repr(w[1]) == repr(o[1]), "message %s instead of %s", o[1:], w[1:])
                w, o = w[0], o[0]
            check(w.shape == o.shape and w.dtype == o.dtype and np.array_equal(w, o), "the traced execution gives another result")
        check(CALLS == calls if rnd == 0 and not hasclone(hinet.FlowNode(mdp.Flow(els))) else True, "calls %s instead of %s", CALLS, calls)
        if case['how'] == 'temp':
            new = sorted(os.listdir(base))
            check(all(n.startswith('MDP_') for n in new) and len(new) == rnd + 1, "files outside of the directory: %s", new)
            where = os.path.dirname(got[0])
        else:
            check(os.listdir(base) == ['new'] and os.listdir(os.path.join(base, 'new')) == ['sub'], "files outside of the directory")
            where = path
        if case['how'] == 'inspect':
            text = got[0]
        else:
            check(os.path.dirname(os.path.abspath(got[0])) == where, "name of the slide show: %s", got[0])
            with open(got[0]) as f:
                text = f.read()
            if rnd == 0:
                check(seen == [(os.path.abspath(got[0]), text)], "the browser gets %s", [(s[0], s[1] == text) for s in seen])
            check(text.rstrip().endswith('</html>'), "slide show is not complete")
        names = show_names(text, None)
        pre = case['name'] or 'execution_inspection'
        check(names == ['%s_%d.html' % (pre, i) for i in range(len(names))], "slides %s", names)
        check((rnd > 0 or set(os.listdir(where)) - set(names) <= set(['mdp.css', pre + '.html', 'execution_inspection.html'])) and set(names) <= set(os.listdir(where)), "files %s for the slides %s", sorted(os.listdir(where)), names)
        slides = [slide(where, n) for n in names]
        if exc is not None:
            check(slides and 'Encountered Exception' in slides[-1] and 'planned' in slides[-1], "the error is not shown")
            slides = slides[:-1]
        # one slide for each call of a traced node, in the order of the calls
        seq = [slide_call(s) for s in slides]
        if rnd == 0 and not hasclone(hinet.FlowNode(mdp.Flow(els))):
            want_seq = [('Track' + n, m) for n, m in calls]
            if exc is not None:
                pass
            got_seq = [(n, m) for n, m in seq if n is not None and n.startswith('Track')]
            check(got_seq == want_seq, "slides for %s instead of %s", got_seq, want_seq)
            if exc is None and 'nodenr' not in kw:
                total = sum(1 for n, m in seq if m == 'execute')
                lv = sum([leaves(n) for n in els], [])
                check(total == len(lv), "%d slides for %d nodes", total, len(lv))
        if case['fail']:
            return
        # the next trace is of the same flow
        for o in (c, p):
            y = o.execute(x.copy(), *copy.deepcopy(list(kw.values()))) if case['bi'] else o.execute(x.copy(), **kw)
            y = y[0] if case['bi'] else y
            close(y, want[0] if case['bi'] else want, 1e-12, "a copy after the trace")


@sub(st.fixed_dictionaries({'tree': st.one_of(tree(False), calm_tree()), 'msg': MSG, 'target': st.sampled_from([None, None, 0, 1, 'n0', 'n1', 'n2', 'g0']), 'd': st.integers(1, 3), 'debug': st.booleans(), 'noneX': st.just(False)}),
     quick=300, rule='at least one jump or message', shards=8, timeout=120)
def bi_execution(case, ctx):
    """Traced bidirectional flows see the same calls with the same data and messages."""
    spec = prepare(case['tree'])
    for e in spec:
        strip_training(e)
    x = np.arange(4. * case['d']).reshape(4, case['d']) / 3.
    msg = mkmsg(case['msg'], 4)
    try:
        flow = build(spec)
    except mdp.MDPException:
        return 'discard'
    ref = flow.copy()
    limit = [0]
    del LOG[:]
    exc = None
    old, binodes.LOG[:] = None, []
    try:
        with steps(60):
            want = ref.execute(x.copy(), copy.deepcopy(msg), case['target'])
    except Endless:
        return 'discard'
    except Exception as e:
        want, exc = None, e
    log = list(LOG)
    if len(log) > 1 and (msg or len(log) != sum(1 for _ in all_leaves(spec))):
        ctx.nontrivial()
    del LOG[:]
    base = ctx.tmpdir()
    try:
        with browser(), quiet():
            got = inspect_execution(flow, x.copy(), copy.deepcopy(msg), case['target'], path=base, debug=case['debug'])
    except EmptyTraceException:
        check(not log and exc is None, "no slides")
        return
    except Violation:
        raise
    except Exception as e:
        check(exc is not None and (not case['debug']), "the trace fails: %s: %s", type(e).__name__, e)
        check(type(e) is type(exc), "the trace fails with %s instead of %s", type(e), type(exc))
        got = None
    same_log(list(LOG), log)
    clean(flow)
    if got is None:
        return
    if exc is not None:
        check(case['debug'] and got[1] is None, "the error is lost")
    else:
        check(same_result(got[1], want), "result %s instead of %s", got[1], want)
    names = show_names(got[0], None)
    slides = [slide(base, n) for n in names]
    calls = [e[0] for e in log]
    if exc is None:
        check(len(slides) == len(calls), "%d slides for %d calls", len(slides), len(calls))
    else:
        check(len(slides) in (len(calls), len(calls) + 1) and 'Encountered Exception' in slides[-1], "%d slides for %d calls and an error", len(slides), len(calls))


class Endless(BaseException):
    pass


@contextlib.contextmanager
def steps(n):
    """stop endless flows"""
    class L(list):
        pass
    orig = binodes.snap
    count = [0]

    def snap(m):
        count[0] += 1
        if count[0] > n:
            raise Endless()
        return orig(m)
    binodes.snap = snap
    try:
        yield
    finally:
        binodes.snap = orig


def strip_training(e):
    if e['t'] == 'group':
        for c in e['els']:
            strip_training(c)
    else:
        e['trains'] = []


def all_leaves(spec):
    for e in spec:
        if e['t'] == 'group':
            for c in all_leaves(e['els']):
                yield c
        else:
            yield e


def same_result(a, b):
    if isinstance(a, tuple) != isinstance(b, tuple):
        return False
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same(p, q) for p, q in zip(a, b))
    return same(a, b)


# ------------------------------------------------------------------ traced training
@sub(st.fixed_dictionaries({'els': st.lists(ETREE, min_size=1, max_size=3), 'kinds': st.lists(st.sampled_from(['rec', 'recmany', 'recopt', 'pca', 'id', 'fda', 'reg', 'flownode', 'norm']), max_size=2), 'd': st.integers(2, 4), 'seed': seeds, 'bi': st.booleans(),
                            'fail': st.none() | st.tuples(st.integers(0, 3), st.integers(0, 1), st.sampled_from(['train', 'stop', 'execute'])), 'debug': st.booleans(), 'how': st.sampled_from(['path', 'temp']), 'size': st.booleans(),
                            'src': st.sampled_from(['list', 'gen', 'restart', 'array']), 'msg': st.booleans(), 'only': st.sampled_from(['els', 'kinds', 'both'])}),
     quick=500, rule='at least two training phases', shards=8, timeout=200)
def training(case, ctx):
    """A traced training trains the flow like Flow.train and writes slides for every phase."""
    reseed(case['seed'])
    r = rs(case['seed'], 4)
    d = case['d']
    els, args = [], []
    if case['only'] != 'kinds':
        try:
            els = prep(case, Namer())
        except Unbuildable:
            return 'discard'
        args = [None] * len(els)
        d = els[-1].output_dim
    if case['only'] != 'els' and not case['bi']:
        kinds = ['rec' if k == 'recmany' else k for k in case['kinds']]
        for k, p in zip(case['kinds'], flowzoo.parts(kinds, d, case['seed'])):
            if k == 'recmany':
                p = flowzoo.Part('rec', p.d, rs(case['seed']), ph=12)
            els.append(p.new())
            args.append(p)
    if not els:
        return 'discard'
    if case['fail']:
        k, t, w = case['fail']
        k = min(k, len(els))
        els.insert(k, Fails(t, w))
        args.insert(k, None)
    flow = (BiFlow if case['bi'] else mdp.Flow)(els)
    ref = flow.copy()
    n = len(els)
    arr = case['src'] == 'array' and all(a is None or not a.args for a in args)
    x = flowzoo.signal(r, 60, case['d'])
    chunks, msgs = [], None
    for a in args:
        cs = gen.split(x, gen.cuts(r, 60, r.randint(1, 4), 15))
        chunks.append([(c, flowzoo.args_for(a, len(c), r)) if a is not None and a.args else (c, []) for c in cs])
    phases = [node.get_remaining_train_phase() for node in els]

    def data():
        if arr:
            return x.copy()
        out = []
        for i, cs in enumerate(chunks):
            items = [(c.copy(),) + tuple(g) if g else c.copy() for c, g in cs]
            if case['src'] == 'gen' and phases[i] <= 1:
                out.append(flowzoo.gener(items))
            elif case['src'] == 'restart':
                out.append(flowzoo.Restart(items))
            else:
                out.append(items)
        if not arr and any(p == 0 for p in phases) and r2.rand() < 0.5:
            out = [o if p else None for o, p in zip(out, phases)]
        return out
    kw = {}
    if case['bi'] and case['msg'] and not arr:
        kw['msg_iterables'] = [[{'foo': j} for j in range(len(cs))] for cs in chunks]
    r2 = rs(case['seed'], 5)
    exc = None
    del CALLS[:]
    with np.errstate(all='ignore'):
        try:
            if case['bi']:
                ref.train(data(), copy.deepcopy(kw.get('msg_iterables')))
            else:
                ref.train(data())
        except Exception as e:
            exc = e
    if (exc is None) != (not case['fail']) or exc is not None and 'planned' not in str(exc):
        return 'discard'
    calls = list(CALLS)
    if sum(phases) >= 2:
        ctx.nontrivial()
    if max(phases) > 10:
        ctx.label('many phases')
    if not sum(phases) or exc is not None and case['fail'][2] == 'execute' and not any(phases[case['fail'][0]:]):
        return 'discard'
    r2 = rs(case['seed'], 5)
    dat = data()
    keep = list(dat) if isinstance(dat, list) else dat.copy()
    base = ctx.tmpdir()
    path = os.path.join(base, 'new') if case['how'] == 'path' else None
    ids = [id(m) for m in flow]
    del CALLS[:]
    got = None
    try:
        with np.errstate(all='ignore'), tempdir(base), browser() as seen, quiet():
            got = show_training(flow, dat, path=path, debug=case['debug'], show_size=case['size'], open_browser=bool(case['seed'] % 2), **copy.deepcopy(kw))
    except Violation:
        raise
    except EmptyTraceException:
        check(exc is not None, "there are no slides")
        clean(flow)
        return
    except Exception as e:
        if exc is None and ('egative eigenvalue' in str(e) or 'ingular' in str(e) or isinstance(e, np.linalg.LinAlgError)):
            # the first chunk alone, which is the one that is traced on a snapshot, is too degenerate
            clean(flow)
            return 'discard'
        check(exc is not None and not case['debug'], "the traced training fails: %s: %s", type(e).__name__, e)
        check(type(e) is type(exc), "the traced training fails with %s instead of %s", type(e), type(exc))
    else:
        check(exc is None or case['debug'], "the error is not reported")
    traced = list(CALLS)
    check(traced[:len(calls)] == calls, "training calls %s instead of %s", traced[:len(calls)], calls)
    clean(flow)
    check([id(m) for m in flow] == ids, "other nodes in the flow")
    if isinstance(keep, list):
        check(len(keep) == len(dat) and all(a is b for a, b in zip(keep, dat)), "the data list is changed")
    else:
        check(np.array_equal(keep, dat), "the data are changed")
    # the same state as after the training
    check([m.get_remaining_train_phase() for m in flow] == [m.get_remaining_train_phase() for m in ref], "training phases differ")
    if exc is None:
        try:
            y = ref.execute(x)      # this ends the last training phases
        except Exception:
            return 'discard'
        z = flow.execute(x)
        if case['bi']:
            y, z = (v[0] if isinstance(v, tuple) else v for v in (y, z))
        check(y.shape == z.shape and np.array_equal(y, z), "the traced training gives another flow")
        for a, b in zip(flow, ref):
            if isinstance(a, flowzoo.RecBase):
                check(len(a.log) == len(b.log), "the traced training sees other data")
    if got is None:
        return
    where = path or os.path.dirname(got)
    check(os.listdir(base) == [os.path.basename(where)], "files outside of the directory: %s", os.listdir(base))
    check(got == os.path.join(where, 'training_inspection.html'), "name %s", got)
    with open(got) as f:
        text = f.read()
    check(text.rstrip().endswith('</html>'), "slide show is not complete")
    check(seen == ([(os.path.abspath(got), text)] if case['seed'] % 2 else []), "the browser gets %s", [s[0] for s in seen])
    names = show_names(text, None)
    files = os.listdir(where)
    check(len(set(names)) == len(names), "slides appear twice")
    check(set(names) == set(f for f in files if f.endswith('.html') and f != 'training_inspection.html'), "slides %s of files %s", names, sorted(files))
    slides = [slide(where, m) for m in names]
    if exc is None and case['debug'] and any('Encountered Exception' in s for s in slides):
        return 'discard'        # the first chunk alone is too degenerate
    if exc is None:
        # one snapshot for each phase, in the order of the training
        npick = len([f for f in files if f.startswith('snapshot')])
        check(npick == sum(phases), "%d snapshots for %d phases", npick, sum(phases))
        seen_phases = []
        for m in names:
            g = re.match(r'^(\d+)_(\d+)_([ts])_(\d+)\.html$', m)
            check(g is not None, "slide name %s", m)
            seen_phases.append((int(g.group(1)), int(g.group(2)), 'ts'.index(g.group(3)), int(g.group(4))))
        check(seen_phases == sorted(seen_phases), "slides are out of order: %s", names)
        owner = [i for i, p in enumerate(phases) for _ in range(p)]
        check(sorted(set(p[:3] for p in seen_phases)) == [(i, o, t) for i, o in enumerate(owner) for t in (0, 1)], "phases shown: %s of nodes %s", sorted(set(p[:3] for p in seen_phases)), owner)
        for m, s in zip(seen_phases, slides):
            node, meth = slide_call(s)
            if m[2] == 1:
                check(meth == 'stop_training', "%s on a stop slide", meth)
        check(len(re.findall(r'>(train|stop)</span>', text)) == 2 * sum(phases), "table of phases")
    else:
        check(any('Encountered Exception' in s for s in slides) or case['fail'][2] == 'execute' or case['fail'][1] > 0, "the error is not shown")


# ------------------------------------------------------------------ slide shows
FILES = st.lists(st.sampled_from(['a.png', 'b.png', 'dir/c d.jpg', 'x1.gif', '../e.png']), min_size=0, max_size=6)


@sub(st.fixed_dictionaries({'files': FILES, 'size': st.tuples(st.integers(1, 50), st.integers(1, 50)), 'title': st.none() | st.just('Some $title {x}'), 'sect': st.none() | st.lists(st.sampled_from([1, 2, 'one', 'zwei', 10]), max_size=6), 'delay': st.none() | st.integers(1, 500),
                            'loop': st.booleans(), 'id': st.none() | st.just('showid'), 'mag': st.sampled_from([1, 2, 0.5]), 'magc': st.booleans(), 'short': st.booleans(), 'how': st.sampled_from(['text', 'file', 'temp'])}),
     quick=300, rule='at least two slides')
def slideshows(case, ctx):
    """The options, sections and settings of a slide show are the given ones."""
    files, sect = case['files'], case['sect']
    kw = dict(title=case['title'], section_ids=sect, loop=case['loop'], slideshow_id=case['id'], magnification=case['mag'], mag_control=case['magc'])
    if case['delay'] is not None:
        kw['delay'] = case['delay']
    if case['how'] == 'text':
        kw['shortcuts'] = case['short']
    base = ctx.tmpdir()

    def run():
        if case['how'] == 'text':
            return mdp.utils.image_slideshow(files, case['size'], **kw)
        fname = os.path.join(base, 'show.html') if case['how'] == 'file' else None
        with tempdir(base), browser() as seen:
            f = mdp.utils.show_image_slideshow(files, case['size'], filename=fname, **kw)
            check(len(seen) == 1 and seen[0][0] == os.path.abspath(f.name), "browser called with %s", seen)
            text = seen[0][1]
            check(os.path.dirname(os.path.abspath(f.name)) == base and os.listdir(base) == [os.path.basename(f.name)], "files %s", os.listdir(base))
            name = f.name
            f.close()
            check(os.path.exists(name) == (fname is not None), "temporary file after closing")
        check(text.rstrip().endswith('</html>'), "the page is not complete")
        return text
    if not files or sect and len(sect) != len(files):
        raises(Exception, run, "no files, or sections for other files")
        return
    if len(files) > 1:
        ctx.nontrivial()
    text = run()
    check(re.findall(r'<option[^>]*value="([^"]*)"', text) == files, "slides %s instead of %s", re.findall(r'<option[^>]*value="([^"]*)"', text), files)
    ident = re.search(r'var (\w+) = function \(\) \{\s*var that', text).group(1)
    if case['id']:
        check(ident == 'showid', "id %s", ident)
    check('var loop_slideshow = %s;' % ('true' if case['loop'] else 'false') in text, "loop")
    check('var show_delay = %s;' % (case['delay'] or 100) in text, "delay")
    check('var magnification = %s;' % case['mag'] in text and 'var original_width = %d;' % case['size'][0] in text and 'var original_height = %d;' % case['size'][1] in text, "image size")
    check(('name="%s_magtext"' % ident in text) == case['magc'], "magnification control")
    check(text.count('Some $title {x}') >= 1 if case['title'] else 'Some $title' not in text, "title")
    check('$<' not in text.replace('$title', ''), "unexpanded directives")
    if sect:
        got = re.search(r'var section_ids = new Array\((.*?)\);', text, re.S).group(1)
        check(re.findall(r'"([^"]*)"', got) == ['%s_section_id_%s' % (ident, s) for s in sect], "sections %s", got)
        links = re.findall(r'id="%s_section_id_([^"]*)" onClick="%s.setSlide\((\d+)\);">([^<]*)</span>' % (ident, ident), text)
        want = [(str(s), str(i), str(s)) for i, s in enumerate(sect) if i == 0 or s != sect[i - 1]]
        check(links == want, "section links %s instead of %s", links, want)


# ------------------------------------------------------------------ introspection, progress
class Inner(object):
    pass


@sub(st.fixed_dictionaries({'seed': seeds, 'arrays': st.lists(st.tuples(st.sampled_from(['w', 'b_', 'avg2', '_priv', 'zz']), st.integers(0, 3), st.lists(st.integers(0, 3), max_size=3), st.sampled_from(['d', 'f', 'i', 'B', 'D'])), max_size=6),
                            'kind': st.sampled_from(['id', 'pca', 'pcat', 'flow'])}), quick=100, rule='at least two arrays', shards=4, timeout=120)
def digging(case, ctx):
    """Every array reachable through attributes is listed with its size."""
    r = rs(case['seed'])
    node = {'id': lambda: nodes.IdentityNode(), 'pca': lambda: nodes.PCANode(), 'pcat': lambda: nodes.PCANode(), 'flow': lambda: hinet.FlowNode(mdp.Flow([nodes.IdentityNode(input_dim=2)]))}[case['kind']]()
    if case['kind'].startswith('pca'):
        node.train(r.normal(size=(10, 3)))
        if case['kind'] == 'pcat':
            node.stop_training()
    want = {}
    for name, depth, shape, dt in case['arrays']:
        o, path = node, []
        for k in range(depth):
            if not hasattr(o, 'inner%d' % k):
                setattr(o, 'inner%d' % k, Inner())
            o = getattr(o, 'inner%d' % k)
            path.append('inner%d' % k)
        a = np.ones(tuple(shape), dt)
        setattr(o, name, a)
        want['.'.join(path + [name])] = a
    if case['kind'] == 'pcat':
        want['v'], want['avg'], want['d'] = node.v, node.avg, node.d
    if len(want) >= 2:
        ctx.nontrivial()
    dic, text = mdp.utils.dig_node(node)
    for name, a in want.items():
        hits = [k for k, v in dic.items() if v[1] is a]
        check(len(hits) >= 1, "array %s is not found in %s", name, sorted(dic))
    total = 0
    for k, (size, a) in dic.items():
        check(size == a.itemsize * int(np.prod(a.shape)), "size %s of %s %s", size, k, a.shape)
        total += size
        o = node
        for part in k.split('.'):
            o = getattr(o, part)
        check(o is a or np.array_equal(o, a), "%s is another array", k)
        check(re.search(r'^%s: +%d bytes$' % (re.escape(k), size), text, re.M) is not None, "no line for %s in %r", k, text)
    check(text.splitlines()[-1] == 'Total %d arrays (%d bytes)' % (len(dic), total), "last line %r", text.splitlines()[-1])
    check(len(text.splitlines()) == len(dic) + 1, "number of lines")
    check(mdp.utils.get_node_size(node) == len(pickle.dumps(node, 2)), "pickled size") if case['kind'] == 'pcat' else None
    raises(Exception, lambda: mdp.utils.dig_node([1]), "digging something else than a node")


@sub(st.fixed_dictionaries({'size': st.integers(0, 2000) | st.integers(0, 10 ** 9) | st.sampled_from([1000, 1001, 1023, 1024, 1025, 1024 ** 2, 10 ** 6, 1024 ** 2 + 1, 10 ** 6 + 1]), 'si': st.booleans(), 'n': st.integers(0, 2000)}), quick=200, rule='above one unit')
def sizes(case, ctx):
    """The readable size is the size up to the printed precision."""
    from mdp.utils.introspection import _memory_size_str
    node = nodes.IdentityNode()
    node.pad = b'x' * case['n']
    for size, text in ((mdp.utils.get_node_size(node), mdp.utils.get_node_size_str(node, si_units=case['si'])), (case['size'], _memory_size_str(case['size'], case['si']))):
        m = re.match(r'^(\d+|\d+\.\d) (B|kB|MB|GB|KiB|MiB|GiB)$', text)
        check(m is not None, "size %r", text)
        base = 1000. if case['si'] else 1024.
        unit = base ** (['B', 'kB', 'MB', 'GB'] if case['si'] else ['B', 'KiB', 'MiB', 'GiB']).index(m.group(2))
        check(abs(float(m.group(1)) * unit - size) <= (0.051 * unit if unit > 1 else 0), "%d bytes shown as %s", size, text)
        check(unit == 1 or float(m.group(1)) >= 1, "%d bytes shown as %s", size, text)
        check(float(m.group(1)) <= base, "%d bytes shown as %s", size, text)
        if unit > 1:
            ctx.nontrivial()
    check(mdp.utils.get_node_size(node) == len(pickle.dumps(node, 2)), "pickled size")


@sub(st.fixed_dictionaries({'items': st.lists(st.integers(0, 100), max_size=30), 'src': st.sampled_from(['list', 'tuple', 'gen', 'genneg', 'str', 'dict', 'nolen']), 'style': st.sampled_from(['bar', 'timer', 'bad']), 'stop': st.none() | st.integers(0, 5),
                            'custom': st.fixed_dictionaries({}, optional={'position': st.sampled_from(['left', 'middle', 'right']), 'indent': st.sampled_from(['', '  ', 'P: ']), 'width': st.integers(20, 90), 'delimiters': st.sampled_from(['[]', '()']), 'char1': st.just('#'),
                                                                         'char2': st.just('|'), 'char3': st.just('_'), 'speed': st.sampled_from(['mean', 'last']), 'separator': st.just(' / ')}) | st.none()}), quick=300, rule='at least two items')
def progress(case, ctx):
    """A progress display passes all the items on and ends at 100 percent."""
    items = case['items']
    n = len(items)
    kw = dict(style=case['style'], custom=copy.deepcopy(case['custom']))
    if case['src'] == 'list':
        seq, want = list(items), items
    elif case['src'] == 'tuple':
        seq, want = tuple(items), items
    elif case['src'] == 'str':
        seq = want = ''.join('%x' % (i % 16) for i in items)
    elif case['src'] == 'dict':
        seq = dict.fromkeys(items)
        want = list(seq)
    elif case['src'] in ('gen', 'nolen'):
        seq, want = flowzoo.gener(items), items
        if case['src'] == 'gen':
            kw['length'] = n
    else:
        items = sorted(items)
        seq, want = flowzoo.gener(items), items
        kw['length'] = -100
    if case['src'] == 'nolen' or case['style'] == 'bad':
        with quiet():
            raises(Exception, lambda: list(mdp.utils.progressinfo(seq, **kw)), "no length or unknown style")
        return
    if n >= 2:
        ctx.nontrivial()
    out = io.StringIO()
    got = []
    with contextlib.redirect_stdout(out):
        for v in mdp.utils.progressinfo(seq, **kw):
            got.append(v)
            if case['stop'] is not None and len(got) > case['stop']:
                break
    if case['stop'] is not None and len(want) > case['stop']:
        want = want[:case['stop'] + 1]
        check(got == list(want), "items %s instead of %s", got, want)
        return
    check(got == list(want), "items %s instead of %s", got, want)
    shown = [int(p) for p in re.findall(r'(\d+)%', out.getvalue())]
    check(shown == sorted(shown), "percentages %s", shown)
    check(not len(want) or shown[-1] == 100, "percentages %s", shown)
    boxes = [b for b in out.getvalue().split('\r') if '%' in b]
    if case['style'] == 'bar' and case['custom'] and 'width' in case['custom']:
        # fixed width of the box
        ok = set(len(b.rstrip('\n')) for b in boxes)
        check(len(ok) <= 1 and (not ok or max(ok) <= case['custom']['width']), "widths %s of the box", ok)
        check(all(b.startswith(case['custom'].get('indent', '')) for b in boxes), "indentation")
