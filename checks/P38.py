"""Configuration, namespaces and numerical backends: what is available is reported and present, the rest is absent, and results
depend neither on optional dependencies nor on the backend."""
import atexit
import base64
import contextlib
import hashlib
import importlib
import json
import os
import pickle
import subprocess
import sys
import types
import numpy as np
import mdp
import bimdp
from lib.harness import sub, check, close, st, raises, REPO, VERIF
from lib.nodetab import TAB, NAMES
from lib import gen, backend_funcs
from lib.gen import seeds, rs

ENVS = ['MDP_DISABLE_PARALLEL_PYTHON', 'MDP_DISABLE_SHOGUN', 'MDP_DISABLE_LIBSVM', 'MDP_DISABLE_JOBLIB', 'MDP_DISABLE_SKLEARN']


# ------------------------------------------------------------------ model
def too_old(v, good):
    for p, g in zip(v.split('.'), good):
        try:
            p = int(p)
        except ValueError:
            return False
        if p != g:
            return p < g
    return False


def expected(mods, env):
    """has_<name> -> version or None, for the given modules (name -> version, None: no such module, 'noversion') and variables."""
    r = {'parallel_python': None}
    v = mods['joblib']
    r['joblib'] = None if v is None or env.get('MDP_DISABLE_JOBLIB') or too_old(v, (0, 4, 3)) else v
    v = mods['sklearn']
    r['sklearn'] = None if v in (None, 'noversion') or env.get('MDP_DISABLE_SKLEARN') or too_old(v, (0, 6)) else v
    v = mods['shogun']
    r['shogun'] = v if v and v.startswith('v1.') and not env.get('MDP_DISABLE_SHOGUN') else None
    if env.get('MDP_DISABLE_LIBSVM'):
        r['libsvm'] = None
    else:
        r['libsvm'] = mods['svmutil'] or mods['libsvm']
    return r


def fake(name, version):
    m = types.ModuleType(name)
    if version == 'noversion':
        return m
    if name == 'svmutil':
        m.libsvm = types.SimpleNamespace(_name=version)
    elif name == 'shogun':
        m.Kernel = types.SimpleNamespace(Version_get_version_release=lambda: version)
        m.Features = m.Classifier = object()
    else:
        m.__version__ = version
    return m


version = st.one_of(st.lists(st.integers(0, 12), min_size=1, max_size=4).map(lambda l: '.'.join(map(str, l))),
                    st.sampled_from(['0.4.3', '0.4.2', '0.5', '0.4', '0.6', '0.5.9', '0.6rc1', '0.4.devel', '0.5.devel', 'dev', '1', '0', '0.4.3b1', '0.10', '0.06.1', '']))
envs = st.dictionaries(st.sampled_from(ENVS), st.sampled_from(['', '1', '0', 'yes', 'numpy']), max_size=4)


@contextlib.contextmanager
def world(mods, env):
    """These modules and variables, and no others of the kind."""
    keep = {k: sys.modules.get(k) for k in list(mods) + ['scikits', 'scikits.learn', 'pp', 'user']}
    kenv = {k: os.environ.get(k) for k in ENVS}
    had = {k: getattr(mdp.config, k) for k in dir(mdp.config) if k.startswith('has_')}
    number = mdp.config._HAS_NUMBER
    try:
        for k, v in mods.items():
            sys.modules[k] = None if v is None else fake(k, v)
        for k in ('scikits', 'scikits.learn', 'pp', 'user'):
            sys.modules[k] = None
        for k in ENVS:
            os.environ.pop(k, None)
        os.environ.update(env)
        yield
    finally:
        for k, v in keep.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
        for k, v in kenv.items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v
        for k in [k for k in dir(mdp.config) if k.startswith('has_') and k not in had]:
            delattr(mdp.config, k)
        for k, v in had.items():
            setattr(mdp.config, k, v)
        mdp.config._HAS_NUMBER = number


def check_info(order, info):
    """The report: one line per dependency in the order of creation."""
    lines = info.split('\n')
    names = [n.replace('_', ' ') for n in order]
    w = max(map(len, names)) + 1
    check(len(lines) == len(names), "%d lines for %d dependencies", len(lines), len(names))
    for n, l in zip(names, lines):
        check(l[:w + 2] == n.rjust(w) + ': ', "line %r instead of one about %r", l, n)
    return [l[w + 2:] for l in lines]


@sub(st.fixed_dictionaries({'mods': st.fixed_dictionaries({
    'joblib': st.one_of(st.none(), version), 'sklearn': st.one_of(st.none(), st.just('noversion'), version),
    'svmutil': st.one_of(st.none(), st.none(), st.just('libsvm.so.3')), 'libsvm': st.one_of(st.none(), version),
    'shogun': st.one_of(st.none(), st.sampled_from(['v1.1.0', 'v2.0', '1.1', 'v0.9', 'noversion', 'v1', 'v10.1']))}), 'env': envs}),
     quick=2000, thorough=40000, shards=2, rule="at least one dependency is there and one is not")
def detection(case, ctx):
    """Optional dependencies are reported as available iff they are importable, new enough and not disabled."""
    mods, env = case['mods'], case['env']
    with world(mods, env):
        mdp.configuration.set_configuration()
        want = expected(mods, env)
        for k, v in want.items():
            got = getattr(mdp.config, 'has_' + k)
            check(bool(got) == (v is not None), "has_%s is %r with %r and %r", k, got, mods, env)
            if v is not None:
                check(repr(got) == v, "version %r instead of %r", got, v)
            else:
                check(repr(got).startswith('NOT AVAILABLE: ') and len(repr(got)) > 15, "no reason given: %r", got)
        check(bool(mdp.config.has_python) and repr(mdp.config.has_python).startswith('%d.%d.' % sys.version_info[:2]), "python version")
        check(repr(mdp.config.has_mdp).startswith(mdp.__version__), "mdp version")
        order = sorted([k[4:] for k in dir(mdp.config) if k.startswith('has_')], key=lambda k: getattr(mdp.config, 'has_' + k).order)
        lines = check_info(order, mdp.config.info())
        for k, l in zip(order, lines):
            check(l == repr(getattr(mdp.config, 'has_' + k)), "line of %s: %r", k, l)
        check(str(mdp.config) == repr(mdp.config) == mdp.config.info(), "str and repr of the configuration")
    n = sum(v is not None for v in want.values())
    ctx.nontrivial(0 < n < len(want))


@sub(st.fixed_dictionaries({'ops': st.lists(st.tuples(st.sampled_from(['found', 'failed']), st.sampled_from(['a', 'bb', 'long_name_of_it', 'x_1', 'zz']),
                                                      st.sampled_from(['1.0', '', 'no module', '2', 'exc'])), min_size=1, max_size=8)}),
     quick=600, thorough=10000, rule="a dependency is registered twice, or two are")
def registry(case, ctx):
    """Dependencies registered by hand."""
    model, order = {}, []
    with world({}, {}):
        base = sorted([k[4:] for k in dir(mdp.config) if k.startswith('has_')], key=lambda k: getattr(mdp.config, 'has_' + k).order)
        for how, name, text in case['ops']:
            val = ImportError('broken') if text == 'exc' else text
            if how == 'found':
                r = mdp.config.ExternalDepFound(name, val)
            else:
                r = mdp.config.ExternalDepFailed(name, val)
            check(getattr(mdp.config, 'has_' + name) is r, "the object registered is not the one returned")
            if name in order:
                order.remove(name)
            order.append(name)
            model[name] = (how == 'found', str(val) if how == 'found' else 'NOT AVAILABLE: ' + str(val))
        for k, (ok, text) in model.items():
            got = getattr(mdp.config, 'has_' + k)
            check(bool(got) == ok and repr(got) == text, "has_%s: %r %r, registered %s", k, bool(got), got, (ok, text))
        lines = check_info(base + order, mdp.config.info())
        check(lines[len(base):] == [model[k][1] for k in order], "lines %s", lines[len(base):])
    ctx.nontrivial(len(case['ops']) > 1)


# ------------------------------------------------------------------ whole imports in other environments
CHILD = r'''
import sys, json, os, warnings
warnings.simplefilter("ignore")
case = json.loads(sys.argv[1])
sys.path.insert(0, case["repo"])
import numpy as np, scipy
if case["sklearn"] == "real":
    import sklearn
elif case["sklearn"] == "missing":
    sys.modules["sklearn"] = None
else:
    import types
    m = types.ModuleType("sklearn"); m.__version__ = "0.5.1"; sys.modules["sklearn"] = m
if case["joblib"] == "missing":
    sys.modules["joblib"] = None
elif case["joblib"] == "old":
    import joblib
    joblib.__version__ = "0.4.2"
if case["libsvm"] == "missing":
    sys.modules["libsvm"] = None
if case["scipy"]:
    scipy.random = sys.modules["scipy.random"] = np.random
import io, contextlib
buf = io.StringIO()
with contextlib.redirect_stdout(buf):
    try:
        import mdp, bimdp
    except ImportError as e:
        print_error = str(e)
        sys.stdout = sys.__stdout__
        print(json.dumps({"import": print_error})); sys.exit()
res = {"numx": mdp.numx_description, "printed": buf.getvalue()[:100], "info": mdp.config.info()}
res["has"] = {k[4:]: bool(getattr(mdp.config, k)) for k in dir(mdp.config) if k.startswith("has_")}
res["all"] = sorted(mdp.__all__)
res["caching"] = hasattr(mdp, "caching")
res["nodes"] = sorted(mdp.nodes.__all__)
res["missing"] = [n for n in mdp.nodes.__all__ if not hasattr(mdp.nodes, n)] + [n for n in mdp.__all__ if not hasattr(mdp, n)]
res["binodes"] = sorted(n for n in dir(bimdp.nodes) if n.endswith("BiNode"))
np.random.seed(3)
x = np.random.normal(size=(200, 4)).cumsum(axis=0) * .1 + np.random.uniform(size=(200, 4))
f = mdp.Flow([mdp.nodes.PCANode(output_dim=3), mdp.nodes.PolynomialExpansionNode(2), mdp.nodes.SFANode(output_dim=2)])
f.train(x)
c = mdp.nodes.KNNClassifier(k=3)
c.train(x, list(x[:, 0] > 0)); c.stop_training()
g = mdp.nodes.GrowingNeuralGasNode(max_nodes=8)
g.train(x)
b = bimdp.BiFlow([bimdp.nodes.PCABiNode(output_dim=2), bimdp.nodes.FDABiNode(node_id="fda")])
b.train([[x], [x]], [None, [{"labels": np.array(x[:, 0] > 0, dtype=int)}]])
y = b.execute(x)
y = y[0] if isinstance(y, tuple) else y
res["digest"] = [np.abs(f(x)).round(5).tolist()[:5], [int(v) for v in c.label(x)[:20]], np.abs(y[:5, :1]).round(5).tolist(), np.abs(g.get_nodes_position()).round(5).tolist()]
print(json.dumps(res))
'''
BASE = {}


def child(case, env):
    e = {k: v for k, v in os.environ.items() if not k.startswith('MDP') and k != 'PYTHONPATH'}
    e.update(env)
    p = subprocess.run([sys.executable, '-W', 'ignore', '-c', CHILD, json.dumps(case)], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=250,
                       cwd=os.getcwd())
    check(p.returncode == 0 and p.stdout.strip(), "import or use failed: %s", p.stderr[-1500:])
    return json.loads(p.stdout.strip().split('\n')[-1])


@sub(st.fixed_dictionaries({'env': envs, 'numx': st.sampled_from([None, None, 'numpy', 'scipy', 'numarray', '']), 'scipy': st.booleans(),
                            'sklearn': st.sampled_from(['real', 'missing', 'missing', 'old']), 'joblib': st.sampled_from(['real', 'missing', 'old']),
                            'libsvm': st.sampled_from(['real', 'missing']), 'debug': st.sampled_from([False, False, True])}),
     quick=40, thorough=1200, shards=8, timeout=300, rule="the import succeeds")
def environments(case, ctx):
    """The library imports with any subset of optional dependencies; exactly what depends on them is missing; results are the same."""
    env = dict(case['env'])
    if case['numx'] is not None:
        env['MDPNUMX'] = case['numx']
    if case['debug']:
        env['MDPNSDEBUG'] = '1'
    q = {'repo': REPO, 'sklearn': case['sklearn'], 'joblib': case['joblib'], 'libsvm': case['libsvm'], 'scipy': case['scipy']}
    r = child(q, env)
    if case['numx'] == 'numarray':
        check('import' in r and 'numarray' in r['import'], "an unknown backend was accepted")
        return
    if case['numx'] == 'scipy' and 'import' in r:
        check(not case['scipy'], "the scipy backend cannot be imported: %s", r['import'])
        return
    check('import' not in r, "import failed: %s", r.get('import'))
    if case['numx'] is not None:
        check(r['numx'] == (case['numx'] or 'numpy'), "backend %s, asked for %r", r['numx'], case['numx'])
    elif case['scipy']:
        check(r['numx'] == 'scipy', "scipy is there, but the backend is %s", r['numx'])
    check(bool(r['printed']) == case['debug'], "printed on import: %r", r['printed'])
    ver = {'real': '9', 'missing': None, 'old': '0.1'}
    want = expected({'joblib': ver[case['joblib']], 'sklearn': ver[case['sklearn']], 'libsvm': ver[case['libsvm']], 'svmutil': None, 'shogun': None}, env)
    for k, v in want.items():
        check(r['has'][k] == (v is not None), "has_%s is %s in %s", k, r['has'][k], case)
    check(not r['missing'], "names of __all__ that do not exist: %s", r['missing'])
    check(r['caching'] == ('caching' in r['all']) == bool(want['joblib']), "mdp.caching without joblib, or none with it")
    if not BASE:
        BASE.update(child({'repo': REPO, 'sklearn': 'real', 'joblib': 'real', 'libsvm': 'real', 'scipy': False}, {'MDPNUMX': 'numpy'}))
    drop = set()
    if not want['sklearn']:
        drop |= set(n for n in BASE['nodes'] if n.endswith('ScikitsLearnNode'))
    if not want['libsvm']:
        drop.add('LibSVMClassifier')
    if case['joblib'] == 'missing' and want['sklearn']:
        # most of scikit-learn itself cannot be imported then
        drop |= set(n for n in BASE['nodes'] if n.endswith('ScikitsLearnNode'))
        r['nodes'] = [n for n in r['nodes'] if not n.endswith('ScikitsLearnNode')]
    extra = {'Convolution2DNode'} if r['numx'] == 'scipy' else set()
    check(set(r['nodes']) - extra == set(BASE['nodes']) - drop - extra, "nodes: %s missing, %s too many", sorted(set(BASE['nodes']) - drop - set(r['nodes']))[:5],
          sorted(set(r['nodes']) - set(BASE['nodes']) - extra)[:5] + sorted(set(r['nodes']) & drop)[:5])
    if r['numx'] == 'scipy':
        for a, b in zip(r['digest'], BASE['digest']):
            close(np.array(a, float), np.array(b, float), 1e-3, "results with the other backend")
    else:
        check(r['digest'] == BASE['digest'], "results depend on the environment: %s and %s", str(r['digest'])[:200], str(BASE['digest'])[:200])
    ctx.nontrivial()
    ctx.label(r['numx'])


# ------------------------------------------------------------------ public names
MODS = ['mdp', 'mdp.nodes', 'mdp.hinet', 'mdp.parallel', 'mdp.utils', 'mdp.graph', 'mdp.caching', 'bimdp', 'bimdp.nodes', 'bimdp.hinet', 'bimdp.inspection', 'bimdp.parallel']


def public(m):
    mod = importlib.import_module(m)
    return [n for n in (getattr(mod, '__all__', None) or [n for n in dir(mod) if not n.startswith('_')])]


NAMED = [(m, n) for m in MODS for n in public(m)]


@sub(st.sampled_from(range(len(NAMED))), quick=1500, thorough=6000, shards=2, rule="a class or function")
def names(i, ctx):
    """Every public name resolves to an object that can be imported from (and pickled by) where it says it lives."""
    m, n = NAMED[i]
    mod = importlib.import_module(m)
    check(hasattr(mod, n), "%s.%s does not exist", m, n)
    o = getattr(mod, n)
    ctx.label(m)
    if not isinstance(o, (type, types.FunctionType)) or isinstance(o, types.ModuleType):
        return
    home = o.__module__
    if not home.split('.')[0] in ('mdp', 'bimdp'):
        return
    h = importlib.import_module(home)
    q = o.__qualname__.split('.')
    if '<' in o.__qualname__:
        return
    p = h
    for part in q:
        p = getattr(p, part, None)
    check(p is o or getattr(h, n, None) is o, "%s.%s says it is %s.%s, which is something else", m, n, home, o.__qualname__)
    if p is o:
        check(pickle.loads(pickle.dumps(o)) is o, "pickled by reference")
    ctx.nontrivial()


# ------------------------------------------------------------------ fixup of generated namespaces
MEMBER = st.fixed_dictionaries({'name': st.sampled_from(['A', 'B', 'f', 'g', '_h', 'C']), 'home': st.sampled_from(['old1', 'old2', 'kept', 'other', 'pkg']),
                                'kind': st.sampled_from(['class', 'class', 'func', 'number', 'nested']), 'inner': st.sampled_from(['old1', 'old2', 'kept', 'other'])})


@sub(st.fixed_dictionaries({'members': st.lists(MEMBER, min_size=1, max_size=6, unique_by=lambda m: m['name']), 'names': st.one_of(st.none(), st.lists(
    st.sampled_from(['A', 'B', 'f', 'g', '_h', 'C', 'absent']), max_size=5, unique=True)), 'old': st.lists(st.sampled_from(['old1', 'old2', 'gone', 'kept']), max_size=4, unique=True),
    'keep': st.lists(st.sampled_from(['kept', 'old2']), max_size=2, unique=True)}), quick=800, thorough=20000, rule="something was moved")
def fixup(case, ctx):
    """fixup_namespace: objects of private modules get the public one, everything else stays, private modules disappear."""
    pkg = 'verif_pkg'
    mod = types.ModuleType(pkg)
    full = {'pkg': pkg, 'other': 'elsewhere.module'}
    full.update({o: pkg + '.' + o for o in ('old1', 'old2', 'kept', 'gone')})
    for o in ('old1', 'old2', 'kept'):
        setattr(mod, o, types.ModuleType(full[o]))
    objs = []
    for m in case['members']:
        if m['kind'] == 'number':
            o = 5
        elif m['kind'] == 'func':
            o = types.FunctionType((lambda: None).__code__, {}, m['name'])
            o.__module__ = full[m['home']]
        else:
            def meth(self):
                pass
            meth.__module__ = full[m['inner']]
            d = {'meth': meth}
            if m['kind'] == 'nested':
                inner = type('Inner', (object,), {})
                inner.__module__ = full[m['inner']]
                d['Inner'] = inner
            o = type(m['name'], (object,), d)
            o.__module__ = full[m['home']]
        setattr(mod, m['name'], o)
        objs.append(o)
    names = case['names']
    if names is not None:
        names = [k for k in names if hasattr(mod, k)]
    sys.modules[pkg] = mod
    try:
        mdp.utils.fixup_namespace(pkg, names, tuple(case['old']), tuple(case['keep']))
    finally:
        del sys.modules[pkg]
    moved = 0

    def want(home, hit):
        return pkg if hit and home in case['old'] else full[home]
    for m, o in zip(case['members'], objs):
        check(getattr(mod, m['name']) is o, "object replaced")
        if m['kind'] == 'number':
            continue
        hit = m['name'] in names if names is not None else not m['name'].startswith('_')
        check(o.__module__ == want(m['home'], hit), "%s of %s: module is %s, listed %s, old %s", m['name'], full[m['home']], o.__module__, hit, case['old'])
        moved += o.__module__ == pkg
        # the attributes of moved objects
        hit2 = hit and m['home'] in case['old']
        if m['kind'] in ('class', 'nested') and (hit2 or not hit):
            check(o.meth.__module__ == want(m['inner'], hit2), "method: module %s, object %s", o.meth.__module__, o.__module__)
            if m['kind'] == 'nested':
                check(o.Inner.__module__ == want(m['inner'], hit2), "inner class: module %s", o.Inner.__module__)
    for o in ('old1', 'old2', 'kept'):
        gone = o in case['old'] and o not in case['keep']
        check(hasattr(mod, o) != gone, "private module %s: %s", o, hasattr(mod, o))
    ctx.nontrivial(moved > 0)


# ------------------------------------------------------------------ helper functions
@sub(st.fixed_dictionaries({'seed': seeds, 'd': st.integers(2, 5), 'n': st.integers(80, 200), 'kw': st.sampled_from([{}, {'output_dim': 1}, {'output_dim': 0.9}, {'svd': True}, {'reduce': True}]),
                            'ica': st.sampled_from([{}, {'approach': 'symm'}, {'g': 'tanh', 'fine_g': None}, {'white_comp': 2}])}), quick=200, thorough=4000, rule="every case")
def helpers(case, ctx):
    """mdp.pca(x, **kw) and mdp.fastica(x, **kw) are the nodes applied to the data."""
    rng = rs(case['seed'], 1)
    x = rng.uniform(size=(case['n'], case['d'])).dot(gen.rot(rng, case['d']))
    snap = x.copy()
    close(mdp.pca(x, **case['kw']), mdp.nodes.PCANode(**case['kw'])(x), 1e-12, "mdp.pca")
    r = []
    for f in (lambda: mdp.fastica(x, **case['ica']), lambda: mdp.nodes.FastICANode(**case['ica'])(x)):
        gen.reseed(4)
        try:
            r.append(f())
        except mdp.NodeException as e:
            r.append(str(e))
    if isinstance(r[0], str) or isinstance(r[1], str):
        check(isinstance(r[0], str) and isinstance(r[1], str), "only one of them failed")
        return
    close(r[0], r[1], 1e-10, "mdp.fastica")
    check(np.array_equal(x, snap), "data changed")
    ctx.nontrivial()


# ------------------------------------------------------------------ numpy against scipy
SRV = []


def server():
    if not SRV:
        e = {k: v for k, v in os.environ.items() if not k.startswith('MDP')}
        e['VERIF_REPO_PATH'] = REPO
        p = subprocess.Popen([sys.executable, '-W', 'ignore', os.path.join(VERIF, 'lib', 'backend_server.py')], env=e, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.DEVNULL, text=True)
        SRV.append(p)
        SRV.append(p.stdout.readline().strip())
        atexit.register(p.kill)
    return SRV


# directions that the data leave open; several solutions
FREE = ('HLLENode', 'FastICANode')
# components in any order
PERM = ('CuBICANode', 'JADENode', 'TDSEPNode')
BOTH = [n for n in NAMES if n not in FREE]


def ask(case):
    """the answer of the scipy backend; None when there is no second backend"""
    p, desc = server()
    check(desc == 'scipy' or mdp.numx_description == desc, "backend %s", desc)
    if desc != 'scipy' or mdp.numx_description != 'numpy':
        return None
    p.stdin.write(json.dumps(case) + '\n')
    p.stdin.flush()
    line = p.stdout.readline()
    check(line, "the process with the scipy backend died")
    return pickle.loads(base64.b64decode(line))


@sub(st.fixed_dictionaries({'f': st.sampled_from(sorted(backend_funcs.FUNCS)), 'seed': seeds, 'd': st.integers(2, 7), 'dt': st.sampled_from(['d', 'd', 'f'])}), quick=800,
     thorough=20000, shards=2, timeout=120, rule="results compared")
def functions(case, ctx):
    """The functions of mdp.utils give the same results with both backends."""
    res = ask(case)
    if res is None:
        return
    try:
        mine = backend_funcs.run(case)
    except Exception as ex:
        check(res[0] == 'error', "%s: %s with the numpy backend only", type(ex).__name__, ex)
        return
    if res[0] == 'error' and case['dt'] == 'f' and 'Internal Error' in res[1]:
        # LAPACK's single-precision eigensolver gives up now and then
        return
    check(res[0] == 'ok', "with the scipy backend only: %s", res[1])
    check(len(mine) == len(res[1]), "number of results")
    for i, (a, b) in enumerate(zip(mine, res[1])):
        check(a.shape == b.shape, "%s, result %d: shapes %s and %s", case['f'], i, a.shape, b.shape)
        check(a.dtype == b.dtype, "%s, result %d: types %s and %s", case['f'], i, a.dtype, b.dtype)
        close(b, a, 1e-7 if case['dt'] == 'd' else 1e-2, "%s, result %d: scipy and numpy backends differ" % (case['f'], i), scale=1 + np.abs(a).max() if a.size else 1)
    ctx.nontrivial()
    ctx.label(case['f'])


@sub(st.fixed_dictionaries({'node': st.sampled_from(BOTH), 'seed': seeds, 'n': st.integers(2, 12)}), quick=900, thorough=20000, shards=4, timeout=120,
     rule="outputs compared")
def backends(case, ctx):
    """The scipy backend gives the results of the numpy backend."""
    res = ask(case)
    if res is None:
        return
    ok, res = res
    e = TAB[case['node']]
    cfg = e.cfg(case['seed'])
    nd = cfg.new()
    x = cfg.data(e.n, 0)
    gen.reseed(5)
    try:
        if e.trainable:
            if e.online:
                nd.train(x)
            else:
                e.train(nd, cfg, x)
        z = cfg.data(e.rows(case['n']), 1)
        gen.reseed(6)
        mine = [np.asarray(r) for r in cfg.outputs(nd, z, 1)]
    except Exception as ex:
        check(ok == 'error', "%s: %s with the numpy backend only", type(ex).__name__, ex)
        return
    check(ok == 'ok', "with the scipy backend only: %s", res)
    check(len(mine) == len(res), "number of results")
    for a, b in zip(mine, res):
        check(a.shape == b.shape, "shapes %s and %s", a.shape, b.shape)
        if a.dtype.kind not in 'fiub' or b.dtype.kind not in 'fiub':
            check(a.tolist() == b.tolist(), "results %s and %s", a, b)
            continue
        if e.name in PERM:
            q = np.abs(a[:, :, None]) - np.abs(b[:, None])
            best = np.abs(q).max(axis=0).argmin(axis=1)
            check(sorted(best.tolist()) == list(range(a.shape[1])), "other components: %s and %s", a, b)
            b = b[:, best]
        if (e.sign or e.name in PERM) and a.ndim == 2:
            s = np.sign((a * b).sum(axis=0))
            b = b * np.where(s == 0, 1, s)
        close(b, a, max(1e-6, e.tol * 10), "scipy and numpy backends differ", scale=1 + np.abs(a).max() if a.size else 1)
    ctx.nontrivial()
    ctx.label(case['node'])
