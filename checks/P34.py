"""Wrapped external estimators: every scikit-learn node against the original class fitted on the complete data, the support-vector node against direct use of the library, label normalisation round trips."""
import ctypes
import inspect
import warnings
import numpy as np
import scipy.sparse
import sklearn.base
import sklearn.linear_model
import sklearn.naive_bayes
import sklearn.preprocessing
import sklearn.tree
import libsvm.svmutil as svmutil
import mdp
from mdp import nodes
from mdp.nodes.svm_classifiers import _LabelNormalizer
from lib.harness import sub, check, close, st, raises, Violation
from lib import gen
from lib.gen import seeds, rs

warnings.simplefilter('ignore')
SUFFIX = 'ScikitsLearnNode'
NAMES = sorted(n for n in nodes.__all__ if n.endswith(SUFFIX))
CLASSIFIERS = [n for n in NAMES if issubclass(getattr(nodes, n), mdp.ClassifierCumulator)]
SLOW = {'HistGradientBoostingClassifier', 'HistGradientBoostingRegressor'}
OTHERS = [n for n in NAMES if n not in CLASSIFIERS]
LOG, TREE, RIDGE = sklearn.linear_model.LogisticRegression, sklearn.tree.DecisionTreeRegressor, sklearn.linear_model.Ridge
NB = sklearn.naive_bayes.GaussianNB


def required(name):
    """arguments of the estimators that need some"""
    sc = sklearn.preprocessing.StandardScaler
    return {'OneVsOneClassifier': lambda: dict(estimator=LOG()), 'OneVsRestClassifier': lambda: dict(estimator=LOG(C=0.5)), 'OutputCodeClassifier': lambda: dict(estimator=NB(), random_state=3),
            'StackingClassifier': lambda: dict(estimators=[('a', NB()), ('b', LOG())], cv=2), 'VotingClassifier': lambda: dict(estimators=[('a', NB()), ('b', LOG()), ('c', LOG(C=0.01))]),
            'StackingRegressor': lambda: dict(estimators=[('a', RIDGE()), ('b', TREE(max_depth=2, random_state=1))], cv=2), 'VotingRegressor': lambda: dict(estimators=[('a', RIDGE()), ('b', RIDGE(alpha=10))]),
            'SelfTrainingClassifier': lambda: dict(base_estimator=NB()), 'ColumnTransformer': lambda: dict(transformers=[('a', sc(), [0]), ('b', 'passthrough', [1])]),
            'FeatureUnion': lambda: dict(transformer_list=[('a', sc()), ('b', sklearn.preprocessing.PolynomialFeatures())]), 'Pipeline': lambda: dict(steps=[('a', sc()), ('b', sklearn.preprocessing.PolynomialFeatures())]),
            'GridSearchCV': lambda: dict(estimator=RIDGE(), param_grid={'alpha': [0.1, 10]}, cv=2), 'RandomizedSearchCV': lambda: dict(estimator=RIDGE(), param_distributions={'alpha': [0.1, 1, 10]}, cv=2, n_iter=2, random_state=1),
            'RFE': lambda: dict(estimator=RIDGE()), 'RFECV': lambda: dict(estimator=RIDGE(), cv=2), 'SelectFromModel': lambda: dict(estimator=RIDGE()), 'SequentialFeatureSelector': lambda: dict(estimator=RIDGE(), cv=2),
            'SparseCoder': lambda: dict(dictionary=np.eye(2)), 'GaussianRandomProjection': lambda: dict(n_components=2), 'SparseRandomProjection': lambda: dict(n_components=2),
            }.get(name, dict)()


# estimators for which more is worth less: keep the running time small
SMALL = {'n_estimators': [1, 3, 5], 'max_iter': [5, 20, 50], 'n_iter': [5, 10], 'n_components': [1, 2, 3], 'n_clusters': [1, 2, 3], 'n_init': [1, 2], 'random_state': [0, 1, 7], 'n_jobs': [None, 1], 'cv': [2, 3],
         'verbose': [0], 'n_neighbors': [1, 2, 3], 'degree': [1, 2, 3], 'max_depth': [1, 2, 3], 'n_quantiles': [5, 10], 'warm_start': [False], 'memory': [None], 'early_stopping': [False], 'novelty': [True], 'k': [1, 2],
         'hidden_layer_sizes': [(3,), (2, 2)], 'kernel': ['linear', 'rbf', 'poly', 'sigmoid'], 'copy': [True], 'copy_X': [True], 'copy_x': [True], 'max_features': [1, 0.5, None], 'n_bins': [2, 3], 'algorithm': [None]}
ALWAYS = {'n_estimators': 4, 'random_state': 5, 'n_init': 1}


def params(cls, r):
    """A random selection of changed parameters (may be invalid)."""
    out = {}
    for p in inspect.signature(cls.__init__).parameters.values():
        if p.name in ('self', 'input_dim', 'output_dim', 'dtype') or p.kind != p.POSITIONAL_OR_KEYWORD and p.kind != p.KEYWORD_ONLY or p.default is p.empty:
            continue
        if p.name in ALWAYS:
            out[p.name] = ALWAYS[p.name]
        if r.rand() > 0.15:
            continue
        if p.name in SMALL:
            c = SMALL[p.name]
            v = c[r.randint(len(c))]
            if v is None:
                continue
            out[p.name] = v
        elif isinstance(p.default, bool):
            out[p.name] = not p.default
        elif isinstance(p.default, (int, np.integer)):
            out[p.name] = int([1, 2, p.default + 1][r.randint(3)])
        elif isinstance(p.default, float):
            out[p.name] = float(p.default * [0.5, 2., 0.9][r.randint(3)])
    return out


def inputs(r, n, d, kind):
    if kind == 'normal':
        return r.normal(size=(n, d)) * 2.
    if kind == 'positive':
        return np.abs(r.normal(size=(n, d))) + 0.1
    if kind == 'counts':
        return r.randint(0, 4, size=(n, d)).astype(float)
    return r.normal(size=(n, d)).round(1) + 3


LABELS = ['int', 'neg', 'str', 'float', 'bool', 'npint', 'one']


def make_labels(r, n, kind, x):
    k = (x.sum(axis=1) > np.median(x.sum(axis=1))).astype(int) + (x[:, 0] > np.percentile(x[:, 0], 70)) * (r.rand() < .6)
    flip = r.rand(n) < .1
    k = np.where(flip, r.randint(0, 3, size=n), k)
    return {'int': lambda: [int(v) for v in k * 3], 'neg': lambda: [int(v) for v in 1 - 2 * (k > 0)], 'str': lambda: [['cat', 'dog', 'longername'][v] for v in k], 'float': lambda: [[0.5, -1.5, 2.25][v] for v in k],
            'bool': lambda: [bool(v > 0) for v in k], 'npint': lambda: [np.int32(v + 100) for v in k], 'one': lambda: [7] * n}[kind]()


def label_chunk(lab, form):
    """labels of one chunk in one of the accepted forms"""
    if form == 0:
        return list(lab)
    if form == 1:
        return np.array(lab)
    if form == 2:
        return tuple(lab)
    if form == 3:
        return np.array(lab)[:, None]
    if len(set(lab)) == 1 and not isinstance(lab[0], np.generic):
        return lab[0]
    return list(lab)


def dense(y):
    return y.toarray() if scipy.sparse.issparse(y) else np.asarray(y)


def same(a, b, msg):
    a, b = dense(a), dense(b)
    if a.dtype.kind in 'OUSb' or b.dtype.kind in 'OUSb':
        check(a.shape == b.shape, "%s: shape %s instead of %s", msg, a.shape, b.shape)
        check(a.dtype.kind == b.dtype.kind, "%s: type %s instead of %s", msg, a.dtype, b.dtype)
        check(np.array_equal(a, b), "%s: %s instead of %s", msg, a[:5], b[:5])
    else:
        check(a.dtype == b.dtype or a.dtype.kind == b.dtype.kind == 'i', "%s: type %s instead of %s", msg, a.dtype, b.dtype)
        close(a, b, 1e-9, msg)


def attempt(f):
    """(result, None) or (None, exception)"""
    try:
        return f(), None
    except Violation:
        raise
    except Exception as e:
        return None, e


def fit_keywords(orig, r, n, x, supervised):
    """keyword arguments for fit besides the data"""
    ps = list(inspect.signature(orig.fit).parameters.values())
    names = [p.name for p in ps]
    kw = {}
    if supervised and len(ps) > 2 and ps[2].name in ('y', 'Y') or len(ps) > 2 and ps[2].name in ('y', 'Y') and ps[2].default is inspect._empty:
        t = r.randint(5)
        y = x.sum(axis=1) + r.normal(size=n) * .3
        if t == 1:
            y = np.stack([y, x[:, 0] - r.rand(n)], axis=1)
        elif t == 2:
            y = np.abs(y) + .1
        elif t == 3:
            y = (y > np.median(y)).astype(int)
        kw[ps[2].name] = y
    if 'sample_weight' in names and r.rand() < .3:
        kw['sample_weight'] = r.rand(n) + .5
    return kw


def prepare(case, cname):
    r = rs(case['seed'])
    node_cls = getattr(nodes, cname)
    name = cname[:-len(SUFFIX)]
    kw = required(name)
    probe = node_cls(**kw)
    orig = type(probe.scikits_alg)
    if case['perturb'] and not kw or name.endswith('RandomProjection'):
        kw = dict(kw, **params(orig, r))
    if 'random_state' in inspect.signature(orig.__init__).parameters:
        kw.setdefault('random_state', 5)
    if 'n_estimators' in inspect.signature(orig.__init__).parameters:
        kw.setdefault('n_estimators', 4)
    x = inputs(r, case['n'], case['d'], case['data'])
    x2 = inputs(r, case['m'], case['d'], case['data'])
    return r, node_cls, name, kw, orig, x, x2


def build(node_cls, kw, case):
    return node_cls(dtype=case['dtype'], **kw) if case['explicit'] else node_cls(**kw)


CASE = {'seed': seeds, 'n': st.integers(9, 24), 'm': st.integers(1, 6), 'd': st.integers(1, 4), 'data': st.sampled_from(['normal', 'positive', 'counts', 'rounded']), 'perturb': st.booleans(), 'chunks': st.integers(1, 5),
        'dtype': st.sampled_from(['float64', 'float64', 'float32']), 'explicit': st.booleans(), 'copy': st.booleans(), 'flow': st.booleans()}


def check_params(node, reference):
    a, b = node.scikits_alg.get_params(deep=False), reference.get_params(deep=False)
    check(sorted(a) == sorted(b), "parameters %s instead of %s", sorted(a), sorted(b))
    for k in a:
        va, vb = a[k], b[k]
        check(va is vb or repr(va) == repr(vb), "parameter %s is %r instead of %r", k, va, vb)


def fitted(orig, kw, args, fkw, x2, method, case):
    gen.reseed(case['seed'])
    alg = orig(**kw)
    alg.fit(*args, **fkw)
    gen.reseed(case['seed'] + 1)
    return alg, getattr(alg, method)(x2)


@sub(st.fixed_dictionaries(dict(CASE, cls=st.sampled_from(CLASSIFIERS), labels=st.sampled_from(LABELS), form=st.integers(0, 5), execute=st.booleans())), quick=1600, thorough=24000, shards=4, tshards=8,
     rule='labels of new data compared with the original estimator')
def classifiers(case, ctx):
    """label() of the node equals predict() of the original fitted on the complete data and labels."""
    if case['cls'][:-len(SUFFIX)] in SLOW and case['seed'] % 8:
        return 'discard'
    r, node_cls, name, kw, orig, x, x2 = prepare(case, case['cls'])
    x, x2 = x.astype(case['dtype']), x2.astype(case['dtype'])
    labels = make_labels(r, len(x), case['labels'], x)
    order = np.argsort([str(l) for l in labels], kind='stable') if case['form'] == 5 else np.arange(len(x))
    x, labels = x[order], [labels[i] for i in order]
    fkw = fit_keywords(orig, r, len(x), x, False)
    fkw.pop('y', None)
    (ref, err) = attempt(lambda: fitted(orig, kw, (x.copy(), np.array(labels)), fkw, x2.copy(), 'predict', case))
    if err is None:
        (ref2, err2) = attempt(lambda: fitted(orig, kw, (x.copy(), np.array(labels)), fkw, x2.copy(), 'predict', case))
        if err2 is not None or not np.array_equal(ref[1], ref2[1]):
            return 'discard'
    # chunks: of one label each when scalars are asked for
    cs = gen.cuts(rs(case['seed'], 3), len(x), case['chunks'])
    if case['form'] == 5:
        cs = sorted(set([i for i in range(1, len(x)) if labels[i] != labels[i - 1]]))
        cs = np.diff([0] + cs + [len(x)]).tolist()
    xs = gen.split(x, cs)
    pos, ls = 0, []
    for i, c in enumerate(xs):
        ls.append(label_chunk(labels[pos:pos + len(c)], (case['form'] + i) % 4 if case['form'] == 4 else case['form']))
        pos += len(c)

    def run():
        node = build(node_cls, kw, case)
        for c, l in zip(xs, ls):
            keep = c.copy()
            node.train(c, l)
            check(np.array_equal(keep, c), "training data changed")
        gen.reseed(case['seed'])
        node.stop_training(**fkw)
        gen.reseed(case['seed'] + 1)
        return node, node.label(x2)
    res, nerr = attempt(run)
    if err is not None:
        check(nerr is not None, "%s fails on this data (%s: %s), the node returns labels", name, type(err).__name__, str(err)[:100])
        check(type(nerr) is type(err), "%s fails with %s, the node with %s: %s", name, type(err).__name__, type(nerr).__name__, str(nerr)[:200])
        ctx.label('fails')
        return 'discard'
    if nerr is not None:
        raise nerr
    alg, y = ref
    node, out = res
    check(isinstance(node.scikits_alg, orig), "wrapped estimator is %s", type(node.scikits_alg))
    check_params(node, orig(**kw))
    check(out.shape == (len(x2), 1), "label() of %d samples has shape %s", len(x2), out.shape)
    same(out[:, 0], y, "labels of %s" % name)
    check(set(np.asarray(out).ravel().tolist()) <= set(np.array(labels).tolist()), "label() returns unknown labels")
    same(node.execute(x2), x2, "execute() of a classifier")
    if case['execute']:
        node.execute_method = 'label'
        gen.reseed(case['seed'] + 1)
        same(node.execute(x2)[:, 0], y, "execute() with execute_method='label'")
    if case['copy']:
        gen.reseed(case['seed'] + 1)
        same(node.copy().label(x2)[:, 0], y, "labels of a copy of %s" % name)
    if case['flow'] and not fkw:
        gen.reseed(case['seed'])
        flow = mdp.Flow([mdp.nodes.CutoffNode(-1e6, 1e6), build(node_cls, kw, case)])
        flow.train([None, list(zip(xs, ls))])
        gen.reseed(case['seed'] + 1)
        same(flow[-1].label(x2)[:, 0], y, "labels of %s trained in a flow" % name)
        same(flow(x2), x2, "execution of a flow with a classifier")
    ctx.nontrivial()
    ctx.label(name)


@sub(st.fixed_dictionaries(dict(CASE, cls=st.sampled_from(OTHERS), supervised=st.booleans())), quick=2400, thorough=36000, shards=4, tshards=8, rule='outputs for new data compared with the original estimator')
def transformers(case, ctx):
    """execute() equals transform() (or predict()) of the original fitted on the complete data."""
    if case['cls'][:-len(SUFFIX)] in SLOW and case['seed'] % 8:
        return 'discard'
    r, node_cls, name, kw, orig, x, x2 = prepare(case, case['cls'])
    x, x2 = x.astype(case['dtype']), x2.astype(case['dtype'])
    if name in ('KernelCenterer',):
        x, x2 = x.dot(x.T), x2.dot(x.T)
    method = 'transform' if hasattr(orig, 'transform') else 'predict'
    fkw = fit_keywords(orig, r, len(x), x, case['supervised'] or method == 'predict')
    (ref, err) = attempt(lambda: fitted(orig, kw, (x.copy(),), fkw, x2.copy(), method, case))
    if err is None:
        (ref2, err2) = attempt(lambda: fitted(orig, kw, (x.copy(),), fkw, x2.copy(), method, case))
        if err2 is not None or not np.array_equal(dense(ref[1]), dense(ref2[1]), equal_nan=dense(ref[1]).dtype.kind == 'f'):
            return 'discard'
    xs = gen.split(x, gen.cuts(rs(case['seed'], 3), len(x), case['chunks']))

    def run():
        node = build(node_cls, kw, case)
        for c in xs:
            keep = c.copy()
            node.train(c)
            check(np.array_equal(keep, c), "training data changed")
        gen.reseed(case['seed'])
        node.stop_training(**fkw)
        dim = node.output_dim
        gen.reseed(case['seed'] + 1)
        return node, node.execute(x2), dim
    res, nerr = attempt(run)
    if err is not None:
        check(nerr is not None, "%s fails on this data (%s: %s), the node returns a result", name, type(err).__name__, str(err)[:100])
        ctx.label('fails')
        return 'discard'
    if nerr is not None:
        raise nerr
    alg, y = ref
    node, out, dim = res
    check(isinstance(node.scikits_alg, orig), "wrapped estimator is %s", type(node.scikits_alg))
    check_params(node, orig(**kw))
    width = y.shape[1] if len(y.shape) > 1 else 1
    same(dense(out).reshape(len(x2), width), dense(y).reshape(len(x2), width), "output of %s" % name)
    check(dim in (None, width) and node.output_dim == width, "output_dim of %s is %s after training and %s after execution, the output has %s columns", name, dim, node.output_dim, width)
    if case['copy']:
        gen.reseed(case['seed'] + 1)
        same(dense(node.copy().execute(x2)).reshape(len(x2), width), dense(y).reshape(len(x2), width), "output of a copy of %s" % name)
    if case['flow'] and method == 'transform' and not fkw and not scipy.sparse.issparse(y) and y.dtype.kind == 'f':
        gen.reseed(case['seed'])
        flow = mdp.Flow([mdp.nodes.CutoffNode(-1e6, 1e6), build(node_cls, kw, case)])
        flow.train([None, xs])
        gen.reseed(case['seed'] + 1)
        same(flow(x2), y, "output of %s trained in a flow" % name)
        longer = flow + mdp.nodes.CutoffNode(-1e6, 1e6)
        gen.reseed(case['seed'] + 1)
        same(longer(x2).astype(y.dtype), np.clip(y, -1e6, 1e6), "output of %s in an extended flow" % name)
        gen.reseed(case['seed'] + 1)
        same(flow.copy()(x2), y, "output of a copied flow with %s" % name)
    ctx.nontrivial()
    ctx.label(name)


DENSE = [n + SUFFIX for n in ('PCA', 'StandardScaler', 'MinMaxScaler', 'PolynomialFeatures', 'KernelPCA', 'TruncatedSVD', 'SplineTransformer', 'Nystroem', 'KMeans', 'FactorAnalysis', 'Normalizer', 'VarianceThreshold', 'QuantileTransformer',
                              'RBFSampler', 'IncrementalPCA', 'RobustScaler')]


@sub(st.fixed_dictionaries(dict(CASE, cls=st.lists(st.sampled_from(DENSE), min_size=1, max_size=3), dims=st.lists(st.integers(1, 3), min_size=3, max_size=3), shared=st.booleans())), quick=300, thorough=4000, rule='at least two nodes in the layer')
def layers(case, ctx):
    """Nodes in a layer: the columns are those of the originals, in order."""
    r = rs(case['seed'])
    dims = case['dims'][:len(case['cls'])]
    if case['shared']:
        dims = dims[:1] * len(dims)
    x = inputs(r, case['n'], dims[0] if case['shared'] else sum(dims), 'normal')
    x2 = inputs(r, case['m'], x.shape[1], 'normal')
    pos, members, want = 0, [], []
    for name, d in zip(case['cls'], dims):
        cls = getattr(nodes, name)
        orig = type(cls().scikits_alg)
        kw = {'random_state': 5} if 'random_state' in inspect.signature(orig.__init__).parameters else {}
        if case['perturb']:
            kw = dict(params(orig, r), **kw)
        (a, b) = (0, d) if case['shared'] else (pos, pos + d)
        ref, err = attempt(lambda: fitted(orig, kw, (x[:, a:b].copy(),), {}, x2[:, a:b].copy(), 'transform', case))
        if err is not None or scipy.sparse.issparse(ref[1]) or ref[1].dtype != np.float64:
            return 'discard'
        members.append(cls(input_dim=d, **kw))
        want.append(ref[1])
        pos += d
    layer = (mdp.hinet.SameInputLayer if case['shared'] else mdp.hinet.Layer)(members)
    flow = mdp.Flow([layer, mdp.nodes.CutoffNode(-1e9, 1e9)])
    gen.reseed(case['seed'])
    flow.train([gen.split(x, gen.cuts(rs(case['seed'], 3), len(x), case['chunks'])), None])
    gen.reseed(case['seed'] + 1)
    close(flow(x2), np.clip(np.hstack(want), -1e9, 1e9), 1e-8, "output of the layer")
    check(layer.output_dim == sum(w.shape[1] for w in want), "output_dim of the layer is %s", layer.output_dim)
    ctx.nontrivial(len(members) > 1)


@sub(st.fixed_dictionaries({'cls': st.sampled_from(NAMES), 'dim': st.integers(1, 3), 'n': st.integers(2, 5)}), quick=300, thorough=1000, rule='refusals checked')
def refusals(case, ctx):
    """output_dim and unknown parameters are refused; the declared input dimension is enforced."""
    node_cls = getattr(nodes, case['cls'])
    name = case['cls'][:-len(SUFFIX)]
    kw = required(name)
    if case['cls'] in OTHERS:
        raises(mdp.NodeException, lambda: node_cls(output_dim=case['dim'], **kw), "output_dim given to %s" % name)
    else:
        raises(mdp.NodeException, lambda: node_cls(output_dim=case['dim'], n_components=2, **kw), "output_dim and n_components given to %s" % name)
    if not any(p.kind == p.VAR_KEYWORD for p in inspect.signature(type(node_cls(**kw).scikits_alg).__init__).parameters.values()):
        raises(TypeError, lambda: node_cls(no_such_parameter=1, **kw), "unknown parameter given to %s" % name)
    node = node_cls(input_dim=case['dim'], **kw)
    check(node.input_dim == case['dim'] and node.is_trainable() and not node.is_invertible(), "properties of a new %s", name)
    bad = np.ones((case['n'], case['dim'] + 1))
    args = ([0] * case['n'],) if case['cls'] in CLASSIFIERS else ()
    raises(mdp.NodeException, lambda: node.train(bad, *args), "training data with a wrong number of columns")
    if case['cls'] in CLASSIFIERS:
        raises(mdp.TrainingException, lambda: node.train(np.ones((case['n'], case['dim'])), [0] * (case['n'] + 1)), "wrong number of labels")
    ctx.nontrivial()


# ---------------------------------------------------------------- support vector machines
libc = ctypes.CDLL(None)
KERNELS = {'RBF': 2, 'LINEAR': 0, 'POLY': 1, 'SIGMOID': 3}
TYPES = {'C_SVC': 0, 'NU_SVC': 1, 'ONE_CLASS': 2, 'EPSILON_SVR': 3, 'NU_SVR': 4}
OPTS = {'C': ('-c', [0.1, 1., 10., 100.]), 'gamma': ('-g', [0.01, 0.1, 1., 5.]), 'degree': ('-d', [1, 2, 4]), 'coef0': ('-r', [0., 1., -.5]), 'nu': ('-n', [0.1, 0.3, 0.6]), 'p': ('-p', [0.01, 0.5]),
        'eps': ('-e', [0.1, 1e-5]), 'cache_size': ('-m', [1., 50.]), 'shrinking': ('-h', [0, 1])}


@sub(st.fixed_dictionaries({'seed': seeds, 'n': st.integers(6, 40), 'm': st.integers(1, 8), 'd': st.integers(1, 4), 'classes': st.integers(1, 4), 'chunks': st.integers(1, 6), 'kernel': st.sampled_from(sorted(KERNELS) + [None, None]),
                            'type': st.sampled_from(sorted(TYPES) + [None, None, None]), 'probability': st.booleans(), 'params': st.lists(st.sampled_from(sorted(OPTS)), max_size=5, unique=True), 'via': st.integers(0, 2),
                            'labels': st.sampled_from(['int', 'neg', 'float', 'bool']), 'form': st.integers(0, 4), 'case': st.integers(0, 2), 'sparse': st.booleans(), 'threshold': st.sampled_from([None, 0., .2, .4])}),
     quick=1500, thorough=30000, shards=4, tshards=8, rule='labels (and probabilities) compared with direct use of the library')
def libsvm(case, ctx):
    """LibSVMClassifier against svm_train/svm_predict called directly with an option string."""
    r = rs(case['seed'])
    k = case['classes']
    if case['type'] == 'NU_SVC':
        k = min(k, 2)          # (the library's own svm_predict overruns its buffer for more)
    x = r.normal(size=(case['n'], case['d']))
    x2 = r.normal(size=(case['m'], case['d']))
    if case['sparse']:
        x[r.rand(*x.shape) < .4] = 0
        x2[r.rand(*x2.shape) < .4] = 0
    c = r.randint(0, k, size=len(x))
    x = x + c[:, None] * r.rand() * 3
    if case['type'] in ('EPSILON_SVR', 'NU_SVR'):
        labels = [float(v) for v in x.sum(axis=1) + r.normal(size=len(x)) * .1]
    else:
        labels = {'int': lambda: [int(v) * 2 + 1 for v in c], 'neg': lambda: [int(1 - v) for v in c], 'float': lambda: [float(v * 2. - 1) for v in c], 'bool': lambda: [bool(v % 2) for v in c]}[case['labels']]()
    opts, pars = "-q", {}
    sp = lambda s: [s, s.lower(), s.capitalize()][case['case']]
    kw = {}
    if case['kernel']:
        opts += " -t %d" % KERNELS[case['kernel']]
        kw['kernel'] = sp(case['kernel'])
    if case['type']:
        opts += " -s %d" % TYPES[case['type']]
        kw['classifier'] = sp(case['type'])
    for q in case['params']:
        flag, vals = OPTS[q]
        v = vals[r.randint(len(vals))]
        opts += " %s %r" % (flag, v)
        pars[q] = v
    if case['kernel'] in ('POLY', 'SIGMOID') and (pars.get('C', 1) > 1 or pars.get('gamma') == 5. or pars.get('degree') == 4 or pars.get('eps') == 1e-5):
        return 'discard'       # (slow to converge)
    if case['probability']:
        opts += " -b 1"

    def direct():
        libc.srand(case['seed'] % 1000)
        m = svmutil.svm_train([float(l) for l in labels], x.tolist(), opts)
        lab = svmutil.svm_predict([0] * len(x2), x2.tolist(), m, "-q")[0]
        pr = None
        if case['probability'] and case['type'] in (None, 'C_SVC', 'NU_SVC'):
            pr = [dict(zip(m.get_labels(), p)) for p in svmutil.svm_predict([0] * len(x2), x2.tolist(), m, "-b 1 -q")[2]]
        return m, lab, pr
    ref, err = attempt(direct)
    xs = gen.split(x, gen.cuts(rs(case['seed'], 3), len(x), case['chunks']))

    def run():
        if case['via'] == 0:
            node = nodes.LibSVMClassifier(probability=case['probability'], params=pars or None, **kw)
        elif case['via'] == 1:
            node = nodes.LibSVMClassifier(probability=case['probability'], params=pars, input_dim=case['d'], dtype='float64')
            if case['kernel']:
                node.set_kernel(kw['kernel'])
            if case['type']:
                node.set_classifier(kw['classifier'])
        else:
            node = nodes.LibSVMClassifier(probability=case['probability'], **kw)
            for q in pars:
                setattr(node.parameter, q, pars[q])
        p = 0
        for i, ch in enumerate(xs):
            node.train(ch, label_chunk(labels[p:p + len(ch)], (case['form'] + i) % 4 if case['form'] == 4 else case['form']))
            p += len(ch)
        libc.srand(case['seed'] % 1000)
        node.stop_training()
        return node, node.label(x2)
    res, nerr = attempt(run)
    if err is not None:
        check(nerr is not None, "the library refuses (%s), the node does not", str(err)[:200])
        ctx.label('refused')
        return 'discard'
    if nerr is not None:
        raise nerr
    m, lab, pr = ref
    node, out = res
    close(np.asarray(out).ravel(), np.array(lab), 1e-12, "labels")
    if case['type'] in (None, 'C_SVC', 'NU_SVC'):
        check(set(np.asarray(out).ravel().tolist()) <= set(float(l) for l in labels), "unknown label returned")
    if pr is not None:
        for f, what in ((node.prob, 'prob'), (node.predict_probability, 'predict_probability')):
            got = f(x2)
            check(len(got) == len(pr), "%s has %d entries for %d samples", what, len(got), len(pr))
            for g, w in zip(got, pr):
                check(sorted(g) == sorted(w) and max(abs(g[q] - w[q]) for q in w) < 1e-12, "%s is %s instead of %s", what, g, w)
                check(abs(sum(g.values()) - 1) < 1e-9, "probabilities do not add up to one")
        rank = node.rank(x2, case['threshold'])
        for g, w in zip(rank, pr):
            want = [q for q in w if case['threshold'] is None or w[q] > case['threshold']]
            check(sorted(g) == sorted(want), "rank with threshold %s is %s for %s", case['threshold'], g, w)
            check(all(w[a] >= w[b] - 1e-15 for a, b in zip(g, g[1:])), "rank %s is not ordered: %s", g, w)
        ctx.label('probabilities')
    elif not case['probability'] and case['type'] in (None, 'C_SVC', 'NU_SVC'):
        raises(Exception, lambda: node.prob(x2), "probabilities of a node without them")
    close(node.execute(x2), x2, 0, "execute() of a classifier")
    check(node.tlen == len(x), "tlen is %s", node.tlen)
    ctx.nontrivial(k > 1)
    ctx.label(case['type'] or 'default')


@sub(st.fixed_dictionaries({'name': st.sampled_from(['kernel', 'classifier', 'setk', 'setc', 'param', 'dtype', 'dim', 'good']), 'text': st.sampled_from(['', 'rbff', 'PRECOMPUTED', 'C-SVC', 'svc', 'LINEAR ', 'gama', 'c', 'Nu']), 'seed': seeds}),
     quick=100, thorough=300, rule='invalid setting refused')
def libsvm_refusals(case, ctx):
    """Unknown kernels, classifiers and parameters are refused as documented, and change nothing."""
    t = case['text']
    node = nodes.LibSVMClassifier()
    before = (node.parameter.kernel_type, node.parameter.svm_type)
    if case['name'] == 'kernel' and t:
        raises(TypeError, lambda: nodes.LibSVMClassifier(kernel=t), "kernel %r" % t)
    elif case['name'] == 'classifier' and t:
        raises(TypeError, lambda: nodes.LibSVMClassifier(classifier=t), "classifier %r" % t)
    elif case['name'] == 'setk':
        raises(TypeError, lambda: node.set_kernel(t), "kernel %r" % t)
    elif case['name'] == 'setc':
        raises(TypeError, lambda: node.set_classifier(t), "classifier %r" % t)
    elif case['name'] == 'param':
        raises(mdp.NodeException, lambda: nodes.LibSVMClassifier(params={'C': 2., t: 1}), "parameter %r" % t)
    elif case['name'] == 'dtype':
        raises(mdp.NodeException, lambda: nodes.LibSVMClassifier(dtype='float32'), "single precision")
    elif case['name'] == 'dim':
        node = nodes.LibSVMClassifier(input_dim=2)
        raises(mdp.NodeException, lambda: node.train(np.ones((3, 3)), [1, 2, 3]), "wrong dimension")
    else:
        raises(mdp.TrainingException, lambda: node.train(np.ones((3, 3)), [1, 2]), "wrong number of labels")
    check((node.parameter.kernel_type, node.parameter.svm_type) == before, "a refused setting was applied")
    ctx.nontrivial()


@sub(st.fixed_dictionaries({'labels': st.one_of(st.lists(st.integers(-5, 5), max_size=12), st.lists(st.text(max_size=3), max_size=8), st.lists(st.floats(-2, 2), max_size=6), st.lists(st.sampled_from(['a', 'b']), max_size=8)),
                            'mode': st.sampled_from([None, 'id', 'dual', 'multi', 'other'])}), quick=1000, thorough=10000, rule='round trip of at least two labels')
def normaliser(case, ctx):
    """Normalised labels are the documented integers and revert to the original labels."""
    lab, mode = case['labels'], case['mode']
    distinct = set(lab)
    if mode == 'other':
        raises(mdp.NodeException, lambda: _LabelNormalizer(lab, mode), "unknown mode")
        return
    if mode == 'dual' and len(distinct) > 2:
        raises(mdp.NodeException, lambda: _LabelNormalizer(lab, mode), "dual mode with %d labels" % len(distinct))
        return
    n = _LabelNormalizer(lab, mode)
    norm = n.normalize(lab)
    check(list(n.revert(norm)) == lab, "revert gives %s for %s", n.revert(norm), lab)
    if mode in ('dual', 'multi'):
        allowed = {1, -1} if mode == 'dual' else set(range(len(distinct)))
        check(set(norm) <= allowed and len(set(norm)) == len(distinct), "labels %s are normalised to %s", lab, norm)
        if mode == 'multi':
            check(set(norm) == allowed, "labels %s are normalised to %s", lab, norm)
    else:
        check(list(norm) == lab, "mode %s changes labels", mode)
    ctx.nontrivial(len(distinct) > 1)
