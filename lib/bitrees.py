"""Generators of trees of scripted bidirectional nodes."""
import copy
import numpy as np
from lib.harness import st

IDS = ['n0', 'n1', 'n2', 'n3', 'g0', 'g1']
TARGET = st.sampled_from([1, 1, 1, 0, -1, -1, 2, -2, 3, -3, 'exit', 'nosuch'] + IDS * 4)
UPD = st.sampled_from([None, None, 'drop', {}, {'m': 1}, {'m': 2, 'q': 's'}, {'n1->a': 5}, {'n2->target': 'n0'}, {'l': [1, 2]}, {'g0->target': -1},
                       {'n0->junk': 0}, {'a': 'plain'}, {'n3->x->y': 1}])
ENTRY = st.fixed_dictionaries({'y': st.sampled_from(['same', 'same', 'scale', 'scale', 'none']), 'msg': UPD,
                               'kind': st.sampled_from(['y', 'm', 'm', 't', 't', 't', 't', 't', 'bad'])  , 'target': TARGET})
GOOD = st.fixed_dictionaries({'y': st.sampled_from(['same', 'scale']), 'msg': UPD, 'kind': st.sampled_from(['y', 'm', 't', 't', 't']), 'target': TARGET})
SCRIPT = st.lists(st.none() | GOOD | ENTRY, max_size=3)


PRE = st.sampled_from([0, 0, 0, 0, 1, 2])


def leaf(train):
    tr = st.lists(st.lists(GOOD, max_size=2), min_size=0, max_size=3) if train else st.just([])
    return st.fixed_dictionaries({'t': st.sampled_from(['msg', 'msg', 'plain', 'plain', 'ord']), 'id': st.sampled_from(['n0', 'n1', 'n2', 'n3', None]),
                                  'fork': st.sampled_from([True, True, True, False]), 'collect': st.booleans(), 'local': st.sampled_from([[], [], [], [0], [1], [2], [0, 2]]),
                                  'execs': SCRIPT, 'trains': tr, 'pre': PRE if train else st.just(0), 'stops': st.lists(st.none() | GOOD, min_size=3, max_size=3)})


def tree(train):
    lf = leaf(train)
    inner = st.lists(lf, min_size=1, max_size=3)
    g1 = st.fixed_dictionaries({'t': st.just('group'), 'id': st.sampled_from(['g0', 'g1', None]), 'els': inner})
    g2 = st.fixed_dictionaries({'t': st.just('group'), 'id': st.sampled_from(['g0', 'g1', None]), 'els': st.lists(st.one_of(lf, lf, g1), min_size=1, max_size=3)})
    return st.lists(st.one_of(lf, lf, lf, g1, g2), min_size=1, max_size=4)


MSG = st.none() | st.dictionaries(st.sampled_from(['a', 'm', 'q', 'l', 'n0->a', 'n1->a', 'n2->a', 'g0->a', 'n1->y', 'zz->a', 'n2->target', 'arr']), st.integers(0, 9), max_size=4)


def mkmsg(m, n):
    if m is None:
        return None
    out = {}
    for k, v in m.items():
        if k.endswith('target'):
            v = ['n0', 'n1', 1, 'exit', 'n3', -1, 'n2', 1, 1, 'n0'][v]
        elif k == 'arr':
            v = np.full((n, 2), float(v))
        elif k == 'l':
            v = [v]
        elif k == 'q':
            v = 'q%d' % v
        out[k] = v
    return out


def name_leaves(spec, prefix=''):
    """Unique names; each id only once (the first one counts anyway), at most one trainable kind per ordinary node."""
    for i, e in enumerate(spec):
        e['name'] = '%s%d' % (prefix, i)
        if e['t'] == 'group':
            name_leaves(e['els'], e['name'] + '.')
    return spec


def ids(spec):
    out = set()
    for e in spec:
        if e['t'] != 'ord' and e['id']:
            out.add(e['id'])
        if e['t'] == 'group':
            out |= ids(e['els'])
    return out


def known(o, have):
    """The same with names that do exist (except 'nosuch')."""
    if isinstance(o, dict):
        return dict((k, have[IDS.index(v) % len(have)] if k in ('target',) and v in IDS and v not in have and have else known(v, have)) for k, v in o.items())
    if isinstance(o, list):
        return [known(v, have) for v in o]
    return o


def prepare(spec):
    return name_leaves(known(copy.deepcopy(spec), sorted(ids(spec))))


# ------------------------------------------------------------------ mostly successful trainings
CALM = st.fixed_dictionaries({'y': st.sampled_from(['same', 'scale']), 'msg': UPD, 'kind': st.sampled_from(['y', 'm', 'm']), 'target': st.just(1)})
BACK = st.fixed_dictionaries({'y': st.sampled_from(['same', 'scale']), 'msg': UPD, 'kind': st.just('t'), 'target': st.sampled_from([0, 0, 0, -1, 'n0', 'n1', 'n2'])})
HALT = st.fixed_dictionaries({'y': st.sampled_from(['same', 'scale']), 'msg': UPD, 'kind': st.just('t'), 'target': st.just('exit')})


def calm_leaf():
    tr = st.lists(st.one_of(st.just([]), st.just([]), st.lists(BACK, min_size=1, max_size=2)), max_size=3)
    return st.fixed_dictionaries({'t': st.sampled_from(['msg', 'msg', 'msg', 'plain', 'plain', 'ord']), 'id': st.sampled_from(['n0', 'n1', 'n2', 'n3', None]),
                                  'fork': st.sampled_from([True, True, True, False]), 'collect': st.booleans(), 'local': st.sampled_from([[], [], [], [0], [1], [2], [0, 2]]),
                                  'execs': st.lists(st.none() | CALM, max_size=3), 'trains': tr, 'pre': PRE, 'stops': st.lists(st.one_of(st.none(), st.none(), HALT, HALT, BACK), min_size=3, max_size=3)})


def calm_tree():
    lf = calm_leaf()
    g1 = st.fixed_dictionaries({'t': st.just('group'), 'id': st.sampled_from(['g0', 'g1', None]), 'els': st.lists(lf, min_size=1, max_size=3)})
    g2 = st.fixed_dictionaries({'t': st.just('group'), 'id': st.sampled_from(['g0', 'g1', None]), 'els': st.lists(st.one_of(lf, lf, g1), min_size=1, max_size=3)})
    return st.lists(st.one_of(lf, lf, lf, g1, g2), min_size=1, max_size=4)


CALMMSG = st.none() | st.dictionaries(st.sampled_from(['a', 'm', 'q', 'l', 'n0->a', 'n1->a', 'n2->a', 'g0->a', 'n1->y', 'zz->a', 'arr']), st.integers(0, 9), max_size=4)


def backward(spec, seen=None):
    """Training results only go back."""
    seen = [] if seen is None else seen
    for e in spec:
        mine = ([e['id']] if e['t'] != 'ord' and e['id'] else [])
        if e['t'] == 'group':
            backward(e['els'], seen)
            seen += mine
            continue
        seen += mine
        for entry in sum(e['trains'], []) + [s for s in e['stops'] if s is not None]:
            if isinstance(entry['target'], str) and entry['target'] != 'exit' and entry['target'] not in seen:
                entry['target'] = seen[len(entry['target'] + e['t']) % len(seen)] if seen else 0
    return spec
