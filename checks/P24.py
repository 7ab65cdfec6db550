"""Switchboards route what their receptive field geometry describes."""
import numpy as np
import mdp
import bimdp
from mdp import hinet
from mdp.hinet import (Switchboard, MeanInverseSwitchboard, ChannelSwitchboard, Rectangular2dSwitchboard, DoubleRect2dSwitchboard,
                       DoubleRhomb2dSwitchboard, SwitchboardException)
from lib.harness import sub, check, close, st, raises
from lib.gen import seeds, rs


def data(rng, n, d, dt):
    if dt in 'fd':
        return rng.normal(size=(n, d)).astype(dt)
    if dt in 'FD':
        return (rng.normal(size=(n, d)) + 1j * rng.normal(size=(n, d))).astype(dt)
    if dt == 'S1':
        return rng.choice([b'a', b'b', b'c', b'd'], size=(n, d)).astype('S1')
    return rng.randint(0, 50, size=(n, d)).astype(dt)


dtypes = st.sampled_from(['d', 'd', 'f', 'D', 'F', 'i', 'l', 'B', 'S1'])


@sub(st.fixed_dictionaries({'d': st.integers(1, 9), 'con': st.one_of(st.lists(st.integers(0, 8), max_size=12), st.permutations(list(range(9)))), 'cls': st.sampled_from(['plain', 'mean', 'bi', 'bimean', 'channel']),
                            'perm': st.booleans(), 'dt': dtypes, 'n': st.integers(1, 4), 'seed': seeds, 'as': st.sampled_from(['list', 'tuple', 'array', 'array32']), 'shift': st.sampled_from([0, 0, 0, 0, 0, 1, -1, -9]),
                            'wide': st.sampled_from([0, 0, 0, 1, 2])}),
     quick=1500, thorough=40000, rule="the connections are not the identity", shards=4)
def routing(case, ctx):
    d = case['d']
    con = [c + case['shift'] for c in case['con'] if c < d] if case['perm'] or True else case['con']
    rng = rs(case['seed'])
    if case.get('wide'):
        # many dimensions, in any order (1) or some of them, some several times (2)
        d = int(rng.randint(10, 300))
        con = [int(c) for c in rng.permutation(d)] if case['wide'] == 1 else [int(c) for c in rng.randint(0, d, rng.randint(1, 2 * d))]
    conn = {'list': list, 'tuple': tuple, 'array': np.array, 'array32': lambda c: np.array(c, dtype=np.int32)}[case['as']](con)
    make = {'plain': lambda: Switchboard(input_dim=d, connections=conn), 'mean': lambda: MeanInverseSwitchboard(input_dim=d, connections=conn),
            'bi': lambda: bimdp.hinet.BiSwitchboard(input_dim=d, connections=conn),
            'bimean': lambda: type('BiMean', (bimdp.hinet.BiSwitchboard, MeanInverseSwitchboard), {})(input_dim=d, connections=conn),
            'channel': lambda: ChannelSwitchboard(input_dim=d, connections=conn, out_channel_dim=1)}[case['cls']]
    if not con or min(con) < 0 or max(con) >= d:
        raises(SwitchboardException, make, "connections %s with input_dim %d" % (con, d))
        ctx.label('refused')
        return
    s = make()
    mean = 'mean' in case['cls']
    dt = case['dt']
    x = data(rng, case['n'], d, dt)
    x0 = x.copy()
    check((s.input_dim, s.output_dim) == (d, len(con)), "dimensions")
    check(not s.is_trainable() and not s.is_training(), "trainable")
    y = s.execute(x)
    want = np.array([[r[c] for c in con] for r in x0], dtype=x0.dtype)
    check(np.array_equal(y, want) and y.dtype == x0.dtype, "output %s (%s) instead of %s (%s)", y, y.dtype, want, x0.dtype)
    y[:] = y[0, 0]
    check(np.array_equal(x, x0), "the output shares memory with the input")
    bij = sorted(con) == list(range(d))
    check(s.is_invertible() == (bij or mean), "is_invertible is %s", s.is_invertible())
    if dt == 'S1' and mean:
        return
    if not (bij or mean):
        raises(mdp.IsNotInvertibleException, lambda: s.inverse(want), "inverse")
    else:
        if mean:
            y = data(rng, case['n'], len(con), dt)
            y0 = y.copy()
            z = s.inverse(y)
            exp = np.zeros((case['n'], d), dtype=complex)
            for i in range(d):
                k = [j for j, c in enumerate(con) if c == i]
                if k:
                    exp[:, i] = y0[:, k].astype(complex).mean(axis=1)
            close(z.astype(complex), exp, 1e-5 if dt in 'fF' else 1e-12, "mean inverse")
            check(np.array_equal(y, y0), "the inverse changed its argument")
            if dt in 'fdFD':
                check(z.dtype == np.dtype(dt), "dtype of the mean inverse: %s instead of %s", z.dtype, dt)
            close(s.inverse(want).astype(complex)[:, sorted(set(con))], x0[:, sorted(set(con))].astype(complex), 1e-5 if dt in 'fF' else 1e-12, "mean inverse of the output")
        else:
            z = s.inverse(want)
            check(np.array_equal(z, x0) and z.dtype == x0.dtype, "inverse: %s instead of %s", z, x0)
    if 'bi' in case['cls']:
        messages(s, con, d, x0, bij or mean, rng)
    c = s.copy()
    check(np.array_equal(c.execute(x0.copy()), want), "copy")
    raises(mdp.NodeException, lambda: s.execute(np.zeros((2, d + 1), dtype='d' if dt == 'S1' else dt)), "data of another dimension")
    ctx.nontrivial(con != list(range(d)))


def messages(s, con, d, x, inv, rng):
    """A BiSwitchboard routes arrays in the message as well, if their dimension fits."""
    other = d + 1 if len(con) != d + 1 else d + 2
    m = {'a': data(rng, 2, d, 'd'), 'b': data(rng, 2, other, 'd'), 'c': 'text', 'd': rng.normal(size=d), 'e': rng.normal(size=(2, d, 2)), 'f': 3}
    m0 = dict((k, np.array(v)) for k, v in m.items())
    r = s.execute(x.copy(), dict(m))
    check(isinstance(r, tuple) and len(r) == 2, "result of a BiSwitchboard with message: %s", type(r))
    y, msg = r
    check(np.array_equal(y, x[:, con]), "output with a message")
    check(set(msg) == set(m), "message keys %s", sorted(msg))
    for k in m:
        want = m0[k][:, con] if k in 'ae' else m0[k]
        check(np.array_equal(np.array(msg[k]), want), "routing of the message entry %s", k)
        check(np.array_equal(np.array(m[k]), m0[k]), "the message was changed")
    if inv and sorted(con) == list(range(d)):
        z, msg2 = s.inverse(y, dict(msg))
        check(np.array_equal(np.asarray(z), x), "inverse with a message")
        for k in m:
            check(np.array_equal(np.array(msg2[k]), m0[k]), "inverse routing of the message entry %s", k)


# ------------------------------------------------------------------ channels
@sub(st.fixed_dictionaries({'cin': st.integers(1, 5), 'icd': st.integers(1, 4), 'cout': st.integers(1, 5), 'ocd': st.integers(1, 4), 'seed': seeds, 'ask': st.lists(st.integers(0, 4), min_size=1, max_size=4),
                            'numpy': st.booleans(), 'bad': st.sampled_from([0, 0, 0, 1, 2])}), quick=800, thorough=20000, rule="several input and output channels")
def channels(case, ctx):
    rng = rs(case['seed'])
    d = case['cin'] * case['icd']
    o = case['cout'] * case['ocd']
    con = rng.randint(0, d, size=o)
    if case['bad'] == 1 and case['ocd'] > 1:
        raises(SwitchboardException, lambda: ChannelSwitchboard(d, con[:-1] if o > 1 else con, out_channel_dim=case['ocd'] if o > 1 else 2), "output dimension that is no multiple")
        return
    if case['bad'] == 2 and case['icd'] > 1:
        raises(SwitchboardException, lambda: ChannelSwitchboard(d + 1, con, out_channel_dim=case['ocd'], in_channel_dim=case['icd']), "input dimension that is no multiple")
        return
    s = ChannelSwitchboard(d, con.tolist(), out_channel_dim=case['ocd'], in_channel_dim=case['icd'])
    check((s.output_channels, s.input_channels, s.out_channel_dim, s.in_channel_dim) == (case['cout'], case['cin'], case['ocd'], case['icd']), "channel numbers")
    x = rng.normal(size=(3, d))
    y = s.execute(x.copy())
    for c in range(case['cout']):
        part = con[c * case['ocd']:(c + 1) * case['ocd']]
        check(list(s.get_out_channel_input(c)) == part.tolist(), "input connections of channel %d", c)
        nd = s.get_out_channel_node(c)
        check(np.array_equal(nd.execute(x.copy()), y[:, c * case['ocd']:(c + 1) * case['ocd']]), "switchboard of channel %d", c)
        check((nd.input_dim, nd.output_dim) == (d, case['ocd']), "dimensions of the switchboard of channel %d", c)
        want = sorted(set(part // case['icd']))
        q = np.int64(c) if case['numpy'] else c
        check(list(s.get_out_channels_input_channels(q)) == want, "input channels of channel %d: %s instead of %s", c, s.get_out_channels_input_channels(q), want)
    ask = [a % case['cout'] for a in case['ask']]
    want = sorted(set(int(v) // case['icd'] for a in ask for v in con[a * case['ocd']:(a + 1) * case['ocd']]))
    check(list(s.get_out_channels_input_channels(np.array(ask) if case['numpy'] else ask)) == want, "input channels of channels %s", ask)
    ctx.nontrivial(case['cin'] > 1 and case['cout'] > 1)


def fields(s, ocd, icd):
    """Input channels of the output channels, in order."""
    con = np.asarray(s.connections).reshape(-1, ocd)
    res = []
    for row in con:
        r = row.reshape(-1, icd)
        check((r % icd == np.arange(icd)).all() and (r // icd == r[:, :1] // icd).all(), "components of an input channel are not kept together")
        res.append((r[:, 0] // icd).tolist())
    return res


def route(s, rng, flds, icd, ctx):
    """The behaviour agrees with the field description."""
    x = rng.normal(size=(3, s.input_dim))
    y = s.execute(x.copy())
    xc = x.reshape(3, -1, icd)
    want = np.concatenate([xc[:, f].reshape(3, -1) for f in flds], axis=1)
    check(y.shape == want.shape and np.array_equal(y, want), "routing does not follow the receptive fields")
    k = int(rng.randint(len(flds)))
    check(list(s.get_out_channels_input_channels(k)) == sorted(set(flds[k])), "input channels of output channel %d", k)
    two = [k, int(rng.randint(len(flds)))]
    check(list(s.get_out_channels_input_channels(two)) == sorted(set(flds[two[0]]) | set(flds[two[1]])), "input channels of two output channels")
    check(np.array_equal(s.get_out_channel_node(k).execute(x.copy()), xc[:, flds[k]].reshape(3, -1)), "switchboard of one output channel")
    check(s.output_channels == len(flds), "output_channels %s instead of %d", s.output_channels, len(flds))
    check(s.out_channel_dim == len(flds[0]) * icd and s.in_channel_dim == icd, "channel dimensions")


def xy(draw, form):
    return draw[0] if form == 'int' else (tuple(draw) if form == 'tuple' else list(draw))


def bicls(base):
    return getattr(bimdp.hinet, base.__name__.replace('Switchboard', 'BiSwitchboard'))


pair = lambda a, b: st.lists(st.integers(a, b), min_size=2, max_size=2)
forms = st.sampled_from(['tuple', 'list', 'int', 'tuple'])


@sub(st.fixed_dictionaries({'inc': pair(1, 9), 'field': pair(1, 5), 'space': pair(1, 5), 'icd': st.integers(1, 3), 'ignore': st.booleans(), 'form': forms, 'seed': seeds, 'bi': st.booleans(),
                            'image': st.booleans()}), quick=1500, thorough=40000, rule="several output channels", shards=4)
def rect(case, ctx):
    f = lambda v: xy(v, case['form'])
    (ix, iy), (fx, fy), (sx, sy) = [[v[0], v[0]] if case['form'] == 'int' else v for v in (case['inc'], case['field'], case['space'])]
    icd = case['icd']
    cls = bicls(Rectangular2dSwitchboard) if case['bi'] else Rectangular2dSwitchboard
    rng = rs(case['seed'])
    make = lambda: cls(in_channels_xy=f(case['inc']), field_channels_xy=f(case['field']), field_spacing_xy=f(case['space']), in_channel_dim=icd, ignore_cover=case['ignore'])
    if fx > ix or fy > iy:
        raises(SwitchboardException, make, "a field larger than the input")
        return
    # positions of the fields, row by row
    pos = [(x, y) for y in range(0, iy - fy + 1, sy) for x in range(0, ix - fx + 1, sx)]
    flds = [[yy * ix + xx for yy in range(y, y + fy) for xx in range(x, x + fx)] for x, y in pos]
    full = len(set(c for q in flds for c in q)) == ix * iy
    if not full and not case['ignore']:
        raises(SwitchboardException, make, "fields that do not cover the input")
        ctx.label('refused')
        return
    s = make()
    check(s.input_dim == ix * iy * icd, "input_dim")
    nx, ny = len(range(0, ix - fx + 1, sx)), len(range(0, iy - fy + 1, sy))
    check(tuple(s.out_channels_xy) == (nx, ny), "out_channels_xy %s instead of %s", s.out_channels_xy, (nx, ny))
    check(s.output_dim == nx * ny * fx * fy * icd, "output_dim")
    last = (ix - (pos[-1][0] + fx), iy - (pos[-1][1] + fy))
    check(tuple(s.unused_channels_xy) == last, "unused_channels_xy %s instead of %s", s.unused_channels_xy, last)
    check((tuple(s.in_channels_xy), tuple(s.field_channels_xy), tuple(s.field_spacing_xy)) == ((ix, iy), (fx, fy), (sx, sy)), "attributes of the geometry")
    got = fields(s, fx * fy * icd, icd)
    check(got == flds, "receptive fields %s instead of %s", got, flds)
    route(s, rng, flds, icd, ctx)
    check(s.is_invertible() == (sorted(c for q in flds for c in q) == list(range(ix * iy))), "is_invertible")
    if case['image']:
        im = hinet.get_2d_image_switchboard((ix, iy))
        x = rng.normal(size=(2, ix * iy))
        check(np.array_equal(im.execute(x.copy()), x) and tuple(im.out_channels_xy) == (ix, iy), "image switchboard")
    ctx.nontrivial(len(flds) > 1)


@sub(st.fixed_dictionaries({'inc': pair(1, 13), 'field': st.lists(st.sampled_from([2, 2, 4, 4, 6, 1, 3]), min_size=2, max_size=2), 'icd': st.integers(1, 3), 'ignore': st.booleans(), 'form': forms, 'seed': seeds,
                            'fit': st.booleans(), 'bi': st.booleans()}), quick=1500, thorough=40000, rule="several output channels", shards=4)
def double(case, ctx):
    inc = list(case['inc'])
    if case['form'] == 'int':
        inc[1] = inc[0]
    field = [case['field'][0]] * 2 if case['form'] == 'int' else case['field']
    if case['fit']:
        inc = [f * max(1, i // f) for f, i in zip(field, inc)]
    icd = case['icd']
    (ix, iy), (fx, fy) = inc, field
    cls = bicls(DoubleRect2dSwitchboard) if case['bi'] else DoubleRect2dSwitchboard
    rng = rs(case['seed'])
    f = lambda v: xy(v, case['form'])
    make = lambda: cls(in_channels_xy=f(inc), field_channels_xy=f(field), in_channel_dim=icd, ignore_cover=case['ignore'])
    odd = fx % 2 or fy % 2
    big = fx > ix or fy > iy
    half = ix % fx >= fx // 2 or iy % fy >= fy // 2
    if odd or big or half:
        raises(SwitchboardException, make, "geometry %s %s" % (inc, field))
        return
    if (ix % fx or iy % fy) and not case['ignore']:
        raises(SwitchboardException, make, "fields that do not cover the input")
        ctx.label('refused')
        return
    s = make()
    nx, ny = ix // fx, iy // fy
    rect = lambda x, y: [yy * ix + xx for yy in range(y, y + fy) for xx in range(x, x + fx)]
    flds = [rect(x * fx, y * fy) for y in range(ny) for x in range(nx)] + [rect(x * fx + fx // 2, y * fy + fy // 2) for y in range(ny - 1) for x in range(nx - 1)]
    check(tuple(s.long_out_channels_xy) == (nx, ny), "long_out_channels_xy %s instead of %s", s.long_out_channels_xy, (nx, ny))
    check(tuple(s.unused_channels_xy) == (ix % fx, iy % fy), "unused_channels_xy %s", s.unused_channels_xy)
    check((tuple(s.in_channels_xy), tuple(s.field_channels_xy)) == ((ix, iy), (fx, fy)), "attributes of the geometry")
    got = fields(s, fx * fy * icd, icd)
    check(got == flds, "receptive fields %s instead of %s", got, flds)
    check((s.input_dim, s.output_dim) == (ix * iy * icd, len(flds) * fx * fy * icd), "dimensions")
    route(s, rng, flds, icd, ctx)
    # inner points are covered twice
    cnt = np.bincount([c for q in flds for c in q], minlength=ix * iy).reshape(iy, ix)
    inner = cnt[fy // 2:ny * fy - fy // 2, fx // 2:nx * fx - fx // 2]
    check((inner == 2).all(), "inner points are covered %s times", inner)
    ctx.nontrivial(len(flds) > 1)


def rhomb_fields(lx, ly, D):
    """Reference: the lattice points are (2i, 2j) (long rows) and (2i+1, 2j+1) (short rows).
    In the rotated coordinates u=(X+Y)/2, v=(Y-X)/2 a field is a DxD square."""
    def index(X, Y):
        if X % 2 != Y % 2 or X < 0 or Y < 0 or X > 2 * (lx - 1) or Y > 2 * (ly - 1):
            return None
        if Y % 2 == 0:
            return (Y // 2) * lx + X // 2
        return lx * ly + (Y // 2) * (lx - 1) + X // 2

    def fld(u0, v0):
        pts = sorted((u + v, u - v) for u in range(u0, u0 + D) for v in range(v0, v0 + D))   # (Y, X)
        r = [index(X, Y) for Y, X in pts]
        return None if None in r else r
    return fld


@sub(st.fixed_dictionaries({'long': pair(1, 12), 'D': st.sampled_from([2, 2, 4, 4, 6, 3]), 'icd': st.integers(1, 2), 'form': forms, 'seed': seeds, 'fit': st.lists(st.integers(0, 4), min_size=2, max_size=2),
                            'usefit': st.sampled_from([True, True, False]), 'bi': st.booleans()}), quick=1200, thorough=30000, rule="several output channels", shards=4)
def rhomb(case, ctx):
    D = case['D']
    lx, ly = case['long']
    if case['usefit'] and D % 2 == 0:
        a, b = case['fit']
        if a >= b:
            lx, ly = D + 1 + a * D // 2, D + b * D // 2
        else:
            lx, ly = D + a * D // 2, D + 1 + b * D // 2
    if case['form'] == 'int':
        ly = lx
    icd = case['icd']
    cls = bicls(DoubleRhomb2dSwitchboard) if case['bi'] else DoubleRhomb2dSwitchboard
    make = lambda: cls(long_in_channels_xy=lx if case['form'] == 'int' else xy([lx, ly], case['form']), diag_field_channels=D, in_channel_dim=icd)
    rng = rs(case['seed'])
    if D % 2:
        raises(SwitchboardException, make, "odd field size")
        return
    # the fields leave out half a channel at the border of the longer direction
    short = lx < ly
    rx = lx - D - (0 if short else 1)
    ry = ly - D - (1 if short else 0)
    if rx < 0 or ry < 0 or rx % (D // 2) or ry % (D // 2):
        raises(SwitchboardException, make, "incompatible geometry")
        ctx.label('refused')
        return
    s = make()
    nx, ny = 2 * rx // D + 1, 2 * ry // D + 1
    check(tuple(s.out_channels_xy) == (nx, ny), "out_channels_xy %s instead of %s", s.out_channels_xy, (nx, ny))
    check(tuple(s.long_in_channels_xy) == (lx, ly) and s.diag_field_channels == D, "attributes of the geometry")
    npts = lx * ly + (lx - 1) * (ly - 1)
    check((s.input_dim, s.output_dim) == (npts * icd, nx * ny * D * D * icd), "dimensions")
    got = fields(s, D * D * icd, icd)
    fld = rhomb_fields(lx, ly, D)
    # top corner of the first field
    X0, Y0 = (D - 1, 1) if short else (D, 0)
    want = []
    for y in range(ny):
        for x in range(nx):
            X, Y = X0 + x * D, Y0 + y * D
            u, v = (X + Y) // 2, (Y - X) // 2
            w = fld(u, v)
            check(w is not None, "the geometry does not fit (harness)")
            want.append(w)
    check(got == want, "receptive fields")
    route(s, rng, want, icd, ctx)
    # inner points, those surrounded by fields, are covered twice
    cnt = np.bincount([c for q in want for c in q], minlength=npts)
    check(cnt.max() <= 2, "a point is covered %d times", cnt.max())
    if nx > 2 and ny > 2:
        mid = want[nx * (ny // 2) + nx // 2]
        check((cnt[mid] == 2).all(), "inner points are covered %s times", cnt[mid])
    ctx.nontrivial(nx * ny > 1)


@sub(st.fixed_dictionaries({'image': pair(4, 16), 'layers': st.lists(st.tuples(st.sampled_from(['rect', 'drect', 'rhomb', 'chan']), pair(1, 4), pair(1, 3), st.sampled_from([None, True, False]), st.booleans(), st.integers(1, 3)), min_size=1, max_size=4),
                            'seed': seeds, 'bi': st.booleans()}), quick=800, thorough=20000, rule="at least two switchboards were built on top of each other", shards=4)
def factory(case, ctx):
    """Networks built by the switchboard factory fit together."""
    prev = hinet.get_2d_image_switchboard(tuple(case['image']))
    out = prev.output_dim
    rng = rs(case['seed'])
    x = rng.normal(size=(2, out))
    y = x
    made = 0
    with mdp.extension('switchboard_factory'):
        for kind, field, space, ignore, asint, cd in case['layers']:
            f = field[0] if asint else tuple(field)
            p = {}
            if kind == 'rect':
                cls, p = Rectangular2dSwitchboard, {'field_channels_xy': f, 'field_spacing_xy': space[0] if asint else tuple(space)}
                comp = (Rectangular2dSwitchboard, DoubleRhomb2dSwitchboard)
                check(set(cls.free_parameters) == {'field_channels_xy', 'field_spacing_xy', 'ignore_cover'}, "free parameters")
            elif kind == 'drect':
                cls, p = DoubleRect2dSwitchboard, {'field_channels_xy': 2 * f if asint else tuple(2 * v for v in f)}
                comp = (Rectangular2dSwitchboard, DoubleRhomb2dSwitchboard)
            elif kind == 'rhomb':
                cls, p = DoubleRhomb2dSwitchboard, {'field_size': 2 * field[0]}
                comp = (DoubleRect2dSwitchboard,)
            else:
                cls = ChannelSwitchboard
                comp = (ChannelSwitchboard,)
            if ignore is not None and kind in ('rect', 'drect'):
                p['ignore_cover'] = ignore
            # the layer in between maps every channel to cd components
            y = np.repeat(y.reshape(len(y), prev.output_channels, -1)[:, :, :1], cd, axis=2) * (1 + np.arange(cd))
            y = y.reshape(len(y), -1)
            pd = y.shape[1]
            if case['bi']:
                real = bicls(cls)
                make = lambda: real.create_switchboard(free_params=dict(p), prev_switchboard=prev, prev_output_dim=pd, node_id='n')
            else:
                real = cls
                make = lambda: real.create_switchboard(free_params=dict(p), prev_switchboard=prev, prev_output_dim=pd)
            if not isinstance(prev, comp):
                raises(SwitchboardException, make, "incompatible previous switchboard")
                ctx.label('incompatible')
                break
            # reference: the plain constructor
            if kind == 'rect':
                ref = lambda: cls(in_channels_xy=prev.out_channels_xy, in_channel_dim=cd, ignore_cover=p.get('ignore_cover', True), field_channels_xy=p['field_channels_xy'], field_spacing_xy=p['field_spacing_xy'])
            elif kind == 'drect':
                ref = lambda: cls(in_channels_xy=prev.out_channels_xy, in_channel_dim=cd, ignore_cover=p.get('ignore_cover', True), field_channels_xy=p['field_channels_xy'])
            elif kind == 'rhomb':
                ref = lambda: cls(long_in_channels_xy=prev.long_out_channels_xy, diag_field_channels=p['field_size'], in_channel_dim=cd)
            else:
                ref = lambda: cls(pd, list(range(pd)), out_channel_dim=pd, in_channel_dim=cd)
            try:
                r = ref()
            except SwitchboardException:
                raises(SwitchboardException, make, "geometry refused by the class")
                ctx.label('refused')
                break
            s = make()
            check(type(s) is real, "class %s", type(s).__name__)
            if case['bi']:
                check(s.node_id == 'n', "node_id")
            check(np.array_equal(s.connections, r.connections) and s.input_dim == r.input_dim == pd, "the factory built other connections")
            check((s.out_channel_dim, s.in_channel_dim, s.output_channels) == (r.out_channel_dim, r.in_channel_dim, r.output_channels), "channels")
            y = s.execute(y)
            prev = s
            made += 1
            if y.shape[1] > 3000:
                break
    check(not hasattr(Rectangular2dSwitchboard, 'create_switchboard'), "the extension is still active")
    ctx.nontrivial(made > 1)
    ctx.label('made %d' % made)


@sub(st.fixed_dictionaries({'x': st.integers(1, 9), 'y': st.integers(1, 9), 'seed': seeds}), quick=200, thorough=4000, rule="every case")
def coordinates(case, ctx):
    ctx.nontrivial()
    from mdp.hinet.switchboard import CoordinateTranslator
    w, h = case['x'], case['y']
    t = CoordinateTranslator(w, h)
    a = np.arange(w * h).reshape(h, w)
    for i in range(w * h):
        r, c = t.index_to_array(i)
        check(a[r, c] == i, "index_to_array")
        x, y = t.index_to_image(i)
        check((x, y) == (c, r) == tuple(t.array_to_image(r, c)), "index_to_image")
        check(t.image_to_index(x, y) == i == t.array_to_index(r, c), "indices")
        check(tuple(t.image_to_array(x, y)) == (r, c), "image_to_array")
    for f, bad in [(t.image_to_index, (w, 0)), (t.image_to_index, (0, h)), (t.image_to_index, (-1, 0)), (t.array_to_index, (h, 0)), (t.array_to_index, (0, w)), (t.array_to_index, (0, -1))]:
        raises(Exception, lambda: f(*bad), "coordinates out of range")
    for f in (t.index_to_array, t.index_to_image):
        raises(Exception, lambda: f(w * h), "index out of range")
        raises(Exception, lambda: f(-1), "index out of range")
