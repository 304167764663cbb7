"""C27: Cartesian and spherical coordinates denote the same points."""
import math

import numpy

import core
from goats.core import numerical

TURN = 2 * math.pi
SCALES = [1.0, 1e-6, 1e-3, 0.1, 10.0, 1.496e13, 6.96e10, 215.0]


def num(q):
    return q[0] / q[1]


def angle(a):
    """The angle of an exact point <<cos, sin>> of the unit circle."""
    return math.atan2(num(a[1]), num(a[0]))


def integral(v):
    return all(float(x).is_integer() for x in numpy.ravel(v))


def arrange(rng, columns, shape):
    """Three coordinates of one or more points, in one of the accepted forms."""
    if shape is None:
        values = [c[0] for c in columns]
        kind = rng.choice(['float', 'int', 'numpy'])
        if kind == 'int' and integral(values):
            values = [int(v) for v in values]
        elif kind == 'numpy':
            values = [numpy.float64(v) for v in values]
    else:
        values = [numpy.array(c, dtype=float).reshape(shape) for c in columns]
        if rng.random() < 0.3 and integral(columns):
            values = [v.astype(int) for v in values]
        if rng.random() < 0.15:
            values = [v.tolist() for v in values]
    form = rng.choice(['apart', 'tuple', 'list', 'array'])
    if form == 'apart':
        return values, values
    one = {'tuple': tuple, 'list': list, 'array': numpy.array}[form](values)
    return [one], values


def copies(values):
    return [numpy.array(v, copy=True) for v in values]


def close(a, b, scale):
    return abs(a - b) <= 1e-9 * scale


def convert(check, function, args, values, shape, what, case):
    before = copies(values)
    tag, got = core.outcome(function, *args)
    if tag == 'err':
        check.violation('every point has coordinates', f'{what} raised {got}', case=case)
        return None
    if any(not numpy.array_equal(a, b) for a, b in zip(before, copies(values))):
        check.violation('arguments are left alone', f'{what} changed its arguments', case=case)
    if not isinstance(got, tuple) or len(got) != 3:
        check.violation('three coordinates', f'{what} gave {got!r}', case=case)
        return None
    if any(numpy.shape(g) != (shape or ()) for g in got):
        check.violation('one result per point', f'{what} has shapes {[numpy.shape(g) for g in got]}', case=case)
        return None
    return [[float(v) for v in numpy.ravel(g)] for g in got]


def to_spherical(check, cases, k, shape):
    rng = check.rng
    points = [[k * num(v) for v in c['x']] for c in cases]
    if rng.random() < 0.2:
        points = [[-0.0 if v == 0 else v for v in p] for p in points]
    args, values = arrange(rng, list(zip(*points)), shape)
    what = f'xyz2rtp of {points[:3]}'
    got = convert(check, numerical.xyz2rtp, args, values, shape, what, [points, shape])
    if got is None:
        return
    for c, x, r, t, p in zip(cases, points, *got):
        wr, wt, wp = k * num(c['c'][0]), angle(c['c'][1]), angle(c['c'][2]) % TURN
        dp = abs(p - wp)
        if not close(r, wr, max(wr, 1e-6)) or abs(t - wt) > 1e-7 or min(dp, abs(TURN - dp)) > 1e-7 \
                or not -1e-7 <= p <= TURN + 1e-7:
            check.violation('spherical coordinates', f'{x} is (r, theta, phi) = {(r, t, p)}, expected {(wr, wt, wp)}',
                            case=[x, c['p']])
        check.count('to spherical')
    if shape is None:
        # and back
        tag, back = core.outcome(numerical.rtp2xyz, *[g[0] for g in got])
        scale = max(k * num(cases[0]['p'][0]), 1e-6)
        if tag == 'err' or any(abs(float(a) - b) > 1e-7 * scale for a, b in zip(back, points[0])):
            check.violation('round trip', f'{points[0]} -> {[g[0] for g in got]} -> {back}', case=points[0])


def to_cartesian(check, cases, k, shape):
    rng = check.rng
    triples = []
    for c in cases:
        r, t, f = rng.choice([c['p'], c['p'], c['c'], c['m']])
        turns = rng.choice([0, 0, 0, 1, -1, 2])
        triples.append([k * num(r), angle(t), angle(f) + turns * TURN])
    args, values = arrange(rng, list(zip(*triples)), shape)
    what = f'rtp2xyz of {triples[:3]}'
    got = convert(check, numerical.rtp2xyz, args, values, shape, what, [triples, shape])
    if got is None:
        return
    for c, given, *xyz in zip(cases, triples, *got):
        want = [k * num(v) for v in c['x']]
        scale = max(abs(given[0]), 1e-6)
        if not all(close(a, b, scale) for a, b in zip(xyz, want)):
            check.violation('Cartesian coordinates', f'(r, theta, phi) = {given} is {xyz}, expected {want}', case=given)
        if abs(given[0]) <= 1 and abs(given[2]) <= math.pi and not all(a == 0 for a, b in zip(xyz, want) if b == 0):
            check.violation('a vanishing coordinate is zero', f'(r, theta, phi) = {given} is {xyz}', case=given)
        check.count('to Cartesian')


def run(check):
    rng = check.rng
    out = check.tlc('CoordTable', 'CoordTableThorough.cfg' if check.thorough else 'CoordTable.cfg', timeout=3000, heap='4g')
    table = list(check.emitted(out))
    for c in table:
        k = rng.choice(SCALES)
        to_spherical(check, [c], k, None)
        to_cartesian(check, [c], k, None)
    shapes = [(1,), (2,), (3,), (7,), (2, 3), (3, 3), (1, 4), (2, 2, 2), (0,)]
    special = [c for c in table if any(v[0] == 0 for v in c['x'])]
    for _ in range(check.pick(3000, 30000)):
        shape = rng.choice(shapes)
        n = int(numpy.prod(shape))
        if n == 0:
            continue
        pool = rng.choice([table, special])
        cases = [rng.choice(pool) for _ in range(n)]
        k = rng.choice(SCALES)
        to_spherical(check, cases, k, shape)
        to_cartesian(check, cases, k, shape)
    for function in (numerical.xyz2rtp, numerical.rtp2xyz):
        for args in ([], [1.0, 2.0], [1.0, 2.0, 3.0, 4.0], [(1.0, 2.0)], [(1.0, 2.0, 3.0, 4.0)]):
            tag, got = core.outcome(function, *args)
            if tag == 'ok':
                check.violation('three coordinates are required', f'{function.__name__}{tuple(args)} gave {got!r}', case=args)
            check.count('refusals')
    check.validated += len(table)
    check.sample(table[len(table) // 2])
    check.assumptions += [
        'angles are compared to 1e-7, lengths to a relative 1e-9; distances below the floating-point resolution of 1 are not judged',
        'where an angle is undefined (the origin, the polar axis) the documented value is zero',
    ]
