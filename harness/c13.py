"""C13: grid searches return the nearest or bracketing points."""
import itertools

import numpy

import core
from goats.core import numerical

BOUNDS = {'none': None, 'lower': 'lower', 'upper': 'upper'}


def scaled(check, values):
    """A harmless increasing affine map (exact in binary)."""
    rng = check.rng
    if rng.random() < 0.2:  # grids whose neighbours are relatively close
        return rng.choice([(2.0 ** -30, 1), (2.0 ** -20, 2459000.5), (2.0 ** -25, -3000)])
    return rng.choice([0.5, 1, 2.0, 0.125]), rng.choice([0, -3, 0.25, 8])


def typed(check, arr):
    """The same numbers in another exact representation."""
    rng = check.rng
    kinds = [float]
    if numpy.all(arr == numpy.rint(arr)):
        kinds += [int, int]
    if numpy.all(arr == arr.astype('f4')):
        kinds.append('f4')
    return arr.astype(rng.choice(kinds))


def shape_of(n, rng):
    """A random way to arrange n values over several axes."""
    shapes = [(n,)]
    for a in range(1, n + 1):
        if n % a == 0:
            shapes.append((a, n // a))
            for b in range(1, n // a + 1):
                if (n // a) % b == 0:
                    shapes.append((a, b, n // a // b))
    return rng.choice(shapes[1:]) if len(shapes) > 1 else shapes[0]


def flat_position(index, shape):
    """The 1-based position that a reported index denotes."""
    if len(shape) == 1:
        i = int(index)
        n = shape[0]
        return (i + n if i < 0 else i) + 1 if -n <= i < n else None
    if len(index) != len(shape):
        return None
    try:
        return int(numpy.ravel_multi_index(tuple(int(i) for i in index), shape)) + 1
    except (ValueError, TypeError):
        return None


def nearest(check, case, multi):
    rng = check.rng
    g, t = case['g'], case['t']
    a, b = scaled(check, g)
    values = [a * x + b for x in g]
    target = a * t + b
    shape = shape_of(len(g), rng) if multi else (len(g),)
    given = typed(check, numpy.array(values, dtype=float)).reshape(shape)
    form = rng.choice(['array', 'list', 'tuple'])
    arg = given if form == 'array' else given.tolist() if form == 'list' else tuple(given.tolist())
    before = numpy.array(given)
    for name, bound in BOUNDS.items():
        args = [arg, target]
        kw = {}
        if bound is not None or rng.random() < 0.2:
            if rng.random() < 0.5:
                kw['bound'] = bound
            else:
                args.append(bound)
        tag, got = core.outcome(numerical.find_nearest, *args, **kw)
        what = f'find_nearest({given.tolist()}, {target}, bound={bound!r})'
        if tag == 'err':
            check.violation('search gives an answer', f'{what} raised {got}', case=[g, t, name])
            continue
        want = case[name]
        i = flat_position(got.index, shape)
        if i not in want:
            check.violation('nearest', f'{what} gave index {got.index}, allowed {[k - 1 for k in want]} of the flat array', case=[g, t, name, list(shape)])
        elif float(got.value) != float(values[i - 1]):
            check.violation('nearest', f'{what} gave value {got.value} at {got.index}', case=[g, t, name, list(shape)])
        check.count('searches')
    if not numpy.array_equal(before, given):
        check.violation('the array is not changed', str(g), case=[g, t])


def bracket(check, lanes, n, t, lookup):
    """Bracket t along one axis of an array made of the given lanes."""
    rng = check.rng
    a, b = scaled(check, lanes)
    m = len(lanes)
    other = shape_of(m, rng) if m > 1 and rng.random() < 0.5 else (m,)
    if m == 1 and rng.random() < 0.7:
        other = ()
    arr = numpy.array([[a * x + b for x in l] for l in lanes], dtype=float).reshape(other + (n,))
    axis = rng.randrange(len(other) + 1)
    arr = numpy.moveaxis(typed(check, arr), -1, axis)
    given = axis if rng.random() < 0.5 else axis - arr.ndim
    kw = {'axis': given}
    if given == -1 and rng.random() < 0.5:
        kw = {}
    arg = arr if rng.random() < 0.7 else arr.tolist()
    target = a * t + b
    tag, got = core.outcome(numerical.get_bounding_indices, arg, target, **kw)
    what = f'get_bounding_indices({arr.tolist()}, {target}, {kw})'
    if tag == 'err':
        check.violation('bracketing gives an answer', f'{what} raised {got}', case=[lanes, t, kw])
        return
    want = list(arr.shape)
    want[axis] = 2
    if list(numpy.shape(got)) != want:
        check.violation('bracket shape', f'{what} has shape {numpy.shape(got)}', case=[lanes, t, kw])
        return
    pairs = numpy.moveaxis(numpy.asarray(got), axis, -1).reshape(m, 2)
    for l, p in zip(lanes, pairs):
        allowed = lookup[core.canon([l, t])]['brackets']
        if [int(p[0]) + 1, int(p[1]) + 1] not in allowed:
            check.violation('bracket', f'{what}: {p.tolist()} for {[a * x + b for x in l]}, allowed (from 1) {allowed}',
                            case=[lanes, t, kw])
    check.count('brackets')


def run(check):
    rng = check.rng
    out = check.tlc('GridTable', 'GridTable.cfg' if not check.thorough else 'GridTableThorough.cfg',
                    heap='6g', timeout=3000)
    table = list(check.emitted(out))
    lookup = {core.canon([c['g'], c['t']]): c for c in table}
    for c in table:
        nearest(check, c, False)
        if len(c['g']) > 1:
            nearest(check, c, True)
    # every monotone lane alone, then mixed lanes along any axis
    by = {}
    for c in table:
        if c['brackets']:
            by.setdefault((len(c['g']), c['t']), []).append(c['g'])
    for (n, t), lanes in sorted(by.items()):
        for l in lanes:
            bracket(check, [l], n, t, lookup)
        for _ in range(check.pick(20, 200)):
            bracket(check, [rng.choice(lanes) for _ in range(rng.choice([2, 3, 4, 6]))], n, t, lookup)
    # longer sequences, judged one by one by the specification
    cases = []
    for _ in range(check.pick(400, 4000)):
        n = rng.choice([5, 7, 12, 30, 60])
        top = rng.choice([6, 40, 400])
        g = [rng.randrange(0, top) * 2 for _ in range(n)]
        r = rng.random()
        if r < 0.7:
            g.sort(reverse=r < 0.35)
        cases.append({'g': g, 't': rng.choice([rng.randrange(-3, 2 * top + 3), rng.choice(g)])})
    for c, v in zip(cases, check.evaluate('GridCases', cases)):
        v.update(c)
        nearest(check, v, rng.random() < 0.5)
        if v['brackets']:
            bracket(check, [v['g']], len(v['g']), v['t'], {core.canon([v['g'], v['t']]): v})
        check.validated += 1
    check.validated += len(table)
    check.sample({k: table[len(table) // 2][k] for k in ('g', 't', 'none', 'brackets')})
    check.assumptions += [
        'when no element lies on the requested side, the closest element overall is expected',
        'bracketing is judged for monotone grids; grids with undefined values (NaN) are not judged',
    ]
