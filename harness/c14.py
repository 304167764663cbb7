"""C14: interpolated values are linear between neighbours, exact on the grid."""
import numpy

import core
from goats.core import interpolation


def split(k, rng):
    """Arrange k columns over zero or more trailing axes (some of length 1)."""
    shape = []
    while k > 1:
        f = rng.choice([d for d in range(2, k + 1) if k % d == 0])
        shape.append(f)
        k //= f
    for _ in range(rng.choice([0, 0, 1, 2])):
        shape.insert(rng.randrange(len(shape) + 1), 1)
    return tuple(shape)


def replay(check, lanes, ts, two, expected):
    """lanes: [(grid, [column...])]; expected[lane][target][column] as float."""
    rng = check.rng
    k = len(lanes[0][1])
    trailing = split(k, rng)
    a, b = rng.choice([(1.0, 0.0), (0.5, 2.0), (-1.0, 0.25), (0.125, -7.0),
                       (2.0**-60, 0.0), (2.0**40, 0.0), (2.0**-24, 1.0), (-2.0**-80, 0.0)])
    grid = numpy.array([g for g, _ in lanes], dtype=float) * a + b
    data = numpy.array([v for _, v in lanes], dtype=float)          # (lane, column, position)
    data = numpy.moveaxis(data, 1, 2)                               # (lane, position, column)
    data = data.reshape(data.shape[:2] + trailing)
    want = numpy.array(expected, dtype=float).reshape((len(lanes), len(ts)) + trailing)
    targets = [t * a + b for t in ts]
    if rng.random() < 0.5:
        targets = numpy.array(targets)
    data = data.astype(rng.choice([float, float, int, 'f4']))
    if not two:
        grid, data, want = grid[0], data[0], want[0]
    kw = {'axis': 1 if two else 0}
    if rng.random() < 0.25:
        kw = {} if rng.random() < 0.5 else {'axis': None}
    before = data.copy(), grid.copy()
    tag, got = core.outcome(interpolation.apply, data, grid, targets, **kw)
    what = f'apply(data{list(data.shape)}, grid={grid.tolist()}, targets={list(targets)}, {kw})'
    case = [lanes, list(ts), two]
    if tag == 'err':
        check.violation('interpolation inside the grid gives an answer', f'{what} raised {got}', case=case)
        return
    if numpy.shape(got) != want.shape:
        check.violation('other axes keep their extents', f'{what} has shape {numpy.shape(got)}, expected {want.shape}', case=case)
        return
    if not numpy.allclose(got, want, rtol=1e-9, atol=1e-9):
        check.violation('interpolated value', f'{what} gave {numpy.asarray(got).tolist()}, expected {want.tolist()} for data {data.tolist()}', case=case)
    if not (numpy.array_equal(before[0], data) and numpy.array_equal(before[1], grid)):
        check.violation('inputs are left alone', what, case=case)
    check.count('interpolations')


def blend(x, v):
    w = x['w'][0] / x['w'][1]
    return w * v[x['hi'] - 1] + (1 - w) * v[x['lo'] - 1]


def run(check):
    rng = check.rng
    out = check.tlc('InterpTable', 'InterpTableThorough.cfg' if check.thorough else 'InterpTable.cfg',
                    heap='6g', timeout=3000)
    table = [c for c in check.emitted(out) if c['ok']]
    lookup = {core.canon([c['g'], c['t']]): c for c in table}

    def column(n):
        return [rng.randrange(-50, 50) for _ in range(n)]

    def expected(lanes, ts):
        return [[[blend(lookup[core.canon([g, t])], v) for v in vs] for t in ts] for g, vs in lanes]

    # every grid and target on its own, as a one- and a two-dimensional grid
    by = {}
    for c in table:
        by.setdefault((len(c['g']), c['t']), []).append(c['g'])
    for c in table:
        if len(c['g']) == 1:
            continue
        k = rng.choice([1, 1, 2, 4])
        lanes = [(c['g'], [column(len(c['g'])) for _ in range(k)])]
        for two in (False, True):
            replay(check, lanes, [c['t']], two, expected(lanes, [c['t']]))
    # several lanes and several targets
    grids = {}
    for c in table:
        if len(c['g']) > 1:
            grids.setdefault(len(c['g']), set()).add(tuple(c['g']))
    grids = {n: sorted(s) for n, s in grids.items()}
    done = 0
    while done < check.pick(1500, 20000):
        n = rng.choice(sorted(grids))
        m = rng.choice([1, 2, 3, 5])
        k = rng.choice([1, 2, 3, 6])
        lanes = [(list(rng.choice(grids[n])), [column(n) for _ in range(k)]) for _ in range(m)]
        common = [t for t in range(0, 40) if all(core.canon([g, t]) in lookup for g, _ in lanes)]
        if not common:
            continue
        ts = [rng.choice(common) for _ in range(rng.choice([1, 2, 3, 5]))]
        replay(check, lanes, ts, m > 1 or rng.random() < 0.3, expected(lanes, ts))
        done += 1
    # larger cases, evaluated in full by the specification
    cases = []
    for _ in range(check.pick(250, 3000)):
        n = rng.choice([2, 5, 9, 20])
        m = rng.choice([1, 1, 2, 4])
        k = rng.choice([1, 2, 4])
        lanes = []
        for _ in range(m):
            inner = sorted(rng.sample(range(5, 95), n - 2)) if n > 2 else []
            g = [rng.randrange(-5, 5)] + inner + [rng.randrange(95, 105)]
            lanes.append({'g': g, 'v': [column(n) for _ in range(k)]})
        if rng.random() < 0.35:
            for l in lanes:
                l['g'].reverse()
        ts = [rng.randrange(5, 95) for _ in range(rng.choice([1, 3, 6]))]
        if rng.random() < 0.5:
            inside = [x for x in rng.choice(lanes)['g'] if 5 <= x < 95]
            if inside:
                ts[rng.randrange(len(ts))] = rng.choice(inside)
        cases.append({'lanes': lanes, 'ts': ts})
    for c, v in zip(cases, check.evaluate('InterpCases', cases)):
        if not v['ok']:
            raise core.MachineryError('generated case outside its grid')
        want = [[[x[0] / x[1] for x in t] for t in l] for l in v['out']]
        replay(check, [(l['g'], l['v']) for l in c['lanes']], c['ts'],
               len(c['lanes']) > 1 or rng.random() < 0.3, want)
        check.validated += 1
    check.validated += len(table)
    check.sample(table[len(table) // 2])
    check.assumptions += [
        'targets lie within every lane\'s grid, which is strictly increasing or decreasing',
        'values compared to 1e-9',
    ]
