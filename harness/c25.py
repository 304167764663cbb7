"""C25: axes turn any selection into positions and values, in any unit."""
import numpy

import core
import observe
from goats import eprem
from goats.core import axis, datafile, index, physical

NAMES = {'time': observe.ALIASES['time'], 'energy': observe.ALIASES['egrid'], 'shell': observe.ALIASES['shell'],
         'mu': observe.ALIASES['mu'], 'species': ['species']}
SYSTEM_UNIT = {'time': {'mks': 's', 'cgs': 's'}, 'energy': {'mks': 'J', 'cgs': 'erg'}, 'mu': {'mks': '1', 'cgs': '1'}}
BAD_UNIT = {'time': 'm', 'energy': 's', 'mu': 'km'}
NOTHING = object()


class Views:
    """The axes of one dataset in one metric system, and views of them."""

    def __init__(self, w, data, system):
        self.w, self.data, self.system = w, data, system
        self.observer = eprem.Stream(0, source=data.path, config='eprem_input_file', system=system)
        self.axes = self.observer.context.axes
        if w.rng.random() < 0.5:
            given = {} if system == 'mks' and w.rng.random() < 0.5 else {'system': system}
            self.axes = eprem.Axes(datafile.Interface(self.observer.datapath), **given)
        self.held = []

    def view(self, a):
        """An axis, possibly seen in another unit: (axis, unit text, history)."""
        rng = self.w.rng
        old = [v for v in self.held if v[0] == a]
        if old and rng.random() < 0.4:
            _, q, unit, how = rng.choice(old)
        else:
            name = rng.choice(NAMES[a])
            q, unit, how = self.axes[name], SYSTEM_UNIT[a][self.system], f'{self.system} axes[{name!r}]'
        while rng.random() < 0.4:
            if rng.random() < 0.3:
                to = rng.choice(['mks', 'cgs', 'MKS', 'CGS'])
                q, unit, how = q[to], SYSTEM_UNIT[a][to.lower()], f'{how}[{to!r}]'
            else:
                to = rng.choice(self.w.maker.UNITS[a])[0]
                q, unit, how = q[to], to, f'{how}[{to!r}]'
        self.held.append((a, q, unit, how))
        if len(self.held) > 12:
            self.held.pop(rng.randrange(len(self.held)))
        return q, unit, how


def unit_si(w, a, unit):
    return dict(w.maker.UNITS[a], J=1.0, erg=1e-7, s=1.0)[unit] if unit != '1' else 1.0


def arguments(w, a, data, x, unit):
    """The selection as arguments of an axis: (args, how values are given)."""
    rng = w.rng
    k = x['k']
    if k == 'all':
        return ()
    if k == 'at':
        return tuple(rng.choice([int, int, numpy.int64])(i) for i in x['i'])
    if k == 'slice':
        s = slice(*((v[0] if v else None) for v in (x['a'], x['b'], x['s'])))
        r = range(*s.indices(999))
        if x['a'] and x['b'] and min(x['a'][0], x['b'][0]) >= 0 and rng.random() < 0.3 and max(x['a'][0], x['b'][0]) <= x['n'] and not (x['s'] and x['s'][0] < 0):
            return (r,)
        return (s,)
    step = data.step_si[a]
    form = rng.choice(['bare', 'unit', 'pairs', 'scalars'] if a != 'mu' else ['bare', 'unit'])
    if form == 'bare':
        return tuple(float(t * step / unit_si(w, a, unit)) for t in x['t'])
    u, f = rng.choice(w.maker.UNITS[a])
    vals = [float(t * step / f) for t in x['t']]
    if form == 'unit':
        return (*vals, u)
    if form == 'pairs':
        return tuple((v, u) for v in vals)
    return tuple(physical.Scalar(v, unit=u) for v in vals)


def judge(check, w, label, a, data, want, unit, tag, got):
    """Compare an index quantity with the specification's answer."""
    if not want['ok']:
        if tag == 'ok':
            check.violation('a selection outside the axis is refused', f'{label} gave {list(got)}')
        return
    if tag == 'err':
        check.violation('a selection on the axis gives an answer', f'{label} raised {got}')
        return
    n = len(want['points'])
    points = [int(i) for i in got]
    size = data if isinstance(data, int) else data.sizes[a]
    if len(got) != n or any((p + size if p < 0 else p) not in set(s) for p, s in zip(points, want['points'])):
        check.violation('positions of a selection', f'{label} gave {points}, expected {want["points"]}')
        return
    if [int(got[i]) for i in range(n)] != points:
        check.violation('positions of a selection', f'{label}: items {[got[i] for i in range(n)]}')
    values(check, w, label, a, data, want['values'], unit, got)


def values(check, w, label, a, data, steps, unit, got):
    if a == 'plain':
        if [int(v) for v in got.values] != steps or got.unit is not None:
            check.violation('values of a selection', f'{label} gave {list(got.values)}')
        return
    if a == 'species':
        if [str(v) for v in got.values] != steps or got.unit is not None:
            check.violation('values of a selection', f'{label} gave {list(got.values)}, expected {steps}')
        return
    if not observe.same_unit(w.si, got.unit, unit):
        check.violation('unit of a selection', f'{label} is in {str(got.unit)!r}, expected {unit!r}')
        return
    want = numpy.array(steps) * data.step_si[a] / unit_si(w, a, unit)
    vals = numpy.array(got.values, dtype=float).ravel()
    if vals.shape != want.shape or not numpy.allclose(vals, want, rtol=1e-9, atol=0):
        check.violation('values of a selection', f'{label} gave {vals.tolist()} {unit}, expected {want.tolist()}')


def references(check, w, v, rng):
    """The full axes, as axis references and as attributes of the observer."""
    data, s = v.data, v.observer
    for a in ('time', 'energy', 'mu'):
        grid = data.energy[0] if a == 'energy' else data.grid(a)
        q, unit, how = v.view(a)
        refs = [(f'{how}.reference', q.reference, unit), (f'{v.system} observer.{a}', getattr(s, a), SYSTEM_UNIT[a][v.system])]
        for label, ref, unit in refs:
            before = numpy.array(ref).copy()
            chain = [(label, ref, unit)]
            for _ in range(rng.randrange(3)):
                to = rng.choice([u for u, _ in w.maker.UNITS[a]] + ['mks', 'cgs'])
                label = f'{label}[{to!r}]'
                chain.append((label, chain[-1][1][to], SYSTEM_UNIT[a].get(to) or to))
            for label, ref, unit in chain:
                values(check, w, label, a, data, grid, unit, ref)
                arr = numpy.array(ref)
                if list(ref[0:len(grid)]) != list(range(len(grid))) or int(ref[len(grid) - 1]) != len(grid) - 1 or len(ref) != len(grid):
                    check.violation('positions of the full axis', f'{label}: {list(ref)}')
                if arr.shape != (len(grid),) or not numpy.array_equal(arr, numpy.array(ref.values)):
                    check.violation('the array of an axis holds its values', f'{label}: {arr}')
                check.count('full axes')
            tag, got = core.outcome(lambda: chain[-1][1][BAD_UNIT[a]])
            if tag == 'ok':
                check.violation('an inconsistent unit is refused', f'{label}[{BAD_UNIT[a]!r}] gave {got!r}')
            if not numpy.array_equal(before, numpy.array(chain[0][1])):
                check.violation('changing the unit of axis values leaves the original alone', label)
        tag, got = core.outcome(lambda: q[BAD_UNIT[a]])
        if tag == 'ok':
            check.violation('an inconsistent unit is refused', f'{how}[{BAD_UNIT[a]!r}] gave {got!r}')
    names = [str(i) for i in numpy.array(s.species)]
    if names != data.symbols or list(s.species) != list(range(len(names))):
        check.violation('the species of an observer', f'{names}, expected {data.symbols}')
    shells = numpy.array(s.shell).tolist()
    if shells != list(range(data.sizes['shell'])):
        check.violation('the shells of an observer', f'{shells}')
    for a, k, unit in (('radius', 'R', {'mks': 'm', 'cgs': 'cm'}[v.system]), ('theta', 'T', 'rad'), ('phi', 'P', 'rad')):
        x = getattr(s, a)
        if not observe.same_unit(w.si, x.unit, unit) or list(x.dimensions) != ['time', 'shell']:
            check.violation('the coordinates of an observer', f'{v.system} observer.{a}: {x.unit} over {list(x.dimensions)}')
        elif not numpy.allclose(numpy.array(x) * w.si.parse(unit)[0], data.si[k], rtol=1e-9, atol=0):
            check.violation('the coordinates of an observer', f'{v.system} observer.{a}: {numpy.array(x)}')
    for how, q in (('species', v.axes['species']), ('plain', axis.Quantity(axis.indexer(3)))):
        for bad in ('m', 'mks'):
            tag, got = core.outcome(lambda: q[bad])
            if tag == 'ok':
                check.violation('an axis without a unit takes none', f'{how} axis[{bad!r}] gave {got!r}')


def select(check, w, v, a, x, want, species=None):
    """One selection on one axis."""
    rng = check.rng
    q, unit, how = v.view(a)
    kw = {}
    if rng.random() < 0.2:
        unit = rng.choice(w.maker.UNITS[a])[0]
        kw['unit'] = unit
    args = arguments(w, a, v.data, x, unit)
    if species is not None and (species or rng.random() < 0.5):
        kw['species'] = rng.choice([species, v.data.symbols[species], numpy.int64(species)])
    label = f'{how}.index({", ".join([*map(repr, args), *(f"{k}={u!r}" for k, u in kw.items())])})'
    tag, got = core.outcome(lambda: q.index(*args, **kw))
    judge(check, w, label, a, v.data, want, unit, tag, got)
    check.count('selections')


def table(check, w):
    """Every selection of the model, on a real axis with the same grid."""
    rng = check.rng
    out = check.tlc('AxisTable', check.pick(None, 'AxisTableThorough.cfg'))
    byg = {}
    for row in check.emitted(out):
        if row['x']['k'] == 'slice':
            if not row['r']['points']:
                continue                     # an empty slice: not specified
            row['x']['n'] = len(row['g'])
        byg.setdefault(tuple(row['g']), {})[core.canon(row['x'])] = row
    for g in sorted(byg):
        n = len(g)
        other = [x + 3 for x in g]
        grids = {'time': list(g), 'mu': list(g), 'energy': [other, list(g)],
                 'radius': [[10 * i + 5 for i in range(1, 3)] for _ in g]}
        data = w.dataset(sizes={'time': n, 'shell': 2, 'energy': n, 'mu': n}, species=[0, 1], grids=grids)
        v = Views(w, data, rng.choice(['mks', 'cgs']))
        plain = axis.Quantity(axis.indexer(n))
        rows = [byg[g][k] for k in sorted(byg[g])]
        if not check.thorough:
            rows = rng.sample(rows, min(len(rows), 140))
        for row in rows:
            x, want = row['x'], row['r']
            a = rng.choice(['time', 'mu', 'energy'])
            select(check, w, v, a, x, want, species=1 if a == 'energy' else None)
            if x['k'] != 'val' and not (x['k'] == 'at' and min(x['i']) < 0):
                args = arguments(w, 'plain', data, x, None)
                tag, got = core.outcome(lambda: plain.index(*args))
                w2 = dict(want, values=[p[0] for p in want['points']]) if want['ok'] else want
                judge(check, w, f'plain axis of {n}: index{args!r}', 'plain', n, w2, None, tag, got)
            check.validated += 1


def run(check):
    rng = check.rng
    w = observe.World(check)
    table(check, w)
    cases, plans = [], []
    for _ in range(check.pick(10, 80)):
        data = w.dataset(sizes={'time': rng.choice([1, 2, 4, 6]), 'shell': rng.choice([1, 3, 5]),
                                'energy': rng.choice([1, 2, 3, 5]), 'mu': rng.choice([1, 2, 4])})
        v = Views(w, data, rng.choice(['mks', 'cgs']))
        references(check, w, v, rng)
        for _ in range(check.pick(40, 80)):
            a = rng.choice(['time', 'mu', 'energy', 'species', 'shell'])
            n = data.sizes[a]
            species = rng.randrange(len(data.symbols)) if a == 'energy' else None
            grid = data.symbols if a == 'species' else list(range(n)) if a == 'shell' else data.grid(a, species or 0)
            kind = rng.choice(['all', 'at', 'slice', 'val', 'val'])
            if a == 'species' and rng.random() < 0.7:
                e = [['n', rng.choice(data.symbols + ['X', 'He', 'H++'] * (rng.random() < 0.2))] if rng.random() < 0.7 else
                     ['i', rng.randrange(-n, n)] for _ in range(rng.choice([1, 1, 2, 3]))]
                x = {'k': 'name', 'e': e}
            elif kind == 'all':
                x = {'k': 'all'}
            elif kind == 'at' or kind == 'val' and a in ('species', 'shell'):
                hi = n + (rng.random() < 0.15 and a != 'shell')
                x = {'k': 'at', 'i': [rng.randrange(-n if a != 'shell' else 0, hi) for _ in range(rng.choice([1, 2, 4]))]}
            elif kind == 'slice':
                o = lambda: [] if rng.random() < 0.3 else [rng.randrange(-n - 1, n + 2)]
                x = {'k': 'slice', 'a': o(), 'b': o(), 's': rng.choice([[], [], [1], [2], [-1], [-2], [3]]), 'n': n}
            else:
                x = {'k': 'val', 't': [rng.choice(grid) if rng.random() < 0.3 else rng.randrange(min(grid) - 20, max(grid) + 20)
                                       for _ in range(rng.choice([1, 2, 3]))]}
            cases.append({'g': grid, 'x': x})
            plans.append((v, a, x, species))
    verdicts = check.evaluate('AxisCases', cases)
    for (v, a, x, species), verdict in zip(plans, verdicts):
        want = verdict['r']
        if x['k'] == 'slice' and not want['points']:
            check.count('not judged')
            continue
        if a in SYSTEM_UNIT:
            select(check, w, v, a, x, want, species=species)
        else:
            q = v.axes[rng.choice(NAMES[a])]
            args = tuple(e[1] for e in x['e']) if x['k'] == 'name' else arguments(w, a, v.data, x, None)
            label = f'{v.system} axes[{a!r}].index{args!r}'
            tag, got = core.outcome(lambda: q.index(*args))
            judge(check, w, label, 'species' if a == 'species' else 'shell', v.data, want, '1', tag, got) if a == 'species' else \
                shells(check, label, v.data, want, tag, got)
        check.validated += 1
    tag, got = core.outcome(lambda: index.Data([0, 1.5]))
    if tag == 'ok':
        check.violation('positions are whole numbers', f'index.Data([0, 1.5]) gave {got}')
    check.sample({'case': cases[0], 'verdict': verdicts[0]})


def shells(check, label, data, want, tag, got):
    if tag == 'err' or [int(i) for i in got] != [p[0] for p in want['points']] or [int(i) for i in got.values] != want['values']:
        check.violation('positions of a selection', f'{label} gave {got if tag == "err" else list(got)}, expected {want}')
