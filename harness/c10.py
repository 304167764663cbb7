"""C10: measuring user input gives the stated values and unit, or an error."""
import numpy

import core
from goats.core import measurable
from goats.core import metadata
from goats.core import metric
from goats.core import physical

# ways of writing each unit of the model ('?' is not a unit)
TEXT = {
    'm': ['m', 'meter'], 's': ['s', 'second'], '1': ['1'], 'km': ['km', 'kilometer'],
    'J': ['J', 'joule'], 'cm': ['cm', 'centimeter'], 'm / s': ['m / s', 'm s^-1'],
    'kg m^2': ['kg * m^2', 'm^2 kg'], '?': ['furlong', 'xyz'], 'MeV': ['MeV'], 'nT': ['nT', 'nanotesla'],
    'deg': ['deg', 'degree'], 'd': ['d', 'day'], 'min': ['min', 'minute'], 'au': ['au'], 'K': ['K', 'kelvin'], 'Hz': ['Hz', 'hertz'],
    'eV': ['eV', 'electronvolt'], 'erg': ['erg'], 'e': ['e'], 'MHz': ['MHz'], 'mHz': ['mHz', 'millihertz'], 'Mm': ['Mm', 'megameter'],
    'mm': ['mm'], 'km / s': ['km / s', 'km s^-1'], 'cm^-3': ['cm^-3', '1 / cm^3'], 's^3 / km^6': ['s^3 / km^6', 's^3 km^-6'],
    'deg / s': ['deg / s', 'degree s^-1'], 'm^1/2': ['m^1/2', 'm^0.5'],
}
SAME = {t: u for u, ts in TEXT.items() for t in ts}


class Thing:
    """An object that measures itself."""

    def __init__(self, values, unit):
        self.values, self.unit = values, unit

    def __measure__(self):
        return measurable.Measurement(self.values, self.unit)


def spell(check, u, plain=False):
    rng = check.rng
    text = TEXT[u][0] if rng.random() < 0.7 else rng.choice(TEXT[u])
    r = rng.random()
    if plain or u == '?' or r < 0.7:
        return text
    return metadata.Unit(text) if r < 0.85 else metric.Unit(text)


def build(check, t, numbers):
    """The real input for a tree; its numbers are drawn from `numbers`."""
    rng = check.rng
    k = t['k']
    if k == 'num':
        return numbers.pop(0)
    if k == 'unit':
        return spell(check, t['u'])
    if k == 'none':
        return rng.choice([None, None, object(), {}])
    if k == 'thing':
        values = [numbers.pop(0) for _ in t['vs']]
        r = rng.random()
        unit = spell(check, t['u'], True)
        if r < 0.25:
            return Thing(values, unit)
        if len(values) == 1 and r < 0.6:
            return physical.Scalar(values[0], unit=unit)
        if r < 0.8:
            return physical.Vector(values, unit=unit)
        return physical.Array(values, unit=unit)
    items = [build(check, x, numbers) for x in t['s']]
    r = rng.random()
    if items and all(x['k'] == 'num' for x in t['s']) and r < 0.25:
        return numpy.array(items)
    return items if r < 0.6 else tuple(items)


def count(t):
    if t['k'] == 'num':
        return 1
    if t['k'] == 'thing':
        return len(t['vs'])
    return sum(count(x) for x in t.get('s', []))


def drawn(check, n):
    rng = check.rng
    kind = rng.choice(['int', 'float', 'mixed', 'numpy'])
    out = []
    for _ in range(n):
        v = rng.choice([0, 1, -2, 3, 10, 7]) if rng.random() < 0.5 else rng.randrange(-50, 50)
        if kind == 'float' or (kind == 'mixed' and rng.random() < 0.5):
            v = v / 4 + 0.5
        if kind == 'numpy':
            v = rng.choice([numpy.float64, numpy.int64, numpy.float32])(v)
        out.append(v)
    return out


def same(unit, u):
    return unit == TEXT[u][0]


def expect(check, t, m):
    values = drawn(check, count(t))
    given = build(check, t, list(values))
    seq = t['k'] == 'seq' and not isinstance(given, numpy.ndarray)
    calls = [('measure(x)', lambda: measurable.measure(given))]
    if seq and t['s']:
        calls.append(('measure(*x)', lambda: measurable.measure(*given)))
    case = {'tree': t, 'given': repr(given), 'expected': [m, repr(values)]}
    tag, can = core.outcome(measurable.ismeasurable, given)
    if tag == 'err':
        check.violation('asking whether something is measurable gives an answer', f'ismeasurable({given!r}) raised {can}', case=case)
        return
    for what, call in calls:
        tag, got = core.outcome(call)
        if (tag == 'ok') != bool(can):
            check.violation('measurable means it can be measured', f'{what} with x = {given!r}: {got!r}, but ismeasurable: {can}', case=case)
            continue
        if tag == 'err':
            if m['w'] == 'yes':
                check.violation('supported input is measured', f'{what} with x = {given!r} raised {got}', case=case)
            continue
        if m['w'] == 'no':
            check.violation('input without one clear reading is refused', f'{what} with x = {given!r} gave {got!r}', case=case)
            continue
        data = core.outcome(lambda: [float(v) for v in got.data])[1]
        if data != [float(v) for v in values]:
            check.violation('the stated numbers, in order', f'{what} with x = {given!r} gave {got!r}', case=case)
        elif not same(got.unit, m['u']):
            check.violation('the stated unit', f'{what} with x = {given!r} gave {got!r}, expected {m["u"]}', case=case)
        else:
            sequence(check, got, values, m['u'], case)
    scalar(check, given, m, values, case)
    check.count('measured')


def sequence(check, got, values, u, case):
    """A measurement is a sequence of (value, unit) pairs."""
    n = len(values)
    if len(got) != n:
        check.violation('a measurement has the length of its values', f'{got!r}: {len(got)}', case=case)
    i = check.rng.randrange(-n - 2, n + 2)
    tag, item = core.outcome(lambda: got[i])
    if (tag == 'ok') != (-n <= i < n):
        check.violation('an element of a measurement', f'{got!r}[{i}]: {item!r}', case=case)
    elif tag == 'ok' and (len(item) != 1 or float(item[0][0]) != float(values[i]) or not same(metadata.Unit(item[0][1]), u)):
        check.violation('an element of a measurement', f'{got!r}[{i}]: {item!r}', case=case)
    a, b = check.rng.randrange(-n, n + 1), check.rng.randrange(-n, n + 1)
    tag, part = core.outcome(lambda: got[a:b])
    if tag == 'err' or [float(v) for v, _ in part] != [float(v) for v in values[a:b]]:
        check.violation('an element of a measurement', f'{got!r}[{a}:{b}]: {part!r}', case=case)


def scalar(check, given, m, values, case):
    """A scalar can be made exactly of input with one value."""
    tag, got = core.outcome(physical.scalar, given)
    if m['w'] == 'open':
        return
    if (tag == 'ok') != (m['w'] == 'yes' and len(values) == 1):
        check.violation('a scalar is made of one value', f'scalar({given!r}): {tag} {got!r}', case=case)
    elif tag == 'ok' and (float(got) != float(values[0]) or not same(got.unit, m['u'])):
        check.violation('a scalar is made of one value', f'scalar({given!r}): {got!r}', case=case)


def tree(rng, depth):
    """A random input."""
    r = rng.random()
    if depth == 0 or r < 0.1:
        r = rng.random()
        if r < 0.55:
            return {'k': 'num', 'v': 0}
        if r < 0.8:
            return {'k': 'unit', 'u': rng.choice(list(TEXT))}
        if r < 0.83:
            return {'k': 'none'}
        return {'k': 'thing', 'vs': [0] * rng.choice([1, 1, 2, 3]), 'u': rng.choice([u for u in TEXT if u != '?'])}
    n = rng.choice([0, 1, 1, 2, 2, 3, 4, 6])
    if r < 0.4:    # numbers and a unit
        return {'k': 'seq', 's': [{'k': 'num', 'v': 0}] * n + [{'k': 'unit', 'u': rng.choice(list(TEXT))}]}
    if r < 0.65:   # several measurements in one unit
        u = rng.choice([x for x in TEXT if x != '?'])
        kids = []
        for _ in range(n):
            q = rng.random()
            if q < 0.15:
                kids.append({'k': 'thing', 'vs': [0] * rng.choice([1, 2]), 'u': u})
            elif q < 0.3:
                kids.append({'k': 'seq', 's': [{'k': 'seq', 's': [{'k': 'num', 'v': 0}] * rng.choice([1, 2, 3])}, {'k': 'unit', 'u': u}]})
            else:
                kids.append({'k': 'seq', 's': [{'k': 'num', 'v': 0}] * rng.choice([1, 1, 2]) + [{'k': 'unit', 'u': u}]})
        if rng.random() < 0.2:
            kids.append(tree(rng, 1))
        return {'k': 'seq', 's': kids}
    return {'k': 'seq', 's': [tree(rng, depth - 1) for _ in range(n)]}


def run(check):
    rng = check.rng
    out = check.tlc('MeasureTable', 'MeasureTable.cfg' if not check.thorough else 'MeasureTableThorough.cfg',
                    heap='6g', timeout=3000)
    table = list(check.emitted(out))
    for c in table:
        expect(check, c['t'], c['m'])
    check.validated += len(table)
    trees = [tree(rng, rng.choice([1, 2, 3, 4])) for _ in range(check.pick(6000, 60000))]
    for t, m in zip(trees, check.evaluate('MeasureCases', trees, heap='6g', timeout=1800)):
        expect(check, t, m)
        if m['w'] == 'yes':
            check.count('random inputs that are measurable')
        check.validated += 1
    check.sample(table[len(table) // 2])
    check.sample(trees[0])
    check.assumptions += [
        'numbers nested more deeply than a pair of values and unit may be refused, but must not be misread',
        'one-shot iterators and sets are not given',
    ]
