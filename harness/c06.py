"""C06: conversion factors against spec/Units.tla."""
import math

import units
from core import outcome


def factor(check, gen, s, t, v, case, label=''):
    """Check every route to the factor that turns numbers in s to numbers in t."""
    from goats.core import metric
    want, pinned = units.value(v['f']), units.value(v['fp'])
    if want is None:
        return
    routes = {
        'Unit(b) // Unit(a)': lambda: metric.Unit(t) // metric.Unit(s),
        'conversion(a, b)': lambda: metric.conversion(s, t, strict=True),
        'b // text a': lambda: metric.Unit(t) // s,
        'text b // a': lambda: t // metric.Unit(s),
        'conversion of objects': lambda: metric.conversion(metric.Unit(s), metric.Unit(t), strict=True),
    }
    for name, f in routes.items():
        tag, got = outcome(f)
        ok = tag == 'ok' and math.isclose(got, want, rel_tol=units.TOL)
        if not ok:
            key = None
            if v['v'] != v['vp'] and tag == 'err' and got == 'UnitConversionError':
                key = 'ohm-dimension'
            check.violation('factor', f'{label}{name} with a={s!r}, b={t!r} gave {got}, expected {want!r}',
                            case=case, key=key)
            return
    check.validated += 1
    check.count('factors')


def run(check):
    gen = units.Generator(check)
    cases = []
    # every pair of named units of one quantity, with and without prefixes
    for a in gen.bases:
        for b in gen.bases:
            if gen.quantity[a] == gen.quantity[b] or dimensionless(gen, a, b):
                for n in range(check.pick(2, 8)):
                    p = '' if n == 0 else gen.term(a, prefixed=0.8)[0]
                    q = '' if n == 0 else gen.term(b, prefixed=0.8)[0]
                    cases.append(([[p, a, 1, 1]], [[q, b, 1, 1]]))
    # all bases against one coherent expression of their quantity
    for b, ways in units.EXPAND.items():
        for w in ways:
            cases.append(([[gen.term(b)[0], b, 1, 1]],
                          units.merge([[gen.term(x)[0], x, k if isinstance(k, int) else k.numerator,
                                        1 if isinstance(k, int) else k.denominator] for x, k in w])))
    for _ in range(check.pick(900, 8000)):
        e = gen.expr()
        cases.append((e, gen.alternative(e)))
    cases.append(([['', 'ohm', 1, 1]], [['', 'V', 1, 1], ['', 'A', -1, 1]]))
    check.rng.shuffle(cases)
    verdicts = check.evaluate('UnitCases', [{'a': a, 'b': b} for a, b in cases], workers=1)
    done = []
    for (a, b), v in zip(cases, verdicts):
        if v['v'] != 'yes':
            continue
        s, t = gen.render(a, None), gen.render(b, None)
        factor(check, gen, s, t, v, [a, b])
        done.append((a, b, s, t, v))
    # again, in another order and with the caches filled, both ways round
    check.rng.shuffle(done)
    inverse(check, done[:check.pick(300, 3000)])
    lookalikes(check, gen)
    nuclear(check, gen)
    paths(check, gen)
    quantities(check, gen)
    arithmetic(check, gen)
    check.sample({'from': s, 'to': t, 'verdict': v['v']})
    check.assumptions += [
        'products of units that no single metric system admits are left unspecified',
        'factors are compared to a relative tolerance of 1e-9',
        'the values of the electron charge, astronomical unit, atomic mass unit and speed of light '
        'are those the package documents',
    ]


def dimensionless(gen, a, b):
    q = {'number', 'plane angle', 'solid angle', 'identity'}
    return gen.quantity[a] in q and gen.quantity[b] in q


def inverse(check, done):
    from goats.core import metric
    for a, b, s, t, v in done:
        tag, got = outcome(lambda: (metric.Unit(t) // s) * (metric.Unit(s) // t))
        want = units.value(v['f'])
        if want is None or tag != 'ok':
            continue  # already judged above
        if not math.isclose(got, 1.0, rel_tol=units.TOL):
            check.violation('there and back', f'{s!r} to {t!r} and back multiplies by {got}')
        tag, back = outcome(lambda: metric.Unit(s) // t)
        if tag != 'ok' or not math.isclose(back * want, 1.0, rel_tol=units.TOL):
            check.violation('there and back', f'{t!r} to {s!r} gave {back}, expected {1 / want}')
        if metric.Unit(s) // s != 1.0:
            check.violation('identity', f'{s!r} to itself is not one')
        check.count('inverses')


def lookalikes(check, gen):
    """Units whose words differ only in letter case, or by a swap of letters, each to one target."""
    groups = {}
    for p, b in gen.rows:
        if b not in gen.bases:
            continue
        for w in {gen.word(p, b) for _ in range(3)}:
            groups.setdefault(''.join(sorted(w.lower())), set()).add((w, p, b))
    cases = []
    for words in groups.values():
        for q in {gen.quantity[b] for _, _, b in words}:
            alike = sorted(x for x in words if gen.quantity[x[2]] == q)
            if len({x[1:] for x in alike}) > 1:
                to = check.rng.choice([b for b in gen.bases if gen.quantity[b] == q])
                cases += [(w, p, b, to) for w, p, b in alike]
    check.rng.shuffle(cases)
    verdicts = check.evaluate('UnitCases', [{'a': [[p, b, 1, 1]], 'b': [['', to, 1, 1]]} for _, p, b, to in cases])
    for (w, p, b, to), v in zip(cases, verdicts):
        if v['v'] == 'yes':
            factor(check, gen, w, gen.word('', to), v, [w, to], 'among look-alikes: ')
            check.count('look-alikes')


def nuclear(check, gen):
    """The masses of a nucleon and of the atomic mass unit."""
    from goats.core import metric
    for a in ('nuc', 'amu'):
        for p in ('', 'k', 'M'):
            for q in ('', 'k', 'm') if not p else ('k',):
                want = 1.6605e-27 * float(f"1e{gen.rows[p, a]['ten']}") * 1e3 / float(f"1e{gen.rows[q, 'g']['ten']}")
                s, t = gen.word(p, a), gen.word(q, 'g')
                tag, got = outcome(metric.conversion, s, t, strict=True)
                tag2, back = outcome(metric.conversion, t, s, strict=True)
                if tag != 'ok' or tag2 != 'ok' or not math.isclose(got, want, rel_tol=units.TOL) \
                        or not math.isclose(back * want, 1.0, rel_tol=units.TOL):
                    check.violation('factor', f'{s!r} to {t!r} is {got}, back {back}; expected {want}')
                check.count('factors')


def paths(check, gen):
    """Going through intermediate units gives the same total factor."""
    from goats.core import metric
    chains = []
    for _ in range(check.pick(150, 1500)):
        e = gen.expr(system=check.rng.choice(['mks', 'cgs']))
        n = check.rng.choice([3, 4])
        chains.append([e] + [gen.alternative(e) for _ in range(n)])
    legs = [(c[i], c[j]) for c in chains for i in range(len(c)) for j in range(len(c)) if j == i + 1 or (i == 0 and j == len(c) - 1)]
    verdicts = iter(check.evaluate('UnitCases', [{'a': a, 'b': b} for a, b in legs]))
    index = {id(c): [next(verdicts) for i in range(len(c)) for j in range(len(c))
                     if j == i + 1 or (i == 0 and j == len(c) - 1)] for c in chains}
    for c in chains:
        if any(v['v'] != 'yes' or v['vp'] != 'yes' for v in index[id(c)]):
            continue
        texts = [gen.render(e, None) for e in c]
        tag, legs_ = outcome(lambda: [metric.conversion(s, t, strict=True) for s, t in zip(texts, texts[1:])])
        tag2, direct = outcome(metric.conversion, texts[0], texts[-1], strict=True)
        if tag != 'ok' or tag2 != 'ok':
            check.violation('factor', f'conversion along {texts} refused: {legs_} {direct}')
            continue
        total = math.prod(legs_)
        if 1e-290 < abs(total) < 1e290 and not math.isclose(total, direct, rel_tol=1e-8):
            check.violation('path', f'{texts}: {total} along the path, {direct} directly')
        check.count('paths')


def quantities(check, gen):
    """metric.Quantity(q).convert(...).to(...) between systems and units."""
    from goats.core import metric
    names = [q for q in metric.System('mks')]
    cases = [{'q': [[q, 1, 1]]} for q in QUANTITIES]
    verdicts = check.evaluate('UnitCases', cases)
    if not set(QUANTITIES) <= set(names):
        check.violation('quantities', f'missing {set(QUANTITIES) - set(names)}')
    for q, v in zip(QUANTITIES, verdicts):
        if not v['known']:
            continue
        want = units.value(v['factor'])
        for a, b, w in (('mks', 'cgs', want), ('cgs', 'mks', 1 / want), ('mks', 'mks', 1.0), ('cgs', 'cgs', 1.0)):
            tag, got = outcome(lambda: metric.Quantity(q).convert(a).to(b))
            if tag != 'ok' or not math.isclose(got, w, rel_tol=units.TOL):
                check.violation('factor', f'{q} from {a} to {b} is {got}, expected {w}')
            check.count('quantity_factors')
        # named units of the quantity
        for b in [x for x in gen.bases if gen.quantity[x] == q]:
            t = gen.term(b)
            text = gen.word(t[0], b)
            tag, f = outcome(lambda: metric.Quantity(q).convert(text).to(gen.word('', b)))
            w = float(f"1e{gen.rows[t[0], b]['ten']}")
            if tag != 'ok' or not math.isclose(f, w, rel_tol=units.TOL):
                check.violation('factor', f'{q} from {text} to {b} is {f}, expected {w}')


def arithmetic(check, gen):
    """Products, quotients and powers of unit objects keep the physical size."""
    from goats.core import metric
    rng = check.rng
    cases, info = [], []
    for _ in range(check.pick(500, 4000)):
        a, b = gen.expr(rng.choice([1, 1, 2])), gen.expr(rng.choice([1, 1, 2]))
        op = rng.choice(['*', '/', '**', 'rmul'])
        s, t = gen.render(a, None), gen.render(b, None)
        if op in ('*', 'rmul'):
            want = units.merge(a + b)
            tag, got = outcome(lambda: metric.Unit(s) * (metric.Unit(t) if op == '*' else t))
        elif op == '/':
            want = units.merge(a + [[p, x, -n, d] for p, x, n, d in b])
            tag, got = outcome(lambda: metric.Unit(s) / (metric.Unit(t) if rng.random() < 0.5 else t))
        else:
            k = rng.choice([2, 3, -1, -2])
            t = k
            want = units.merge([[p, x, n * k, d] for p, x, n, d in a])
            tag, got = outcome(lambda: metric.Unit(s) ** k)
        if tag != 'ok':
            check.violation('unit algebra', f'{s!r} {op} {t!r} raised {got}')
            continue
        read, coef = gen.read(got)
        if read is None:
            check.violation('unit algebra', f'{s!r} {op} {t!r} gave {got}, which has unknown names')
            continue
        cases.append({'a': want or [['', '1', 1, 1]], 'b': read})
        info.append((s, op, t, got, coef))
    for v, (s, op, t, got, coef) in zip(check.evaluate('UnitCases', cases), info):
        check.count('unit_products')
        want = units.value(v['f'])
        if v['mixed'] or v['v'] == 'open' or want is None:
            continue
        if v['v'] != 'yes' or not math.isclose(coef, want, rel_tol=units.TOL):
            key = 'ohm-dimension' if v['vp'] == 'yes' and math.isclose(coef, units.value(v['fp']), rel_tol=units.TOL) else None
            check.violation('unit algebra', f'{s!r} {op} {t!r} gave {got}: size off by {coef / want} or other dimensions',
                            key=key)


QUANTITIES = [
    'identity', 'number', 'ratio', 'mass number', 'plane angle', 'solid angle', 'amount', 'temperature',
    'luminous intensity', 'luminous flux', 'illuminance', 'length', 'mass', 'time', 'area', 'volume', 'wavenumber',
    'number density', 'velocity', 'speed', 'acceleration', 'frequency', 'vorticity', 'radioactivity', 'force', 'energy',
    'work', 'power', 'pressure', 'energy density', 'power density', 'momentum', 'momentum density', 'mass density',
    'viscosity', 'dosage', 'thermal conductivity', 'particle distribution', 'particle fluence', 'fluence',
    'particle flux', 'flux', 'integral flux', 'current', 'magnetomotance', 'charge', 'electric charge',
    'charge density', 'current density', 'polarization', 'displacement', 'potential', 'electromotance',
    'electric field', 'capacitance', 'conductance', 'conductivity', 'impedance', 'resistance', 'resistivity',
    'inductance', 'induction', 'magnetic induction', 'magnetic field', 'magnetic flux', 'magnetic intensity',
    'magnetization', 'magnetic moment', 'permeability', 'permittivity', 'reluctance', 'vector potential']
