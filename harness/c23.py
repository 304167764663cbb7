"""C23: species and physical constants are consistent in every notation."""
import math

import numpy

import core
import units
from goats.core import fundamental, metric, physical, plasma

RELATIONS = {
    'c1': lambda k: 2 * math.pi * k['h'] * k['c'] ** 2,
    'c2': lambda k: k['h'] * k['c'] / k['k'],
    'sigma': lambda k: 2 * math.pi ** 5 * k['k'] ** 4 / (15 * k['h'] ** 3 * k['c'] ** 2),
    'H+': lambda k: 13.6 * k['eV'],
}
MKS_ONLY = {
    'eV': lambda k: k['e'],
    'alpha': lambda k: k['e'] ** 2 / (2 * k['epsilon0'] * k['h'] * k['c']),
    'a0': lambda k: k['epsilon0'] * k['h'] ** 2 / (math.pi * k['me'] * k['e'] ** 2),
    're': lambda k: k['e'] ** 2 / (4 * math.pi * k['epsilon0'] * k['me'] * k['c'] ** 2),
    'Rinfinity': lambda k: k['alpha'] ** 2 * k['me'] * k['c'] / (2 * k['h']),
    'mu0': lambda k: 1 / (k['epsilon0'] * k['c'] ** 2),
}
CGS_ONLY = {
    'alpha': lambda k: 2 * math.pi * k['e'] ** 2 / (k['h'] * k['c']),
    're': lambda k: k['e'] ** 2 / (k['me'] * k['c'] ** 2),
    'a0': lambda k: (k['h'] / (2 * math.pi)) ** 2 / (k['me'] * k['e'] ** 2),
}


def species(check, table):
    rng = check.rng
    for t in table:
        el, q, symbol = t['element'], t['q'], t['symbol']
        mass = el['mass'] / 1e6
        case = [symbol]
        s = plasma.Species(symbol=symbol)
        order = ['mass', 'charge', 'symbol']
        rng.shuffle(order)
        got = {}
        for name in order:
            tag, got[name] = core.outcome(lambda: getattr(s, name))
            if tag == 'err':
                check.violation('a symbol gives mass and charge', f'{symbol} {name} raised {got[name]}', case=case)
                return
        if abs(float(got['mass']) - mass) > 1e-9 * mass or float(got['charge']) != q or got['symbol'] != symbol:
            check.violation('a symbol gives mass and charge', f'{symbol}: {got}, expected {mass} {q}', case=case)
        if float(s.m) != float(got['mass']) or float(s.q) != float(got['charge']):
            check.violation('short names of mass and charge', symbol, case=case)
        for name, unit in (('mass', 'nuc'), ('charge', 'e')):
            if metric.Unit(got[name].unit) != metric.Unit(unit):
                check.violation('units of mass and charge', f'{symbol}: {got[name]!r}', case=case)
        # back to the symbol, by every route
        real = float(got['mass'])
        noise = rng.choice([0.0, 0.0, 1e-7, -1e-7])
        charge = rng.choice([q, float(q), q + noise, numpy.float64(q), numpy.int64(q)])
        for name, f in {
                'elements': lambda: fundamental.elements([real], [charge])[0],
                'elements of scalars': lambda: fundamental.elements(real, charge)[0],
                'Species(mass, charge)': lambda: plasma.Species(mass=real, charge=charge).symbol}.items():
            tag, back = core.outcome(f)
            if tag == 'err' or back not in t['back']:
                check.violation('mass and charge give the symbol', f'{name}({real}, {charge}) gave {back}, expected {t["back"]}', case=case)
        check.count('species')
        rows = fundamental.ELEMENTS(symbol=el['symbol']), fundamental.ELEMENTS.find(el['name'], unique=True)
        if any(r['symbol'] != el['symbol'] or r.get('name') != el['name'] or abs(r['mass'] - mass) > 1e-9 * mass for r in rows):
            check.violation('elements table', f'{rows}', case=case)


def masses(check):
    """Arbitrary masses, singly and in lists, judged by the specification."""
    rng = check.rng
    cases = []
    for n in range(0, 275):
        for d in (0, rng.randrange(-480000, 480000)):
            if n * 10**6 + d >= 0:
                cases.append({'m': n * 10**6 + d, 'q': rng.randrange(-3, 4)})
    verdicts = check.evaluate('SpeciesCases', cases)
    known = []
    for c, v in zip(cases, verdicts):
        m = c['m'] / 1e6
        if c['m'] % 10**6 == 0 and rng.random() < 0.5:
            m = int(m)
        tag, got = core.outcome(fundamental.elements, [m], [c['q']])
        if (tag == 'err') != (not v['s']) or (tag == 'ok' and (len(got) != 1 or got[0] not in v['s'])):
            check.violation('a mass denotes its element or is refused', f'{m} {c["q"]}: {got}, expected {v["s"]}', case=c)
        if tag == 'err' and got != 'MassValueError':
            check.violation('a mass denotes its element or is refused', f'{m}: raised {got}', case=c)
        if v['s']:
            known.append((m, c['q'], v['s']))
        check.validated += 1
    for _ in range(check.pick(100, 1000)):
        pick = [rng.choice(known) for _ in range(rng.randrange(1, 5))]
        form = rng.choice([list, tuple, numpy.array])
        ms, qs = form([p[0] for p in pick]), form([p[1] for p in pick])
        tag, got = core.outcome(fundamental.elements, ms, qs)
        if tag == 'err' or len(got) != len(pick) or any(g not in p[2] for g, p in zip(got, pick)):
            check.violation('several species keep their order', f'{pick}: {got}', case=pick)
        tag, got = core.outcome(fundamental.elements, ms, form([1] * (len(pick) + rng.choice([1, 2]))))
        if tag == 'ok':
            check.violation('mismatched masses and charges are refused', f'{pick}: {got}', case=pick)
    for bad in ('Xx+', 'Q', '++'):
        tag, got = core.outcome(lambda: plasma.Species(symbol=bad).mass)
        if tag == 'ok':
            check.violation('an unknown symbol is refused', f'{bad}: {got}', case=bad)
    tag, got = core.outcome(plasma.Species)
    if tag == 'ok':
        check.violation('an undefined species is refused', repr(got))


def constants(check, gen, listed):
    """Each constant in each system against dimensions and reference values."""
    rng = check.rng
    quants = check.evaluate('UnitCases', [{'q': c['q']} for c in listed])
    want, jobs = {}, []
    for c, v in zip(listed, quants):
        ref = c['m'] * 10.0 ** c['e']
        want['mks', c['name']] = ref
        want['cgs', c['name']] = ref * units.value(v['factor'])
        for sys in ('mks', 'cgs'):
            k = physical.Constants(sys if rng.random() < 0.5 else sys.upper())
            tag, s = core.outcome(lambda: k[c['name']])
            if tag == 'err':
                check.violation('every constant is available', f"{c['name']} in {sys} raised {s}", case=c['name'])
                continue
            read, coef = gen.read(s.unit)
            if read is None:
                check.violation('the unit of a constant is known', f"{c['name']}: {s.unit}", case=c['name'])
                continue
            jobs.append((c['name'], sys, s, v, coef, {'a': read or [['', '1', 1, 1]]}))
    got = {}
    for (name, sys, s, v, coef, _), u in zip(jobs, check.evaluate('UnitCases', [j[-1] for j in jobs])):
        text = f'{name} in {sys} is {s}'
        if units.symbols(u[sys]) != units.symbols(v[sys]):
            check.violation('a constant has the dimensions of its quantity', f'{text}: {u[sys]}, expected {v[sys]}', case=name)
            continue
        size = units.value(u['s' + sys])
        got[sys, name] = float(s) * coef * size
        if not math.isclose(got[sys, name], want[sys, name], rel_tol=2e-3):
            check.violation('a constant denotes the same amount in every system', f'{text} = {got[sys, name]} coherent units, expected {want[sys, name]}', case=name)
        tag, same = core.outcome(lambda: metric.Quantity(fundamental.CONSTANTS[name]['quantity']).dimensions[sys])
        tag2, d = core.outcome(lambda: metric.Unit(s.unit).dimensions[sys])
        if tag == 'err' or tag2 == 'err' or not (str(same) == str(d) or same == d):
            check.violation('a constant has the dimensions of its quantity', f'{text}: stated quantity has {same}, unit has {d}', case=name)
        check.count('constants')
        check.validated += 1
    for sys, more in (('mks', MKS_ONLY), ('cgs', CGS_ONLY)):
        k = {n: got.get((sys, n), math.nan) for _, n in got}
        for n, f in {**RELATIONS, **more}.items():
            if not math.isclose(k[n], f(k), rel_tol=2e-3):
                check.violation('constants agree with each other', f'{n} in {sys}: {k[n]}, but {f(k)} from the others', case=n)
    names = {c['name'] for c in listed}
    for sys in ('mks', 'cgs'):
        k = physical.Constants(sys)
        if not names <= set(k) or len(k) != len(list(k)):
            check.violation('every constant is available', f'{sorted(names - set(k))}')
        tag, s = core.outcome(lambda: k['no such'])
        if tag == 'ok':
            check.violation('an unknown constant is refused', repr(s))
    for bad in ('si', 'imperial', 'natural', '', 'mk', 'mks2', 'gaussian'):
        def use(name):
            return physical.Constants(bad)[name]
        for name in sorted(names):
            if 'all' in fundamental.CONSTANTS.get(name, {}):
                continue
            tag, s = core.outcome(use, name)
            if tag == 'ok':
                check.violation('an unknown metric system is refused', f'{name} in {bad!r} is {s}', case=[bad, name])
        check.count('unknown systems')


def run(check):
    out = list(check.emitted(check.tlc('SpeciesTable')))
    table = [x for x in out if 'element' in x]
    listed = [x['constant'] for x in out if 'constant' in x]
    species(check, table)
    masses(check)
    gen = units.Generator(check)
    constants(check, gen, listed)
    check.validated += len(table)
    check.sample(table[40])
    check.assumptions += [
        'constants are compared with reference values to 2e-3 (they are given to five digits, and '
        'unit bridges use a rounded speed of light)',
        'elements of equal tabulated mass cannot be told apart',
    ]
