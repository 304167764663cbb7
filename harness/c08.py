"""C08: arithmetic on measured values obeys the rules of units."""
import fractions
import itertools

import quantities
import units
from goats.core import metric

Fr = fractions.Fraction
FRACS = [Fr(x) for x in ('1', '2', '3', '-2', '1/2', '-3/2', '5', '4', '9/4', '7', '-5/4', '10')]
UNITS = [
    [['', 'm', 1, 1]], [['c', 'm', 1, 1]], [['', 's', 1, 1]], [['', 'J', 1, 1]],
    [['k', 'm', 1, 1], ['', 's', -1, 1]], [], [['k', 'g', 1, 1], ['', 'm', 2, 1], ['', 's', -2, 1]],
    [['', 'm', 1, 2]], [['', 'rad', 1, 1]], [['n', 'T', 1, 1]], [['M', 'eV', 1, 1]],
]
EXPONENTS = ['2', '-1', '1/2', '3', '-2', '1', '3/2', '-1/2', '0']
BIN = list(quantities.FUNCS)
IBIN = list(quantities.IFUNCS)


def text(gen, e):
    return gen.render(e, None) if e else '1'


def register(check, gen, kind, unit, name='', n=None):
    rng = check.rng
    if n is None:
        n = rng.choice([1, 2, 2, 3])
    data = [rng.choice(FRACS) for _ in range(n if kind in quantities.MULTI else 1)]
    return {'kind': kind, 'unit': unit, 'text': text(gen, unit), 'name': name,
            'data': [[f.numerator, f.denominator] for f in data], 'how': rng.randrange(3)}


def number(check, f, left=False):
    rng = check.rng
    x = Fr(rng.choice(EXPONENTS)) if f == 'pow' and not left else rng.choice(FRACS)
    return {'num': [x.numerator, x.denominator], 'np': rng.random() < 0.3,
            'float': rng.random() < 0.5}


def singles(check, gen):
    """Every operator on every pair of kinds, with same and different units."""
    rng = check.rng
    out = []
    pairs = [(u, u) for u in UNITS[:6]] + [(UNITS[0], UNITS[1]), (UNITS[0], UNITS[2]),
                                           (UNITS[3], UNITS[6]), (UNITS[0], []), ([], UNITS[2]),
                                           (UNITS[7], UNITS[0])]
    reps = check.pick(1, 4)
    for a, b in itertools.product(quantities.KINDS, repeat=2):
        for f, place in [(f, 'bin') for f in BIN] + [(f, 'ibin') for f in IBIN]:
            for u, v in rng.sample(pairs, check.pick(4, len(pairs))) + [pairs[0]]:
                for _ in range(reps):
                    n = rng.choice([1, 2, 3])
                    m = n if rng.random() < 0.85 else rng.choice([1, 2, 3])
                    names = rng.choice([('', ''), ('', ''), ('a', 'a'), ('a', 'b'), ('a', '')])
                    i = [register(check, gen, a, u, names[0], n), register(check, gen, b, v, names[1], m)]
                    if rng.random() < 0.3:
                        i[1]['data'][:len(i[0]['data'])] = i[0]['data'][:len(i[1]['data'])]
                    out.append({'init': i, 'ops': [{'op': place, 'f': f, 'a': {'r': 1}, 'b': {'r': 2}, 'dst': 1, 'n': 1}]})
    for a in quantities.KINDS:
        for f in BIN:
            for _ in range(check.pick(6, 20)):
                u = rng.choice(UNITS)
                i = [register(check, gen, a, u, rng.choice(['', 'a']))]
                out.append({'init': i, 'ops': [
                    {'op': 'bin', 'f': f, 'a': {'r': 1}, 'b': number(check, f), 'dst': 1, 'n': 1}]})
                out.append({'init': i, 'ops': [
                    {'op': 'bin', 'f': f, 'a': number(check, f, True), 'b': {'r': 1}, 'dst': 1, 'n': 1}]})
                if f in IBIN:
                    out.append({'init': i, 'ops': [
                        {'op': 'ibin', 'f': f, 'a': {'r': 1}, 'b': number(check, f), 'dst': 1, 'n': 1}]})
        for f in quantities.UFUNCS:
            for _ in range(check.pick(5, 20)):
                out.append({'init': [register(check, gen, a, rng.choice(UNITS), rng.choice(['', 'a']))],
                            'ops': [{'op': 'un', 'f': f, 'a': {'r': 1}, 'dst': 1, 'n': 1}]})
    return out


def programs(check, gen, count, length):
    rng = check.rng
    out = []
    for _ in range(count):
        family = rng.choice([[k] for k in quantities.KINDS] + [['vector', 'scalar'], ['vector', 'scalar'], list(quantities.KINDS)])
        n = rng.choice([1, 2, 2, 3])
        us = rng.sample(UNITS, 2)
        if rng.random() < 0.3:
            us = [gen.expr(rng.choice([1, 2]), rng.choice(['mks', 'cgs']), 0), us[1]]
        init = [register(check, gen, rng.choice(family), rng.choice(us + us[:1]), rng.choice(['', '', 'a', 'b']), n)
                for _ in range(4)]
        ops = []
        for k in range(length):
            dst = rng.randint(1, 4)
            r = rng.random()
            a, b = {'r': rng.randint(1, 4)}, {'r': rng.randint(1, 4)}
            if r < 0.12:
                o = {'op': 'un', 'f': rng.choice(list(quantities.UFUNCS)[:7]), 'a': a, 'dst': dst}
            elif r < 0.32:
                f = rng.choice(IBIN)
                o = {'op': 'ibin', 'f': f, 'a': a, 'b': number(check, f) if rng.random() < 0.4 or f == 'pow' else b,
                     'dst': a['r']}
            else:
                f = rng.choice(BIN[:5] + BIN[:4] + BIN)
                o = {'op': 'bin', 'f': f, 'a': a, 'b': b, 'dst': dst}
                r = rng.random()
                if r < 0.3 or f == 'pow':
                    o['b'] = number(check, f)
                elif r < 0.4:
                    o['a'] = number(check, f, True)
            o['n'] = k
            ops.append(o)
        out.append({'init': init, 'ops': ops})
    return out


def run(check):
    gen = units.Generator(check)
    gen.bases = [b for b in gen.bases if b not in ('nuc', 'amu', 'ohm')]
    runner = quantities.Runner(check, gen)
    # units may exist already, in any of their classes
    for _ in range(40):
        metric.Unit(gen.render(gen.expr(2), None))
    for u in UNITS:
        if u and check.rng.random() < 0.6:
            metric.Unit(gen.render(u, None))
    quantities.judge(check, runner, singles(check, gen))
    progs = programs(check, gen, check.pick(400, 6000), check.pick(10, 14))
    quantities.judge(check, runner, progs)
    check.sample({'program': [o for o in progs[0]['ops'][:4]]})
    check.assumptions += [
        'numbers are small rationals; results are compared to a relative tolerance of 1e-9',
        'operations between different representations may be refused; if they give a result it must be right',
        'the zeroth power, division by zero and roots of negative numbers are left unspecified',
    ]
