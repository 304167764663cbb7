"""C11: subscripting an array quantity."""
import numpy

import arrays
import core
from goats.core import physical, variable


def convert(rng, unit):
    """A change of one length symbol of a unit (or None)."""
    have = sorted({b for b, n, d in unit if b in arrays.LENGTHS})
    if not have:
        return None
    a = rng.choice(have)
    return a, rng.choice([b for b in arrays.LENGTHS if b != a])


def program(rng, kind, length):
    """Selections, conversions, copies and reads on three registers."""
    nd = None if kind == 'variable' else rng.sample(arrays.AXES, rng.choice([1, 2, 2, 3]))
    regs = [arrays.array(rng, dims=nd, values='distinct') for _ in range(2)]
    regs.append(dict(regs[0]))
    shapes = [list(x['shape']) for x in regs]
    unit = [list(x['unit']) for x in regs]
    ops = []
    for _ in range(length):
        a, dst = rng.randrange(3), rng.choice([0, 1, 2, 3])
        o = {'a': a + 1, 'dst': dst}
        r = rng.random()
        if r < 0.6:
            o.update(op='select', ix=arrays.indices(rng, shapes[a]))
            if kind == 'physical':
                o['dst'] = 0    # which axes remain is judged separately
            elif dst:
                n = shapes[a]
                ix = o['ix']
                ok = len([x for x in ix if x['k'] != 'dots']) <= len(n) and len([x for x in ix if x['k'] == 'dots']) < 2
                if ok:
                    full, lead = [], [x for x in ix]
                    at = next((j for j, x in enumerate(ix) if x['k'] == 'dots'), len(ix))
                    fill = len(n) - len([x for x in ix if x['k'] != 'dots'])
                    full = ix[:at] + [{'k': 'slice', 'a': [], 'b': [], 's': []}] * fill + ix[at + 1:]
                    new = []
                    for x, m in zip(full, n):
                        if x['k'] == 'int':
                            ok &= -m <= x['i'] < m
                            new.append(1)
                        elif x['k'] == 'seq':
                            ok &= all(-m <= i < m for i in x['s'])
                            new.append(len(x['s']))
                        else:
                            new.append(len(range(*slice(*[p[0] if p else None for p in (x['a'], x['b'], x['s'])]).indices(m))))
                    if ok:
                        shapes[dst - 1] = new
                        unit[dst - 1] = unit[a]
                if not ok:
                    o['dst'] = 0
        elif r < 0.8 and convert(rng, unit[a]):
            f, t = convert(rng, unit[a])
            new = []
            for b, n, d in unit[a]:
                new.append([t if b == f else b, n, d])
            o.update({'op': 'convert', 'from': f, 'to': t, 'text': arrays.text(new)})
            if dst:
                unit[dst - 1], shapes[dst - 1] = new, shapes[a]
        elif r < 0.9:
            o.update(op='read', dst=0)
        else:
            o.update(op='copy')
            if dst:
                unit[dst - 1], shapes[dst - 1] = unit[a], shapes[a]
        ops.append(o)
    return {'regs': regs, 'ops': ops, 'quiet': rng.random() < 0.5, 'disk': [kind == 'variable' and rng.random() < 0.4 for _ in range(3)]}


def table(check, d):
    """Every subscript of the menu, on arrays in memory and on disk."""
    rng = check.rng
    out = check.tlc('SelectTable', f'SelectTable{d}.cfg', heap='6g', timeout=3000)
    rows = list(check.emitted(out))
    by = {}
    for r in rows:
        by.setdefault(tuple(r['shape']), []).append(r)
    for shape, rs in sorted(by.items()):
        size = int(numpy.prod(shape))
        x = {'dims': ['t', 'r', 'e'][:d], 'shape': list(shape), 'data': [[k + 1, 1] for k in range(size)], 'e10': 0, 'unit': [['m', 1, 1]]}
        disk = arrays.Disk(check)
        disk.add(x)
        disk.open()
        data = numpy.array(arrays.numbers(x)).reshape(shape)
        loaded = variable.Quantity(disk.source(0), dimensions=x['dims'], unit='m')
        numpy.array(loaded)
        kinds = [('in memory', variable.Quantity(data, dimensions=x['dims'], unit='m')),
                 ('a list', variable.Quantity(data.tolist(), dimensions=x['dims'], unit='m')),
                 ('on disk', variable.Quantity(disk.source(0), dimensions=x['dims'], unit='m')),
                 ('loaded from disk', loaded),
                 ('converted', variable.Quantity(1e-3 * data, dimensions=x['dims'], unit='km')['m']),
                 ('physical', physical.Array(data, unit='m'))]
        if d == 1:
            kinds += [('a vector', physical.Vector(data, unit='m')),
                      ('a converted vector', physical.Vector(1e-3 * data, unit='km')['m'])]
        for r in rs:
            key = arrays.subscript(check, r['user'])
            y = dict(r['y'], unit=x['unit'], dims=x['dims'])
            for name, q in kinds if check.thorough or d == 1 else rng.sample(kinds, 2):
                tag, got = core.outcome(lambda: q[key])
                kind = 'physical' if name == 'physical' else 'variable'
                bad = None
                if (tag == 'ok') != r['ok']:
                    bad = f'{tag} {got!r}'
                elif tag == 'ok' and 'vector' in name:
                    items = list(got) if isinstance(got, (list, tuple, physical.Vector)) else [got]
                    if [round(float(v), 9) for v in items] != arrays.numbers(y) or any(not v.unit == 'm' for v in items):
                        bad = f'{got!r}'
                elif tag == 'ok':
                    bad = arrays.agrees(got, y, kind)
                if bad:
                    check.violation('a subscript selects exactly those positions', f'{shape} array ({name}) [{key!r}]: {bad}',
                                    case={'shape': shape, 'user': r['user'], 'source': name})
                check.count('subscripts')
        disk.close()
    check.validated += len(rows)
    check.sample(rows[len(rows) // 2])


def run(check):
    rng = check.rng
    table(check, 1)
    table(check, 2)
    for kind, n, length in [('variable', check.pick(600, 6000), 8), ('physical', check.pick(150, 1500), 5)]:
        progs = [program(rng, kind, length) for _ in range(n)]
        judged = check.evaluate('ArrayCases', progs, heap='6g', timeout=1800)
        arrays.run(check, progs, judged, kind, 'a subscript selects exactly those positions')
    check.sample(progs[0]['ops'][:3])
    check.assumptions += [
        'arrays without named axes may drop axes that are selected with an integer; they are compared without axes of length one',
        'boolean masks and new axes (None) are not judged',
    ]
