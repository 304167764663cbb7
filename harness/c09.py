"""C09: changing a unit rescales a view and never the quantity."""
import math

import c08
import quantities
import units
from goats.core import metadata, metric

KINDS = quantities.KINDS + ('index',)


def target(check, gen, e):
    """A unit to convert to: mostly consistent with e."""
    rng = check.rng
    r = rng.random()
    if r < 0.15:
        return gen.expr(rng.choice([1, 2]), None, 0)
    if r < 0.3 or not e:
        return e
    out = []
    for p, b, n, d in e:
        if rng.random() < 0.35:
            out.append([p, b, n, d])
            continue
        q = gen.quantity[b]
        same = [x for x in gen.bases if gen.quantity[x] == q]
        t = gen.term(rng.choice(same))
        out.append([t[0], t[1], n, d])
    return units.merge(out)


def history(check, gen, kinds, length):
    rng = check.rng
    us = [gen.expr(rng.choice([1, 1, 2, 3]), rng.choice(['mks', 'cgs', None]), 0)
          if rng.random() < 0.6 else rng.choice(c08.UNITS) for _ in range(2)]
    pool = list(us)
    for u in us:
        pool += [target(check, gen, u) for _ in range(4)]
    n = rng.choice([1, 2, 3, 4])
    init = []
    for _ in range(3):
        kind = rng.choice(kinds)
        r = c08.register(check, gen, kind, rng.choice(us), rng.choice(['', 'a']), n)
        if kind in ('array', 'variable') and rng.random() < 0.4:
            r['how'] = 3
        init.append(r)
    # how long each register is, as far as the generator knows
    kind = [i['kind'] for i in init]
    size = [len(i['data']) for i in init]
    ops = []
    for k in range(length):
        a = rng.randrange(3)
        dst = rng.randrange(3)
        r = rng.random()
        o = {'a': {'r': a + 1}, 'n': k}
        if r < 0.42:
            u = rng.choice(pool)
            o.update(op='conv', u=u, text=c08.text(gen, u), obj=rng.random() < 0.25,
                     mobj=rng.random() < 0.1)
        elif r < 0.55:
            o.update(op='sys', s=rng.choice(['mks', 'cgs']), upper=rng.random() < 0.2)
        elif r < 0.7:
            o.update(op='read')
        elif r < 0.78:
            o.update(op='copy')
        elif kind[a] == 'index':
            o.update(op='read')
        elif r < 0.88 and kind[a] in ('vector', 'array'):
            neg = rng.random() < 0.4
            k = rng.randint(1, size[a]) if rng.random() < 0.8 else 0 if neg else size[a] + 1
            o.update(op='item', k=k, neg=neg)
        elif r < 0.93 and kind[a] in ('array', 'variable'):
            i = rng.randint(1, size[a])
            j = rng.randint(i, size[a])
            o.update(op='pick', ks=list(range(i, j + 1)), index=[i - 1, j], slice=True)
        elif r < 0.96:
            o.update(op='bin', f='mul', b=c08.number(check, 'mul'))
        else:
            o.update(op='un', f='neg')
        if o['op'] == 'item' or rng.random() < 0.55:
            # keep the generator's idea of kinds simple: only like for like
            if o['op'] in ('conv', 'sys', 'copy', 'bin', 'un') and kind[dst] == kind[a] and size[dst] == size[a]:
                o['dst'] = dst + 1
            elif o['op'] == 'pick' and len(o['ks']) == size[dst] and kind[dst] == kind[a]:
                o['dst'] = dst + 1
        ops.append(o)
    return {'init': init, 'ops': ops, 'views': True, 'quiet': rng.random() < 0.5}


def identity(check, gen):
    """The same unit gives an equal object; the original is never touched."""
    rng = check.rng
    for kind in KINDS:
        for _ in range(check.pick(12, 60)):
            e = gen.expr(rng.choice([1, 2]), rng.choice(['mks', 'cgs']), 0)
            r = c08.register(check, gen, kind, e, '', 2)
            x = quantities.build(kind, r['data'], r['text'], '', r['how'])
            case = [kind, r['text']]
            for again in (r['text'], gen.render(e, None)):
                y = x[again]
                # another writing of the unit may be converted, with rounding
                close = all(math.isclose(p, q, rel_tol=1e-12) for p, q in zip(quantities.numbers_of(y), quantities.numbers_of(x)))
                if again == r['text'] and kind != 'index' and not (y == x):
                    check.violation('the same unit gives an equal object', f'{case}: {y!r} != {x!r}', case=case)
                if not close or not (y.unit == x.unit):
                    check.violation('the same unit gives an equal object', f'{case}: {y!r}', case=case)
            check.count('identities')


def run(check):
    gen = units.Generator(check)
    gen.bases = [b for b in gen.bases if b not in ('nuc', 'amu', 'ohm')]
    runner = quantities.Runner(check, gen)
    for _ in range(40):
        metric.Unit(gen.render(gen.expr(2), None))
    progs = []
    for k in KINDS:
        progs += [history(check, gen, [k], check.pick(10, 14)) for _ in range(check.pick(110, 1500))]
    progs += [history(check, gen, KINDS, 10) for _ in range(check.pick(60, 800))]
    quantities.judge(check, runner, progs)
    identity(check, gen)
    check.sample({'history': progs[0]['ops'][:4]})
    check.assumptions += [
        'numbers are compared to a relative tolerance of 1e-9',
        'units that no single metric system admits, and bridges between systems that the package '
        'leaves undefined, are not judged',
    ]
