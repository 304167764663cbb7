"""C07: convertibility, dimensions and coherent system units (spec/Units.tla)."""
import fractions
import math

import units
from c06 import QUANTITIES
from core import outcome

Fr = fractions.Fraction


def run(check):
    gen = units.Generator(check)
    convertibility(check, gen)
    dimensions(check, gen)
    quantities(check, gen)
    check.assumptions += [
        'a unit that no single metric system admits has no specified dimensions or system unit',
        'pairs linked only by a bridge between systems (capacitance and length, nucleon and kilogram) '
        'may or may not convert',
    ]


def convertibility(check, gen):
    from goats.core import metric
    cases = []
    names = gen.bases + ['1']
    for a in names:  # every pair of named units
        for b in names:
            cases.append(([[gen.term(a, prefixed=0.3)[0] if a != '1' else '', a, 1, 1]],
                          [[gen.term(b, prefixed=0.3)[0] if b != '1' else '', b, 1, 1]]))
    for _ in range(check.pick(900, 8000)):
        e = gen.expr()
        cases.append((e, gen.rng.choice([gen.alternative, gen.perturbed, gen.perturbed])(e)))
    verdicts = check.evaluate('UnitCases', [{'a': a, 'b': b} for a, b in cases])
    for (a, b), v in zip(cases, verdicts):
        check.count('pairs_' + v['v'])
        if v['v'] == 'open':
            continue
        s, t = gen.render(a, None), gen.render(b, None)
        want, pinned = v['v'] == 'yes', v['vp'] == 'yes'
        got = {}
        for name, f in {
                'convert': lambda: metric.Unit(t) // metric.Unit(s) > 0,
                'conversion': lambda: metric.conversion(s, t) is not None,
                '|': lambda: metric.Unit(s) | metric.Unit(t),
                'text |': lambda: s | metric.Unit(t)}.items():
            tag, x = outcome(f)
            if tag == 'err' and x == 'UnitConversionError':
                x = False
            elif tag == 'err':
                x = f'raised {x}'
            got[name] = x
        if any(x is not want for x in got.values()):
            key = 'ohm-dimension' if v['v'] != v['vp'] and (
                v['vp'] == 'open' or all(x is pinned for x in got.values())) else None
            check.violation('convertibility', f'{s!r} and {t!r}: {got}, expected {want}', case=[a, b], key=key)
        else:
            check.validated += 1
    check.sample({'pair': [s, t], 'verdict': v['v']})


def dims_of(expression):
    """{base dimension: exponent} of a real Dimension expression or text."""
    from goats.core import symbolic
    return {t.base: Fr(t.exponent).limit_denominator(1000)
            for t in symbolic.Expression(expression) if t.base != '1'}


def same_dims(got, want):
    tag, d = outcome(dims_of, got) if got is not None else ('err', None)
    return tag == 'ok' and d == units.symbols(want)


def ohmic(v):
    return v['mks'] != v['mksp']


def coherent(check, gen, system, unit, v, what, case):
    """Is `unit` (a real unit) the coherent unit of dimensions v[system]?"""
    read, coef = gen.read(unit)
    if read is None:
        check.violation('system unit', f'{what} is {unit}, which has unknown names', case=case)
        return None
    return {'a': read or [['', '1', 1, 1]]}, coef


def dimensions(check, gen):
    from goats.core import metric
    rng = check.rng
    exprs = [[[gen.term(b, prefixed=0.7)[0], b, 1, 1]] for b in gen.bases]
    exprs += [gen.expr(system=rng.choice(['mks', 'cgs', None])) for _ in range(check.pick(700, 6000))]
    verdicts = check.evaluate('UnitCases', [{'a': e} for e in exprs])
    second = []
    for e, v in zip(exprs, verdicts):
        s = gen.render(e, None)
        tag, u = outcome(metric.Unit, s)
        if tag != 'ok':
            check.violation('creation', f'Unit({s!r}) raised {u}')
            continue
        for sys in v['sys']:
            tag, d = outcome(lambda: u.dimensions[sys])
            check.count('dimensions')
            if tag != 'ok' or not same_dims(d, v[sys]):
                key = 'ohm-dimension' if sys == 'mks' and tag == 'ok' and same_dims(d, v['mksp']) else None
                check.violation('dimensions', f'{s!r} in {sys}: {d}, expected {v[sys]}', case=e, key=key)
            else:
                check.validated += 1
        if len(v['sys']) == 2:
            tag, less = outcome(lambda: u.dimensionless)
            if tag != 'ok' or less != (not v['mks'] and not v['cgs']):
                check.violation('dimensions', f'{s!r}.dimensionless is {less}', case=e)
        for sys in ('mks', 'cgs'):
            if not v['sys']:
                continue
            for name, f in {'norm': lambda: u.norm[sys],
                            'get_unit(unit=text)': lambda: metric.System(sys).get_unit(unit=s),
                            'get_unit(unit=object)': lambda: metric.System(sys).get_unit(unit=u)}.items():
                tag, n = outcome(f)
                if tag != 'ok':
                    check.violation('system unit', f'{name} of {s!r} in {sys} raised {n}', case=e)
                    continue
                c = coherent(check, gen, sys, n, v, f'{name} of {s!r} in {sys}', e)
                if c:
                    second.append((c, sys, v, f'{name} of {s!r} in {sys}', n))
    judge(check, second)


def judge(check, second):
    """The collected system units must be coherent: size one, right dimensions."""
    verdicts = check.evaluate('UnitCases', [c[0][0] for c in second])
    for ((_, coef), sys, want, what, n), got in zip(second, verdicts):
        check.count('system_units')
        size = units.value(got['s' + sys])
        if sys not in got['sys']:
            check.violation('system unit', f'{what} is {n}, which {sys} does not use')
        elif got[sys] != want[sys]:
            key = 'ohm-dimension' if sys == 'mks' and got['mksp'] == want['mksp'] else None
            check.violation('system unit', f'{what} is {n}, of dimensions {got[sys]}, expected {want[sys]}', key=key)
        elif size is None or not math.isclose(size * coef, 1.0, rel_tol=units.TOL):
            check.violation('system unit', f'{what} is {n}, which is {size} coherent units')
        else:
            check.validated += 1


def quantities(check, gen):
    from goats.core import metric
    rng = check.rng
    items = [[[q, 1, 1]] for q in QUANTITIES]
    for _ in range(check.pick(300, 3000)):
        k = rng.choice([1, 2, 2, 3])
        items.append([[q, *rng.choice([(1, 1), (2, 1), (3, 1), (-1, 1), (-2, 1), (1, 2), (-1, 2)])]
                      for q in rng.sample(QUANTITIES, k)])
    verdicts = check.evaluate('UnitCases', [{'q': q} for q in items])
    second = []
    for q, v in zip(items, verdicts):
        names = [(n.replace(' ', '_') if rng.random() < 0.5 else n, Fr(a, b)) for n, a, b in q]
        if q[0][1:] == [1, 1] and len(q) == 1:
            text = q[0][0].title() if rng.random() < 0.3 else q[0][0]
        else:
            text = rng.choice([
                lambda: ' * '.join(f'{n}^{f}' if f != 1 else n for n, f in names),
                lambda: quotient(names)])()
        for sys in ('mks', 'cgs'):
            S = metric.System(sys)
            for name, f in {'System[q]': lambda: S[text].unit,
                            'get_unit(quantity=)': lambda: S.get_unit(quantity=text),
                            'Quantity[system]': lambda: metric.Quantity(text)[sys].unit}.items():
                tag, n = outcome(f)
                if tag != 'ok':
                    check.violation('system unit', f'{name} of {text!r} in {sys} raised {n}', case=q)
                    continue
                c = coherent(check, gen, sys, n, v, f'{name} of {text!r} in {sys}', q)
                if c:
                    second.append((c, sys, v, f'{name} of {text!r} in {sys}', n))
            for name, f in {'System[q].dimension': lambda: S[text].dimension,
                            'Quantity(q).dimensions': lambda: metric.Quantity(text).dimensions[sys]}.items():
                tag, d = outcome(f)
                check.count('quantity_dimensions')
                if tag != 'ok' or not same_dims(d, v[sys]):
                    key = 'ohm-dimension' if sys == 'mks' and tag == 'ok' and same_dims(d, v['mksp']) else None
                    check.violation('dimensions', f'{name} of {text!r} in {sys}: {d}, expected {v[sys]}',
                                    case=q, key=key)
            if len(q) == 1 and q[0][1:] == [1, 1] and not ohmic(v):
                dim = units.symbols(v[sys])
                terms = [(d, f) for d, f in dim.items()]
                rng.shuffle(terms)
                for text2 in ((' '.join(f'{d}^{f}' for d, f in terms) or '1'), quotient(terms) if terms else '1'):
                    tag, n = outcome(lambda: S.get_unit(dimension=text2))
                    tag2, m = outcome(lambda: S.get_unit(dimension=metric.Dimension(text2)))
                    if tag != 'ok' or tag2 != 'ok':
                        check.violation('system unit', f'get_unit(dimension={text2!r}) in {sys} raised {n} {m}', case=q)
                        continue
                    for n in (n, m):
                        c = coherent(check, gen, sys, n, v, f'get_unit(dimension={text2!r}) in {sys}', q)
                        if c:
                            second.append((c, sys, v, f'get_unit(dimension={text2!r}) in {sys}', n))
    judge(check, second)
    for w in ('foo', 'lenght', 'energy / foo', 'masss * time'):
        for f in (lambda: metric.System('mks')[w], lambda: metric.Quantity(w)['cgs']):
            tag, x = outcome(f)
            if tag == 'ok' or x == 'RecursionError':
                check.violation('unknown quantity', f'{w!r} gave {x}')


def quotient(names):
    up = [f'{n}^{f}' if f != 1 else n for n, f in names if f > 0]
    down = [f'{n}^{-f}' if f != -1 else n for n, f in names if f < 0]
    text = ' * '.join(up) or '1'
    if down:
        text += ' / (' + ' * '.join(down) + ')'
    return text
