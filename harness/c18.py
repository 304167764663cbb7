"""C18: composed observables."""
import re

import numpy

import core
import observe
from goats import eprem
from goats.core import aliased, metadata

WORDS = {q: [a for a in names if re.fullmatch(r'[A-Za-z_]+[A-Za-z_]*', a)] for q, names in observe.ALIASES.items()}
ELECTRIC = {'Br', 'Bt', 'Bp', 'bmag', 'bv', 'charge', 'rigidity'}
POOL = [q for q in WORDS if WORDS[q] and q not in ('shell', 'mass', 'charge')]
POOL += ['Vr', 'Rho', 'egrid', 'mfp', 'flux', 'Dist', 'vgrid', 'time', 'mu']


def tree(rng, depth, pool):
    k = rng.random()
    if depth == 0 or k < 0.15:
        return ['v', rng.choice(pool)]
    if k < 0.35:
        return ['^', tree(rng, depth - 1, pool), rng.choice([2, 3, -1, -2]), 1]
    if k < 0.4:
        return ['^', ['v', rng.choice(pool)], rng.choice([1, 3, -1]), 2]
    return [rng.choice('**/'), tree(rng, depth - 1, pool), tree(rng, depth - 1, pool)]


def leaves(x):
    return [x[1]] if x[0] == 'v' else [q for c in x[1:] if isinstance(c, list) for q in leaves(c)]


def render(rng, x, top=True):
    if x[0] == 'v':
        return rng.choice(WORDS[x[1]])
    if x[0] == '^':
        base = render(rng, x[1], False)
        if x[1][0] != 'v' and not base.startswith('('):
            base = f'({base})'
        elif x[1][0] == '^':
            base = f'({base})'
        e = str(x[2]) if x[3] == 1 else f'{x[2]}/{x[3]}'
        return f'{base}^{e}' if top else f'({base}^{e})'
    a, b = render(rng, x[1], False), render(rng, x[2], False)
    sp = rng.choice([' ', ' ', ''])
    text = f'{a}{sp}{x[0]}{sp}{b}'
    return text if top and rng.random() < 0.9 else f'({text})'


def power_text(rng, r):
    """A flat product of powers for a request of the model."""
    out = ''
    for i, t in enumerate(r['what']):
        name = rng.choice(WORDS[t['q']])
        n, d = t['e']
        e = f'{n}' if d == 1 else f'{n}/{d}'
        if i and n < 0 and rng.random() < 0.5:
            e = f'{-n}' if d == 1 else f'{-n}/{d}'
            out += f' / {name}' + ('' if e == '1' else f'^{e}')
        else:
            out += (' * ' if i else '') + name + ('' if e == '1' else f'^{e}')
    return out


def systems(qs):
    return ['mks'] if set(qs) & ELECTRIC else ['mks', 'cgs']


def run(check):
    rng = check.rng
    w = observe.World(check)
    observe.table(check, w, f'ObserveComposed{check.pick("", "Thorough")}.cfg', limit=check.pick(350, 15000),
                  name_of=lambda r: power_text(rng, r), exact_order=False,
                  judge_system=lambda r: systems(t['q'] for t in r['what']))
    cases, plans = [], []
    for n in range(check.pick(12, 100)):
        data = w.dataset()
        for _ in range(check.pick(25, 50)):
            x = tree(rng, rng.choice([1, 2, 2, 3]), POOL)
            if len(leaves(x)) > 5:
                continue
            r, kw = w.maker.request(data, [], density=rng.choice([0.0, 0.3, 0.6]))
            del r['what']
            params, more = w.maker.parameters(w.params(data.config), ['lambda0', 'kper_kpar', 'minimum_energy'] if rng.random() < 0.3 else [], data)
            kw.update(more)
            r['m'] = params.pop('_m', 0)
            plans.append((data, x, render(rng, x), rng.choice(systems(leaves(x))), r, kw, params))
            cases.append({'d': data.spec(), 'r': r, 'x': x, 'os': observe.positions(rng, 4)})
    verdicts = check.evaluate('ComposeCases', cases, heap='8g', timeout=3000)
    observers = {}
    for (data, x, text, system, r, kw, params), v in zip(plans, verdicts):
        if not v['ok'] or any(abs(t['e'][0]) > 4 * t['e'][1] for t in v['what']):
            check.count('not judged')
            continue
        key = (data.path, system)
        if key not in observers:
            observers[key] = eprem.Stream(0, source=data.path, config='eprem_input_file', system=system)
        s = observers[key]
        label = observe.describe(text, kw, system)
        tag, got = core.outcome(lambda: s.observes(text))
        if tag == 'err' or not got:
            check.violation('a composition of observable quantities is observable', f'{text!r}: observes() gave {got}')
            continue
        tag, got = core.outcome(lambda: s[text].observe(**kw))
        if tag == 'err':
            check.violation('observing a composed quantity gives an answer', f'{label} raised {got}', case=label)
            continue
        if w.compare(label, None, data, v, params, got, system, exact_order=False):
            w.check_array(label, got)
            w.check_reports(label, data, v, r, got)
            w.check_params(label, v, params, got)
            if sorted(s[text].dimensions) != sorted(v['axes']):
                check.violation('axes of a composed observable', f'{text!r}: {list(s[text].dimensions)}, expected {v["axes"]}')
            parts = {p for q in set(leaves(x)) if any(t['q'] == q for t in v['what']) for p in s[WORDS[q][0]].parameters}
            if len(v['what']) == len(set(leaves(x))) and set(s[text].parameters) != parts:
                check.violation('a composed observable has the parameters of its parts',
                                f'{text!r}: {sorted(s[text].parameters)}, its parts have {sorted(parts)}')
            if rng.random() < 0.6:
                observe.check_units(w, s, text, kw, got, label, electric=bool(set(leaves(x)) & ELECTRIC))
        check.validated += 1
    # any of the names of one quantity may be asked about together
    for _ in range(check.pick(40, 300)):
        s = rng.choice(list(observers.values()))
        q = rng.choice(list(observe.ALIASES))
        names = rng.sample(observe.ALIASES[q], rng.randrange(1, len(observe.ALIASES[q]) + 1))
        bad = rng.sample(['nothing', 'foo', 'Vrr', 'lamo', 'Vr * foo'], rng.randrange(1, 4))
        form = rng.choice([list, tuple, lambda n: metadata.Name(*n), aliased.Group, lambda n: dict.fromkeys(n)])
        for given, want in ((names, True), (bad, False)):
            tag, got = core.outcome(lambda: s.observes(form(given)))
            if tag == 'err' or bool(got) != want:
                check.violation('a quantity is observable by its names', f'observes({form(given)!r}) gave {got!r}')
        check.count('name groups')
    # a composition with a part that is not observable is not observable
    for _ in range(check.pick(60, 600)):
        s = rng.choice(list(observers.values()))
        x = tree(rng, rng.choice([1, 2, 3]), POOL)
        bad = rng.choice(['nothing', 'foo', 'lambda0', 'preEruption', 'phiOffset', 'Vrr', 'Emin', 'lamo'])
        text = render(rng, x)
        words = re.findall(r'[A-Za-z_]+', text)
        text = re.sub(r'(?<![A-Za-z_])' + rng.choice(words) + r'(?![A-Za-z_])', bad, text, count=1)
        if text == bad:
            continue
        tag, got = core.outcome(lambda: s.observes(text))
        if tag == 'ok' and got:
            check.violation('a composition is observable only if all its parts are', f'observes({text!r}) is true')
        if len(text) > 12 or rng.random() < 0.7:
            continue                         # looking up a long unknown name takes long
        tag, got = core.outcome(lambda: s[text].observe())
        if tag == 'ok':
            check.violation('a composition is observable only if all its parts are', f'observer[{text!r}].observe() gave {got!r}')
        check.count('refused compositions')
    check.sample({'request': plans[0][2], 'verdict': verdicts[0]})
