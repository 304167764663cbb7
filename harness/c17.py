"""C17: derived quantities equal their formulas."""
import inspect

import numpy

import core
import observe
from goats import eprem
from goats.core import computed

NAMED = {a: q for q, names in observe.ALIASES.items() for a in names}
NAMED.update({a: p for p, (names, _, _) in observe.PARAMS.items() for a in (*names, p)})


def call(q, data, params, minima):
    """Call the registered method itself on plain SI arrays."""
    method = computed.REGISTRY[observe.ALIASES[q][0]]['method']
    args = []
    for p in inspect.signature(method).parameters.values():
        if p.kind is p.VAR_POSITIONAL:
            args.extend(minima)
            continue
        known = NAMED.get(p.name)
        if known is None:
            raise core.MachineryError(f'unknown argument {p.name} of {q}')
        if known in data.si:
            args.append(data.si[known].copy())
        elif known in observe.PARAMS:
            args.append(params[known])
        else:
            args.append(call(known, data, params, minima)[0])
    before = [numpy.copy(a) for a in args]
    result = method(*args)
    return numpy.asarray(result), all(numpy.array_equal(a, b, equal_nan=True) for a, b in zip(args, before))


def direct(check, w):
    """The formulas as plain functions, with several minimum energies at once."""
    rng = check.rng
    cases, plans = [], []
    for n in range(check.pick(5, 40)):
        data = w.dataset()
        params = w.params({k: round(rng.uniform(0.05, 2.5), 4) for k in observe.FILE_KEY})
        hi = min(g[-1] for g in data.energy) - 1
        lo = max(1, min(g[0] for g in data.energy) - 30)
        minima = [rng.randrange(lo, hi) for _ in range(rng.choice([1, 2, 4]))] if hi > lo else [0]
        if len(minima) > 2:
            minima[1] = min(minima[0] + rng.choice([-1, 1, 2]), hi)      # probably between the same two grid points
        for q in observe.DERIVED:
            for k, m in enumerate(minima if q == 'intflux' else [0]):
                r, _ = w.maker.request(data, [(q, (1, 1))], density=0.0, radial=0.0)
                r['m'] = max(m, 0)
                cases.append({'d': data.spec(), 'r': r, 'os': observe.positions(rng, check.pick(3, 6))})
                plans.append((data, q, params, minima, k))
    results = {}
    for (data, q, params, minima, k), v in zip(plans, check.evaluate('ObserveCases', cases, heap='8g', timeout=3000)):
        if not v['ok']:
            continue
        label = f'{q}({", ".join(f"{a}={data.sizes[a]}" for a in ("time", "shell", "species", "energy", "mu"))}, minima={minima})'
        key = data.path, q
        step = data.step_si['energy']
        if key not in results:
            try:
                results[key] = call(q, data, params, [m * step for m in minima])
            except core.MachineryError:
                check.count('methods with other arguments')
                results[key] = None, True
                continue
            if not results[key][1]:
                check.violation('a formula leaves its arguments unchanged', label, case=label)
        got, _ = results[key]
        if got is None:
            continue
        shape = [len(minima) if a == 'minimum energy' else x for a, x in zip(v['axes'], v['shape'])]
        if list(got.shape) != shape:
            check.violation('shape of a derived quantity', f'{label}: {got.shape}, expected {shape} over {v["axes"]}', case=label)
            continue
        ev = observe.Evaluator(data, {**params, 'minimum_energy': minima[k] * step}, w.constants)
        for o, term in zip(v['at'], v['terms']):
            x, e = ev(term)
            if not numpy.isfinite(x) or not (x == 0 or 1e-200 < abs(x) < 1e200):
                continue
            y = float(got[tuple(k if a == 'minimum energy' else o[a] - 1 for a in v['axes'])])
            if not abs(x - y) <= e * 3 + 1e-9 * abs(x):
                check.violation('values of a derived quantity', f'{label}: at {o} {y!r}, its formula gives {x!r}', case=label)
                break
        check.count('formulas called')
        check.validated += 1


def run(check):
    rng = check.rng
    w = observe.World(check)
    observe.table(check, w, 'ObserveDerived%s.cfg' % check.pick('', 'Thorough'), limit=check.pick(700, 20000))
    direct(check, w)
    cases, plans = [], []
    want = {'mfp': ['lambda0', 'mfp_radial_power', 'rigidity_power'],
            'rate': ['lambda0', 'mfp_radial_power', 'rigidity_power', 'kper_kpar'], 'intflux': ['minimum_energy']}
    for n in range(check.pick(12, 100)):
        data = w.dataset()
        if n % 3 == 0:                      # every quantity in full
            todo = [(q, 0.0) for q in observe.DERIVED]
        else:
            todo = [(rng.choice(observe.DERIVED), rng.choice([0.0, 0.35, 0.6])) for _ in range(check.pick(20, 40))]
        for q, density in todo:
            r, kw = w.maker.request(data, [(q, (1, 1))], density=density, radial=0.2 if density else 0.0)
            params, more = w.maker.parameters(w.params(data.config), want.get(q, []), data)
            kw.update(more)
            r['m'] = params.pop('_m', 0)
            plans.append((data, q, rng.choice(['mks', 'cgs']), r, kw, params))
            cases.append({'d': data.spec(), 'r': r, 'os': observe.positions(rng, check.pick(5, 10))})
    verdicts = check.evaluate('ObserveCases', cases, heap='8g', timeout=3000)
    observers = {}
    for (data, q, system, r, kw, params), v in zip(plans, verdicts):
        if not v['ok']:
            check.count('not judged')
            continue
        key = (data.path, system)
        if key not in observers:
            observers[key] = eprem.Stream(0, source=data.path, config='eprem_input_file', system=system)
        s = observers[key]
        name = rng.choice(observe.ALIASES[q])
        label = observe.describe(name, kw, system)
        tag, got = core.outcome(lambda: s[name].observe(**kw))
        if tag == 'err':
            check.violation('observing a derived quantity gives an answer', f'{label} raised {got}', case=label)
            continue
        if w.compare(label, q, data, v, params, got, system):
            w.check_array(label, got)
            w.check_reports(label, data, v, r, got)
            w.check_params(label, v, params, got)
            if rng.random() < 0.25:
                observe.check_units(w, s, name, kw, got, label)
        check.count(f'observed {q}')
        check.validated += 1
    check.sample({'request': cases[0]['r'], 'verdict': verdicts[0]})
