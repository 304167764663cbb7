"""C16: observations of stored quantities."""
import core
import observe
from goats import eprem


def run(check):
    rng = check.rng
    w = observe.World(check)
    observe.table(check, w, 'ObserveStored%s.cfg' % check.pick('', 'Thorough'), limit=check.pick(None, 20000))
    cases, plans = [], []
    for _ in range(check.pick(14, 120)):
        kind = rng.choice(['obs', 'obs', 'flux', 'point'])
        data = w.dataset(template={'obs': 'obs{:06}.nc', 'flux': 'flux{:06}.nc', 'point': 'p_obs{:03}.nc'}[kind],
                         origin=w.draw('origin', [0, 0, 0, 245900000]))
        data.kind = kind
        for _ in range(check.pick(32, 60)):
            q = rng.choice(observe.STORED + ['Dist', 'Dist', 'Dist', 'Vr', 'vgrid'])
            r, kw = w.maker.request(data, [(q, (1, 1))], density=rng.choice([0.0, 0.35, 0.6, 0.9]))
            plans.append((data, q, rng.choice(['mks', 'cgs']), r, kw))
            cases.append({'d': data.spec(), 'r': r, 'os': observe.positions(rng, check.pick(6, 12))})
    verdicts = check.evaluate('ObserveCases', cases, heap='6g', timeout=3000)
    observers = {}
    for (data, q, system, r, kw), v in zip(plans, verdicts):
        if not v['ok']:
            check.count('not judged')
            continue
        key = (data.path, system)
        if key not in observers:
            cls = eprem.Point if data.kind == 'point' else eprem.Stream
            observers[key] = cls(0, source=data.path, config='eprem_input_file', system=system)
        s = observers[key]
        name = rng.choice(observe.ALIASES[q])
        label = observe.describe(name, kw, system)
        tag, got = core.outcome(lambda: s[name].observe(**kw))
        if tag == 'err':
            check.violation('observing a stored quantity gives an answer', f'{label} raised {got}', case=label)
            continue
        params = w.params(data.config)
        if w.compare(label, q, data, v, params, got, system):
            w.check_array(label, got)
            w.check_reports(label, data, v, r, got)
            w.check_params(label, v, params, got)
            if rng.random() < 0.4:
                observe.check_units(w, s, name, kw, got, label)
        check.validated += 1
    check.sample({'request': cases[0]['r'], 'verdict': verdicts[0]})
