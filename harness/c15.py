"""C15: an observation depends only on the data and its own constraints."""
import json

import numpy

import core
import observe
from goats import eprem
from goats.core import physical

ONE = [1, 1]


def menu(w, A, B):
    """The K requests: (name, request record, keyword arguments, unit)."""
    si = w.si
    MeV, au = si.MeV, si.au
    ALL = {'k': 'all'}

    def r(what, m=0, **cons):
        out = {a: dict(ALL) for a in ('time', 'shell', 'species', 'energy', 'mu', 'radius')}
        out.update(cons)
        out['what'] = [{'q': q, 'e': list(e)} for q, e in what]
        out['m'] = m
        return out
    at = lambda *i: {'k': 'at', 'at': list(i)}
    val = lambda *t: {'k': 'val', 'ts': list(t)}
    P = lambda q: [(q, ONE)]
    return [
        ('Dist', r(P('Dist')), {}, {}, None),
        ('dist', r(P('Dist'), time=at(1)), {'time': 1}, {}, None),
        ('f', r(P('Dist'), time=at(1, 0), species=at(1), energy=val(250)), {'t': [1, 0], 'species': 1, 'energy': (2.5, 'MeV')}, {}, None),
        ('flux', r(P('flux'), species=at(1)), {'species': 1}, {}, None),
        ('flux', r(P('flux')), {}, {}, None),
        ('mfp', r(P('mfp')), {}, {}, None),
        ('mean free path', r(P('mfp'), shell=at(1)), {'shell': 1, 'lamo': (0.37, 'au'), 'rigidity_power': 0.9}, {'lambda0': 0.37 * au, 'rigidity_power': 0.9}, None),
        ('integral flux', r(P('intflux')), {}, {}, None),
        ('integral_flux', r(P('intflux'), m=260, time=val(70, 90)), {'minimum energy': (2.6, 'MeV'), 'time': (0.7, 0.9, 'day')}, {'minimum_energy': 2.6 * MeV}, None),
        ('Vr', r(P('Vr'), radius=val(300)), {'radius': (0.3, 'au')}, {}, None),
        ('mfp / Vr', r([('mfp', ONE), ('Vr', [-1, 1])], shell=at(0), energy=at(1)), {'shell': 0, 'E': 1}, {}, None),
        ('acceleration rate', r(P('rate'), species=at(0)), {'species': [0], 'kper_kpar': 0.6}, {'kper_kpar': 0.6}, None),
        ('energy', r(P('egrid'), species=at(1)), {'species': A.symbols[1] if A.symbols[1] == B.symbols[1] else 1}, {}, None),
        ('time', r(P('time'), time=at(1, 0)), {'time': [1, 0]}, {}, None),
        ('Vr', r(P('Vr'), time=val(80)), {'times': physical.Scalar(0.8, unit='day')}, {}, 'km s^-1'),
        ('Rho', r(P('Rho')), {}, {}, None),
    ]


class Session:
    """Observers and the results obtained so far."""

    def __init__(self, data, confs, requests):
        self.data, self.confs, self.requests = data, confs, requests
        self.obs = {}
        self.held = {}
        self.results = []

    def make(self, i, c):
        self.obs[i] = eprem.Stream(0, source=self.data[c['data']].path, config=self.confs[c['conf']], system=c['sys'])
        self.held[i] = {}

    def observe(self, rng, i, k):
        name, _, kw, _, unit = self.requests[k - 1]
        s = self.obs[i]
        held = self.held[i]
        if (name, unit) in held and rng.random() < 0.5:
            o = held[name, unit]
        else:
            o = s[name]
            if unit:
                o = o[unit]
            held[name, unit] = o
        return o.observe(**kw)

    def look(self, rng, i):
        """Look things up without observing."""
        s = self.obs[i]
        name = rng.choice(self.requests)[0]
        o = s[name]
        str(o.unit), list(o.dimensions), list(o.parameters), repr(o)
        s.observes(name), s.observes('nothing at all'), len(s.observables)
        o['cgs'].unit, o['mks'].unit
        if name == 'Vr':
            o['km s^-1'].unit
        numpy.array(s.radius), s.time, s.energy, s.species

    def replace(self, op, i, c):
        if op == 'new':
            return self.make(i, c)
        kw = {}
        if op in ('source', 'both'):
            kw['source'] = self.data[c['data']].path
        if op in ('config', 'both'):
            kw['config'] = self.confs[c['conf']]
        if self.obs[i].update(**kw) is not self.obs[i]:
            return 'update() did not return the observer'
        self.held[i] = {}


def run(check):
    rng = check.rng
    w = observe.World(check)
    # two datasets with different extents, grids and species, all covering the targets
    gridsA = {'time': [40, 75, 120], 'mu': [-700, 0, 650], 'energy': [[40, 200, 410, 900], [70, 230, 500, 1300]],
              'radius': [[110, 290, 700, 900], [130, 310, 650, 940], [90, 285, 800, 990]]}
    gridsB = {'time': [55, 88, 97, 200], 'mu': [-300, 800], 'energy': [[60, 240, 300, 470, 1000], [60, 190, 610, 700, 800]],
              'radius': [[150, 400, 800], [160, 420, 820], [170, 430, 850], [180, 440, 890]]}
    A = w.dataset(sizes={'time': 3, 'shell': 4, 'energy': 4, 'mu': 3}, species=[0, 1], grids=gridsA, config={})
    B = w.dataset(sizes={'time': 4, 'shell': 3, 'energy': 5, 'mu': 2}, species=[2, 3], grids=gridsB, config={})
    data = {'A': A, 'B': B}
    confs, conf_values = {}, {'a': {'lambda0': 0.8, 'kper_kpar': 0.2}, 'b': {'lambda0': 1.7, 'mfp_radial_power': 1.1, 'rigidity_power': 0.5}}
    for c, v in conf_values.items():
        p = check.tmp / f'config_{c}.ini'
        p.write_text(w.config_text(v))
        confs[c] = str(p)
    requests = menu(w, A, B)
    # what the specification says of every observation
    keys = [(d, c, sys, k) for d in 'AB' for c in 'ab' for sys in ('mks', 'cgs') for k in range(1, len(requests) + 1)]
    cases = [{'d': data[d].spec(), 'r': requests[k - 1][1], 'os': observe.positions(rng, 8)} for d, c, sys, k in keys]
    verdicts = dict(zip(keys, check.evaluate('ObserveCases', cases, heap='6g', timeout=3000)))
    bad = [k for k, v in verdicts.items() if not v['ok']]
    if bad:
        raise core.MachineryError(f'requests outside the specification: {bad[:3]}')

    references = {}

    def agrees(want, got, label):
        """The observation is the one that the specification determines."""
        key = (want['data'], want['conf'], want['sys'], want['k'])
        name, r, kw, more, unit = requests[want['k'] - 1]
        d = data[want['data']]
        v = verdicts[key]
        params = {**w.params(conf_values[want['conf']]), **more}
        if not w.compare(label, None, d, v, params, got, want['sys'], exact_order=name != 'mfp / Vr'):
            return
        w.check_params(label, v, params, got)
        w.check_reports(label, d, v, r, got)
        if unit and not observe.same_unit(w.si, got.unit, unit):
            check.violation('an observation has the unit asked for', f'{label}: {got.unit}')
        now = numpy.array(got.data)
        first = references.setdefault(key, now.copy())
        if first.shape != now.shape or not numpy.allclose(first, now, rtol=1e-12, atol=0, equal_nan=True):
            check.violation('the same observation always gives the same values', label)

    # a fresh observer for each combination determines the full arrays
    if check.thorough:
        for d, c, sys, k in keys:
            s = Session(data, confs, requests)
            s.make(1, {'data': d, 'conf': c, 'sys': sys})
            got = s.observe(rng, 1, k)
            agrees({'data': d, 'conf': c, 'sys': sys, 'k': k}, got, f'fresh observer {d}{c} {sys}: {requests[k-1][0]}')
    edges = check.graph('Session')
    init = min((s for s in edges if json.loads(s)['last'] == 0 and all(
        o['data'] == 'A' and o['conf'] == 'a' for o in json.loads(s)['obs'])
        and [o['sys'] for o in json.loads(s)['obs']] == ['mks', 'cgs']))
    total = sum(len(a) for a in edges.values())
    check.count('model transitions', total)
    session = None
    recent = []
    kept = []
    steps = 0
    for step in core.covering_walk(edges, init, rng, check.pick(1500, 20000)):
        if step is None or session is None:
            session = Session(data, confs, requests)
            for i, c in enumerate(json.loads(step[0] if step else init)['obs'], 1):
                session.make(i, c)
            recent = []
            if step is None:
                continue
        _, a, t = step
        act = json.loads(a)
        o, want = act['o'], act['res']
        recent = recent[-6:] + [o]
        steps += 1
        label = 'after ' + ', '.join('{}{}@{}'.format(x['op'], x.get('k', ''), x['i']) for x in recent[:-1])
        if o['op'] == 'observe':
            name, _, kw, _, unit = requests[o['k'] - 1]
            full = f'{want["data"]}{want["conf"]} {observe.describe(name, kw, want["sys"])} {label}'
            tag, got = core.outcome(session.observe, rng, o['i'], o['k'])
            if tag == 'err':
                check.violation('an observation gives an answer whatever came before', f'{full} raised {got}', case=recent)
                continue
            agrees(want, got, full)
            kept.append((full, got, numpy.array(got.data).copy(), str(got.unit), list(got.dimensions)))
            if len(kept) > 40:
                kept.pop(rng.randrange(len(kept)))
        elif o['op'] == 'look':
            tag, got = core.outcome(session.look, rng, o['i'])
            if tag == 'err':
                check.violation('looking at observables gives an answer', f'{label} raised {got}', case=recent)
        else:
            tag, got = core.outcome(session.replace, o['op'], o['i'], o)
            if tag == 'err':
                check.violation('updating an observer', f'{o} {label} raised {got}', case=recent)
                session = None
                continue
            if got:
                check.violation('updating an observer', f'{o} {label}: {got}', case=recent)
        for full, got, arr, unit, dims in rng.sample(kept, min(3, len(kept))):
            if not numpy.array_equal(numpy.array(got.data), arr, equal_nan=True) or str(got.unit) != unit or list(got.dimensions) != dims:
                check.violation('results already obtained stay as they are', f'{full}; then {o}', case=recent)
    check.count('steps', steps)
    check.validated += steps
    check.sample({'requests': [x[0] for x in requests]})
