"""C01: aliased mappings against spec/Aliases.tla."""
import json

from core import canon, covering_walk, outcome, MachineryError


def sets(x):
    """Sort every array of an emitted state (they all encode sets)."""
    if isinstance(x, dict):
        return {k: sets(v) for k, v in x.items()}
    if isinstance(x, list):
        return sorted((sets(i) for i in x), key=canon)
    return x


# what the values of the specification stand for: anything, also what is false or missing elsewhere
POOLS = [{}, {}, {1: 0, 2: None}, {1: None, 2: 0}, {1: '', 2: 'aliases'}, {1: [], 2: {}}, {1: False, 2: 0.5}, {1: ('a', 'b'), 2: 'a'}]


class Subject:
    """Real mappings in registers, driven by specification operations."""

    pool = {}

    def enc(self, v):
        """The real value for a value of the specification."""
        v = self.pool.get(v, v)
        return type(v)(v) if isinstance(v, (list, dict)) else v

    def dec(self, v):
        """The value of the specification for a real value."""
        if not self.pool or v == 'none':
            return v
        return next((t for t, x in self.pool.items() if type(x) is type(v) and x == v), f'?{v!r}')

    def __init__(self, regs, rng, pool=None):
        self.pool = pool or {}
        from goats.core import aliased
        self.a = aliased
        self.reg = {r: aliased.MutableMapping() for r in regs}
        self.rng = rng
        self.n = 0

    def apply(self, o):
        self.n += 1
        v = self.n  # rotates over equivalent ways of asking
        op, m = o['op'], self.reg[o['r']]
        if op == 'put':
            k = self._key(m, o['k'], v)
            return outcome(m.__setitem__, k, self.enc(o['v']))
        if op == 'putnew':
            ks = list(o['ks'])
            self.rng.shuffle(ks)
            k = tuple(ks) if v % 2 else self.a.Group(*ks)
            return outcome(m.__setitem__, k, self.enc(o['v']))
        if op == 'del':
            return outcome(m.__delitem__, self._key(m, o['k'], v))
        if op == 'pop':
            return outcome(m.pop, self._key(m, o['k'], v))
        if op == 'get':
            return outcome(m.__getitem__, self._key(m, o['k'], v))
        if op == 'default':
            return outcome(m.setdefault, o['k'], self.enc(o['v']))
        if op == 'alias':
            return outcome(m.alias, o['k'], o['x'])
        if op == 'clear':
            return outcome(m.clear)
        if op == 'copy':
            kinds = (
                lambda: m.copy(),
                lambda: self.a.MutableMapping(m),
                lambda: self.a.MutableMapping(self.a.Mapping(m)),
                lambda: self.a.MutableMapping(m.copy()),
            )
            tag, new = outcome(kinds[v % len(kinds)])
            if tag == 'ok':
                self.reg[o['s']] = new
            return tag, new
        if op == 'merge':
            tag, new = outcome(lambda: m | self.reg[o['s']])
            if tag == 'ok':
                self.reg[o['t']] = new
            return tag, new
        raise MachineryError(op)

    def _key(self, m, k, v):
        """Sometimes address an existing entry by its whole group."""
        if v % 5 == 0 and k in m:
            try:
                names = list(m.alias(k, include=True))
            except Exception:
                return k
            self.rng.shuffle(names)
            return self.a.Group(*names)
        return k

    def entries(self, r):
        m = self.reg[r]
        return [{'names': sorted(g), 'val': self.dec(v)} for g, v in m.items(aliased=True)]


def observe(check, subject, r, expect, names, where, full=True):
    """Compare every view of one real mapping with the model's entries."""
    m, d = subject.reg[r], subject.dec
    flat = {k: e['val'] for e in expect for k in e['names']}
    group = {k: frozenset(e['names']) for e in expect for k in e['names']}

    def bad(clause, got, want):
        check.violation(clause, f'{where}: got {got!r}, expected {want!r}',
                        case={'register': r, 'expected_entries': expect})

    def look(clause, func, want):
        tag, got = outcome(func)
        if tag != 'ok' or got != want:
            bad(clause, got, want)
            return False
        return True

    look('len', lambda: len(m), len(flat))
    look('iteration', lambda: sorted(m), sorted(flat))
    for k in names:
        look('membership', lambda: k in m, k in flat)
        if k in flat:
            look('value by name', lambda: d(m[k]), flat[k])
        else:
            tag, got = outcome(lambda: m[k])
            if (tag, got) != ('err', 'KeyError'):
                bad('missing name is an error', got, 'KeyError')
        look('get', lambda: d(m.get(k, 'none')), flat.get(k, 'none'))
        if not full:
            continue
        if k in flat:
            look('names of an entry', lambda: frozenset(m.alias(k, include=True)), group[k])
            look('other names', lambda: frozenset(m.alias(k)), group[k] - {k})
            look('value by group', lambda: d(m[subject.a.Group(*sorted(group[k]))]), flat[k])
    if full:
        look('flat', lambda: {k: d(v) for k, v in m.flat.items()}, flat)
        look('keys', lambda: sorted(m.keys()), sorted(flat))
        look('len(keys)', lambda: len(m.keys()), len(flat))
        look('values', lambda: sorted(map(d, m.values())), sorted(flat.values()))
        look('items', lambda: sorted((k, d(v)) for k, v in m.items()), sorted(flat.items()))
        look('grouped keys', lambda: sorted(sorted(g) for g in m.keys(aliased=True)),
             sorted(e['names'] for e in expect))
        look('len(grouped keys)', lambda: len(m.keys(aliased=True)), len(expect))
        look('grouped values', lambda: sorted(map(d, m.values(aliased=True))),
             sorted(e['val'] for e in expect))
        look('grouped items', lambda: sorted((sorted(g), d(v)) for g, v in m.items(aliased=True)),
             sorted((e['names'], e['val']) for e in expect))
        flat = {k: subject.enc(v) for k, v in flat.items()}
        look('equal to the plain dict', lambda: m == flat, True)
        if flat:
            k0 = sorted(flat)[0]
            look('differs from other values', lambda: m == {**flat, k0: 'x'}, False)
            look('differs from fewer names',
                 lambda: m == {k: v for k, v in flat.items() if k != k0}, False)
        look('differs from more names', lambda: m == {**flat, '?': 0}, False)


def norm_entries(x):
    return sorted(({'names': sorted(e['names']), 'val': e['val']} for e in x),
                  key=canon)


def replay(check, cfg, regs, names, limit):
    raw = check.graph('Aliases', cfg)
    edges = {}
    for s, acts in raw.items():
        s2 = canon(sets(json.loads(s)))
        for a, t in acts.items():
            act = json.loads(a)
            if 'ks' in act['o']:
                act['o']['ks'] = sorted(act['o']['ks'])
            edges.setdefault(s2, {})[canon(act)] = canon(sets(json.loads(t)))
    init = canon({r: [] for r in regs})
    if init not in edges:
        raise MachineryError('no initial state')
    parsed = {s: json.loads(s) for s in edges}
    subj = Subject(regs, check.rng, check.rng.choice(POOLS))
    steps = 0
    recent = []
    for step in covering_walk(edges, init, check.rng, limit):
        if step is None:
            subj = Subject(regs, check.rng, check.rng.choice(POOLS))
            recent = []
            continue
        s, a, t = step
        act = json.loads(a)
        o, want = act['o'], act['res']
        tag, val = subj.apply(o)
        steps += 1
        recent.append(o)
        del recent[:-8]
        where = 'after ... ' + ' ; '.join(canon(i) for i in recent)
        before = len(check.violations)
        if want['tag'] == 'ok':
            if tag != 'ok':
                check.violation('operation refused', f'{where}: raised {val}', case=recent[:])
            elif o['op'] in ('get', 'pop', 'default') and subj.dec(val) != want['val']:
                check.violation('returned value', f'{where}: {val!r} not {want["val"]!r}',
                                case=recent[:])
        elif (tag, val) != ('err', want['tag']):
            check.violation('operation not refused', f'{where}: {tag} {val!r}', case=recent[:])
        target = {o.get(f) for f in 'rst'}
        st = parsed[t] if t in parsed else json.loads(t)
        for r in regs:
            observe(check, subj, r, st[r], names, where, full=r in target)
        if len(regs) == 2:
            fl = [{k: e['val'] for e in st[r] for k in e['names']} for r in regs]
            same = st[regs[0]] == st[regs[1]]
            if same or fl[0] != fl[1]:
                tag, got = outcome(lambda: subj.reg[regs[0]] == subj.reg[regs[1]])
                if got is not same:
                    check.violation('equality of mappings', f'{where}: {got!r} not {same}')
        if len(check.violations) > before:
            # resynchronise on a fresh subject
            subj = rebuild(subj, st, regs, check.rng)
        elif steps % 400 == 0:
            # go on with other values
            subj.pool = check.rng.choice(POOLS)
            subj = rebuild(subj, st, regs, check.rng)
    check.count('replayed_steps', steps)
    check.validated += steps
    check.sample({'config': cfg, 'last_operations': recent[:]})


def rebuild(old, st, regs, rng):
    new = Subject(regs, rng, old.pool)
    for r in regs:
        for e in st[r]:
            k = tuple(e['names']) if len(e['names']) > 1 else e['names'][0]
            new.reg[r][k] = new.enc(e['val'])
    return new


def constructors(check, names):
    """Every model state, built every supported way."""
    from goats.core import aliased
    raw = check.graph('Aliases', 'AliasesOne.cfg')
    states = [json.loads(s)['m'] for s in raw]
    n = 0
    for st in states:
        st = norm_entries(st)
        flat = {k: e['val'] for e in st for k in e['names']}
        keyed = {}
        for e in st:
            ks = e['names'][:]
            check.rng.shuffle(ks)
            keyed[tuple(ks) if len(ks) > 1 else ks[0]] = e['val']
        inner = {}
        for e in st:
            head, *rest = check.rng.sample(e['names'], len(e['names']))
            inner[head] = {'aliases': rest if len(rest) != 1 or n % 2 else rest[0],
                           'n': e['val'], 'm': 7}
        gro = aliased.Groups(*[tuple(e['names']) for e in st], ('u', 'w'))
        lone = {check.rng.choice(e['names']): e['val'] for e in st}
        ref = aliased.Mapping({tuple(e['names']): None for e in st})
        ways = {
            'tuple keys': lambda c: c(keyed),
            'alias groups': lambda c: c(lone, aliases=gro),
            'aliases of another mapping': lambda c: c(lone, aliases=ref),
            'interior aliases': lambda c: c(inner),
            'interior aliases by key': lambda c: c(
                {k: {'alt': v['aliases'], 'n': v['n'], 'm': 7} for k, v in inner.items()},
                aliases='alt'),
            'another mapping': lambda c: c(aliased.Mapping(keyed)),
            'copy': lambda c: c(keyed).copy(),
        }
        for way, make in ways.items():
            for cls in (aliased.Mapping, aliased.MutableMapping):
                n += 1
                tag, got = outcome(make, cls)
                if tag != 'ok':
                    check.violation('construction', f'{way}: {got}', case=st)
                    continue
                expect = st
                if way.startswith('interior'):
                    v = outcome(lambda: {k: got[k] for k in flat})[1]
                    want = {k: {'n': x, 'm': 7} for k, x in flat.items()}
                    if v != want:
                        check.violation('construction', f'{way}: {v!r} not {want!r}', case=st)
                    got2 = outcome(lambda: sorted(sorted(g) for g in got.keys(aliased=True)))[1]
                    if got2 != sorted(e['names'] for e in st):
                        check.violation('construction', f'{way}: groups {got2!r}', case=st)
                    continue
                sub = Subject.__new__(Subject)
                sub.a, sub.reg = aliased, {'m': got}
                observe(check, sub, 'm', expect, names, f'built from {way}')
        # fromkeys and squeeze
        for src in (inner, [tuple(e['names']) for e in st], gro.without('u')):
            tag, got = outcome(aliased.Mapping.fromkeys, src, value=3)
            want = {k: 3 for k in flat}
            if tag != 'ok' or outcome(lambda: got == want) != ('ok', True):
                check.violation('fromkeys', f'{src!r}: {got!r}', case=st)
            elif sorted(sorted(g) for g in got.keys(aliased=True)) != sorted(e['names'] for e in st):
                check.violation('fromkeys groups', f'{src!r}: {got!r}', case=st)
        tag, got = outcome(lambda: aliased.Mapping(
            {k: {'aliases': v['aliases'], 'n': v['n']} for k, v in inner.items()}).squeeze())
        if tag != 'ok' or outcome(lambda: got == flat) != ('ok', True):
            check.violation('squeeze', f'{inner!r}: {got!r}', case=st)
    check.count('constructed', n)


def record(check, length):
    """A long random history over a larger universe, judged by the spec."""
    names = [f'n{i}' for i in range(9)]
    regs = ['m', 'n', 'k']
    subj = Subject(regs, check.rng)
    rng = check.rng
    events = []
    shadow = {r: [] for r in regs}
    for _ in range(length):
        r = rng.choice(regs)
        have = {k: e for e in shadow[r] for k in e['names']}
        fresh = [k for k in names if k not in have]
        op = rng.choice(['put'] * 3 + ['putnew'] * 2 + ['alias'] * 4 + ['del', 'pop', 'get']
                        + ['default', 'copy', 'merge', 'merge'] + ['clear'] * (rng.random() < .1))
        k = rng.choice(names)
        o = {'op': op, 'r': r}
        if op in ('put', 'default'):
            o.update(k=k, v=rng.randrange(6))
        elif op == 'putnew':
            if len(fresh) < 2:
                continue
            o.update(ks=rng.sample(fresh, rng.randint(2, min(4, len(fresh)))), v=rng.randrange(6))
        elif op == 'alias':
            if not have:
                continue
            k = rng.choice(list(have))
            x = rng.choice(names)
            if x in have[k]['names']:
                continue
            o.update(k=k, x=x)
        elif op in ('del', 'pop', 'get'):
            o.update(k=k)
        elif op == 'copy':
            o.update(s=rng.choice([i for i in regs if i != r]))
        elif op == 'merge':
            s = rng.choice(regs)
            if any(sum(bool(set(e['names']) & set(f['names'])) for f in shadow[s]) > 1
                   for e in shadow[r]):
                continue  # left open by the specification
            o.update(s=s, t=rng.choice(regs))
        tag, val = subj.apply(o)
        if tag == 'ok':
            res = {'tag': 'ok', 'val': val if op in ('get', 'pop', 'default') else 0}
            if not isinstance(res['val'], int):
                res['val'] = -1
        else:
            res = {'tag': val, 'val': 0}
        shadow = {}
        for i in regs:
            tag, got = outcome(subj.entries, i)
            shadow[i] = got if tag == 'ok' else [{'names': [f'!{got}'], 'val': -1}]
        events.append({'o': o, 'res': res, 'obs': shadow})
    verdict = check.validate('TraceAliases', events)
    check.count('recorded_events', len(events))
    if verdict:
        at, bad = verdict
        lo = max(0, at - 6)
        check.violation('recorded history rejected by the specification',
                        f'event {at + 1} of {len(events)}: {bad}; observed {events[at]}',
                        case=[e['o'] for e in events[lo:at + 1]])


def run(check):
    replay(check, 'AliasesOne.cfg', ['m'], list('abcd'), check.pick(40000, None))
    constructors(check, list('abcd'))
    replay(check, 'Aliases.cfg', ['m', 'n'], list('abc'), check.pick(30000, 400000))
    for _ in range(check.pick(1, 8)):
        record(check, check.pick(1500, 4000))
