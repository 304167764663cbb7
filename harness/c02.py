"""C02: alias groups (spec/Groups.tla) and name maps (spec/NameMap.tla)."""
import json

from core import (canon, outcome, replay, normalize_graph, sorted_sets,
                  MachineryError)


class Subject:
    def __init__(self, state, rng):
        from goats.core import aliased
        self.a = aliased
        self.rng = rng
        self.n = 0
        self.reg = {r: aliased.Groups(*[tuple(g) for g in gs]) for r, gs in state.items()}

    def one(self, ks):
        """One group, in any of the accepted spellings."""
        ks = list(ks)
        self.rng.shuffle(ks)
        kind = self.rng.randrange(4)
        if len(ks) == 1 and kind == 0:
            return ks[0]
        return (tuple, list, set, lambda x: self.a.Group(*x))[kind](ks)

    def apply(self, o):
        op, g = o['op'], self.reg[o['r']]
        if op == 'add':
            return outcome(g.add, self.one(o['ks']))
        if op == 'update':
            gs = [self.one(k) for k in o['gs']]
            return outcome(g.update, *gs)
        if op == 'merge':
            return self.put(o['t'], outcome(g.merge, *[self.one(k) for k in o['gs']]))
        if op == 'updfrom':
            return outcome(g.update, self.reg[o['s']])
        if op == 'mergefrom':
            return self.put(o['t'], outcome(g.merge, self.reg[o['s']]))
        if op == 'discard':
            return outcome(g.discard, o['k'])
        if op == 'without':
            ks = list(o['ks'])
            if o['g']:
                ks.append(self.rng.choice((self.a.Group, lambda *x: x))(*o['g']))
            self.rng.shuffle(ks)
            return self.put(o['t'], outcome(g.without, *ks))
        if op == 'find':
            return outcome(g.find, o['k'])
        if op == 'findg':
            x = self.one(o['ks'])
            tag, val = outcome(g.find, x)
            if tag == 'ok' and (x in g) is (val is None):
                return 'ok', [f'membership of {x!r} is {x in g}']
            return tag, val
        if op == 'discardg':
            return outcome(g.discard, self.one(o['ks']))
        raise MachineryError(op)

    def put(self, r, res):
        if res[0] == 'ok':
            self.reg[r] = res[1]
        return res

    def agrees(self, o, want, tag, val):
        if tag != 'ok':
            return None if val == want['tag'] else f'{val} not {want["tag"]}'
        if not o['op'].startswith('find'):
            return None
        got = sorted(val) if val is not None else []
        if got != sorted(want['val']):
            return f'found {got}, expected {want["val"]}'

    def state(self):
        st = {}
        for r, g in self.reg.items():
            groups = [sorted(x) for x in g]
            st[r] = sorted(groups, key=canon)
            flat = sorted(k for x in groups for k in x)
            if sorted(g.flat) != flat:
                raise AssertionError(f'flat view {g.flat} of {groups}')
            if len(g) != len(groups):
                raise AssertionError(f'length {len(g)} of {groups}')
            for x in groups:
                for k in x:
                    if k not in g or sorted(g.find(k)) != x:
                        raise AssertionError(f'{k} finds {g.find(k)} in {groups}')
            if not (g == self.a.Groups(*[tuple(x) for x in groups[::-1]])):
                raise AssertionError(f'{groups} differs from itself')
            for missing in ('zz', 'b a', ''):
                if missing in g or g.find(missing) is not None:
                    raise AssertionError(f'{missing!r} found in {groups}')
        return st


def graph(check, cfg, limit):
    edges = normalize_graph(check.graph('Groups', cfg), sorted_sets)
    regs = list(json.loads(next(iter(edges))))
    init = canon({r: [] for r in regs})
    replay(check, edges, init, lambda st: Subject(st, check.rng), limit, f'{cfg}: ')


def record(check, length):
    rng = check.rng
    names = ['a', 'b', 'c', 'ab', 'bc', 'abc', 'n 1', 'n_2', 'A', 'B']
    regs = ['g', 'h', 'i']
    subj = Subject({r: [] for r in regs}, rng)
    events = []
    for _ in range(length):
        op = rng.choice(['add'] * 3 + ['update'] * 2 + ['merge', 'updfrom', 'mergefrom']
                        + ['discard'] * 3 + ['without'] * 2 + ['find', 'findg', 'discardg'])
        o = {'op': op, 'r': rng.choice(regs)}
        some = lambda n: rng.sample(names, rng.randint(1, n))
        if op == 'add':
            o['ks'] = some(3)
        if op in ('update', 'merge'):
            o['gs'] = [some(3) for _ in range(rng.randint(1, 3))]
        if op in ('discard', 'find'):
            o['k'] = rng.choice(names)
        if op in ('findg', 'discardg'):
            gs = [sorted(x) for x in subj.reg[o['r']]]
            o['ks'] = rng.choice(gs) if gs and rng.random() < .6 else some(3)
            if len(o['ks']) < 2:
                continue
        if op in ('merge', 'mergefrom', 'without'):
            o['t'] = rng.choice(regs)
        if op in ('updfrom', 'mergefrom'):
            o['s'] = rng.choice(regs)
        if op == 'without':
            o['ks'] = some(2)
            gs = [sorted(x) for x in subj.reg[o['r']]]
            o['g'] = rng.choice(gs) if gs and rng.random() < .5 else []
        tag, val = subj.apply(o)
        res = {'tag': 'ok' if tag == 'ok' else val, 'val': []}
        if op in ('find', 'findg') and tag == 'ok' and val is not None:
            res['val'] = sorted(val)
        obs = {r: [sorted(x) for x in g] for r, g in subj.reg.items()}
        events.append({'o': o, 'res': res, 'obs': obs,
                       'total': {r: len(g) for r, g in subj.reg.items()}})
    verdict = check.validate('TraceGroups', events)
    check.count('recorded_events', len(events))
    if verdict:
        at, bad = verdict
        check.violation('recorded history rejected by the specification',
                        f'event {at + 1}: {bad}; observed {events[at]}',
                        case=[e['o'] for e in events[max(0, at - 6):at + 1]])


def algebra(check):
    """Set algebra of single groups against plain sets."""
    from goats.core import aliased
    import itertools
    names = ['a', 'b', 'ab', 'c d']
    subsets = [c for n in range(1, 5) for c in itertools.combinations(names, n)]
    G = aliased.Group
    for x in subsets:
        for y in subsets:
            sx, sy = set(x), set(y)
            for ry in ((G(*y[::-1]), tuple(y), list(y), set(y)) + ((y[0],) if len(y) == 1 else ())):
                gx = G(*x)
                for name, func, want in (
                    ('|', lambda: set(gx | ry), sx | sy),
                    ('&', lambda: set(gx & ry), sx & sy),
                    ('-', lambda: set(gx - ry), sx - sy),
                    ('^', lambda: set(gx ^ ry), sx ^ sy),
                    ('==', lambda: gx == ry, sx == sy),
                    ('!=', lambda: gx != ry, sx != sy),
                    ('isdisjoint', lambda: gx.isdisjoint(ry), not sx & sy),
                ):
                    res = outcome(func)
                    if res != ('ok', want):
                        check.violation(f'group {name}', f'{x} {name} {ry!r}: {res[1]!r} not {want!r}')
                if set(gx) != sx or len(gx) != len(sx):
                    check.violation('operand changed', f'{x} after operations with {ry!r}')
            if sx == sy and hash(G(*x)) != hash(G(*y[::-1])):
                check.violation('hash of equal groups', f'{x} {y}')
            check.count('group_pairs')


def namemaps(check):
    from goats.core import aliased
    cases = list(check.emitted(check.tlc('NameMap')))
    if not cases:
        raise MachineryError('no name maps')
    rng = check.rng
    for c in cases:
        inv, want = c['inverse'], c['lookup']
        names = sorted(inv)
        rng.shuffle(names)
        others = {n: [k for k in rng.sample(inv[n], len(inv[n])) if k != n] for n in names}
        whole = {n: rng.sample(inv[n], len(inv[n])) for n in names}
        single = lambda v: v[0] if len(v) == 1 else v
        ways = {
            'groups and names': lambda: aliased.NameMap(
                [whole[n] for n in names if others[n]], refs=names),
            'groups and reference mapping': lambda: aliased.NameMap(
                [tuple(whole[n]) for n in names], refs={n: 1 for n in names}),
            'mapping of aliases': lambda: aliased.NameMap(
                {n: single(others[n]) for n in names}),
            'mapping of aliases and names': lambda: aliased.NameMap(
                {n: whole[n] for n in names if others[n]}, refs=names),
            'interior aliases': lambda: aliased.NameMap(
                {n: {'aliases': single(others[n]), 'x': 1} for n in names}),
            'interior alias key': lambda: aliased.NameMap(
                {n: {'alt': tuple(others[n])} if others[n] else {} for n in names},
                refs=names, key='alt'),
        }
        for way, make in ways.items():
            tag, m = outcome(make)
            if tag != 'ok':
                check.violation('name map construction', f'{way} {others}: {m}', case=c)
                continue
            for which, nm in (('', m), (' (copy)', outcome(m.copy)[1])):
                got = outcome(lambda: {k: nm[k] for k in nm.keys()})
                if got != ('ok', want):
                    check.violation('name map', f'{way}{which} {others}: {got[1]!r} not {want!r}', case=c)
                for k in c['f']:
                    if k not in want:
                        if outcome(lambda: nm[k]) != ('err', 'KeyError') or k in nm:
                            check.violation('unknown name', f'{way}{which}: {k!r} in {want}', case=c)
                if outcome(lambda: (len(nm), sorted(nm))) != ('ok', (len(want), sorted(want))):
                    check.violation('name map length', f'{way}{which}: {others}', case=c)
            got = outcome(lambda: (lambda i: {n: sorted(i[n]) for n in names})(m.copy().invert()))
            if got != ('ok', {n: sorted(v) for n, v in inv.items()}):
                check.violation('inverted name map', f'{way} {others}: {got[1]!r}', case=c)
        check.count('name_maps')
    # the shipped vocabulary
    from goats.core import reference
    for g in reference.ALIASES:
        names = {reference.NAMES[k] for k in g}
        if len(names) != 1 or not names <= set(g):
            check.violation('reference names', f'{sorted(g)} -> {names}')
        for k in g:
            if reference.METADATA[k] is not reference.METADATA[sorted(g)[0]]:
                check.violation('reference metadata', f'{k}')
            if set(reference.ALIASES.find(k)) != set(g):
                check.violation('reference aliases', f'{k}: {reference.ALIASES.find(k)}')
    if sorted(reference.NAMES) != sorted(reference.ALIASES.flat):
        check.violation('reference names', 'names and aliases differ')


def run(check):
    graph(check, 'Groups.cfg', check.pick(25000, None))
    graph(check, 'GroupsTwo.cfg', check.pick(25000, None))
    algebra(check)
    namemaps(check)
    for _ in range(check.pick(1, 6)):
        record(check, check.pick(1500, 4000))
