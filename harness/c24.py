"""C24: look-up tables, registries and connection graphs."""
import json
import typing

import numpy

import core
from goats.core import iterables

REFUSED = (iterables.TableLookupError, iterables.AmbiguousRequestError)


def expect_table(check, rows, reqs, finds, common):
    """rows: list of dicts; reqs: [(pairs, strict, answer)]; finds: [(value, rows)]."""
    rng = check.rng
    given = [dict(r) for r in rows]
    table = iterables.Table(given if rng.random() < 0.5 else tuple(given))
    case = [rows]
    for ps, strict, want in reqs:
        kw = dict(ps)
        if strict or rng.random() < 0.3:
            kw['strict'] = strict
        tag, got = core.outcome(table, **kw)
        bad = (tag == 'err') if want > 0 else (tag == 'ok')
        if not bad and want > 0:
            bad = got is not given[want - 1] and not (got == given[want - 1] and given.count(got) == 1)
        if not bad and want == -1:
            bad = got != 'TableKeyError'
        if not bad and want == 0:
            bad = got == 'TableKeyError'
        if bad:
            check.violation('a request returns the row that matches', f'{given} {kw}: {tag} {got!r}, expected row {want}', case=case + [kw])
        check.count('requests')
    for v, want in finds:
        tag, got = core.outcome(table.find, v)
        if (tag == 'err') != (not want) or (want and got != [given[i - 1] for i in sorted(want)]):
            check.violation('find returns exactly the rows with a value', f'{given} {v}: {got!r}', case=case)
        tag, got = core.outcome(table.find, v, unique=True)
        if (tag == 'ok') != (len(want) == 1) or (tag == 'ok' and got != given[want[0] - 1]):
            check.violation('a unique row is found only if there is one', f'{given} {v}: {got!r}', case=case)
    names = {k for r in given for k in r} | {'z'}
    for k in sorted(names):
        tag, got = core.outcome(lambda: table[k])
        if (tag == 'ok') != (k in common) or (tag == 'ok' and list(got) != [r[k] for r in given]):
            check.violation('a column lists the value of every row', f'{given} {k}: {got!r}', case=case)
        got = table.get(k, 'none')
        if list(got) != [r.get(k, 'none') for r in given]:
            check.violation('a column lists the value of every row', f'{given} get {k}: {got!r}', case=case)
    if set(table.keys) != set(common) or len(table) != len(given) or list(table) != given or given != [dict(r) for r in rows]:
        check.violation('a table describes its rows', f'{given}: {table.keys}', case=case)


def registry_history(check):
    """Act on a real registry and record what it holds after every step."""
    rng = check.rng
    names = ['f', 'g', 'f_1', 'f_2', 'g_1', 'h']
    objs = []

    def thing():
        n = rng.choice(names[:5])
        if rng.random() < 0.5:
            def it():
                pass
        else:
            class it:
                pass
        it.__qualname__ = it.__name__ = n
        objs.append(it)
        return it, n
    okey = rng.choice(['object', 'method'])
    base = {}
    for n in rng.sample(names, rng.choice([0, 0, 1, 2, 3])):
        it, _ = thing()
        base[n] = it if rng.random() < 0.5 else {okey: it, 'm1': rng.randrange(3)}
    reg = iterables.ObjectRegistry(base, object_key=okey) if base or rng.random() < 0.5 else iterables.ObjectRegistry(object_key=okey)
    olds = []

    def show(r):
        out = []
        for k in r:
            v = dict(r[k])
            o = v.pop(okey)
            out.append({'key': k, 'obj': next(i for i, x in enumerate(objs) if x is o),
                        'meta': [[a, v[a]] for a in sorted(v)]})
        if len(r) != len(out) or any(k not in r for k in (x['key'] for x in out)):
            check.violation('a registry lists its entries', f'{out} {len(r)}')
        return out
    init = show(reg)
    events = []
    for _ in range(rng.choice([3, 6, 10])):
        r = rng.random()
        if r < 0.82:
            it, own = thing()
            meta = {m: rng.randrange(3) for m in rng.sample(['m1', 'm2'], rng.choice([0, 1, 2]))}
            name = rng.choice(names) if rng.random() < 0.5 else None
            over = rng.random() < 0.4
            before = list(reg)
            if meta or name or over or rng.random() < 0.5:
                kw = dict(meta)
                if name:
                    kw['name'] = name
                if over or rng.random() < 0.2:
                    kw['overwrite'] = over
                back = reg.register(**kw)(it) if rng.random() < 0.6 else reg.register(it, **kw)
            else:
                back = reg.register(it)
            if back is not it:
                check.violation('registering returns the object', f'{own} {name}')
            after = show(reg)
            mine = [x['key'] for x in after if objs[x['obj']] is it]
            if len(mine) != 1:
                check.violation('a registered object is listed once', f'{own} {name}: {after}', case=events)
                return None
            events.append({'o': 'register', 'own': own, 'name': name or '', 'overwrite': over,
                           'obj': len(objs) - 1, 'meta': [[a, meta[a]] for a in sorted(meta)], 'key': mine[0]})
        elif r < 0.92:
            reg.reset()
            events.append({'o': 'reset'})
        else:
            olds.append((reg, show(reg)))
            reg = reg.copy()
            events.append({'o': 'copy'})
        events[-1]['after'] = show(reg)
    for old, seen in olds:
        if show(old) != seen:
            check.violation('a copy does not share later registrations', f'{seen} became {show(old)}', case=events)
    return {'k': 'registry', 'init': init, 'events': events}


class Graph:
    """A real graph of connections seen as a set of weighted edges."""

    def __init__(self, check, state=()):
        self.rng = check.rng
        self.g = iterables.Connections()

    def weight(self, w):
        return None if w[0] == 0 else w[0] / w[1]

    def apply(self, o):
        self.add(f"n{o['a']}", f"n{o['b']}", self.weight(o['w']))
        return 'ok', None

    def add(self, a, b, w):
        if w is None and self.rng.random() < 0.5:
            self.g.add_connection(a, b)
        else:
            self.g.add_connection(a, b, w)

    def agrees(self, o, want, tag, val):
        return None


def edges_of(state):
    return {(f"n{x['p'][0]}", f"n{x['p'][1]}"): (None if x['w'][0] == 0 else x['w'][0] / x['w'][1]) for x in state}


def same(a, b):
    return (a is None) == (b is None) and (a is None or abs(a - b) <= 1e-12 * abs(b))


def check_graph(check, g, want, case):
    if set(g) != set(want) or len(g) != len(want):
        check.violation('a graph holds exactly its connections', f'{dict(g.connections)} expected {want}', case=case)
        return
    nodes = {n for p in want for n in p}
    if g.nodes != nodes:
        check.violation('a graph lists its nodes', f'{g.nodes}', case=case)
    for a in sorted(nodes | {'absent'}):
        adj = g.get_adjacencies(a)
        exp = {e: w for (s, e), w in want.items() if s == a}
        if set(adj) != set(exp) or not all(same(adj[k], exp[k]) for k in exp):
            check.violation('adjacent nodes and their weights', f'{a}: {adj}, expected {exp}', case=case)
        for b in sorted(nodes | {'absent'}):
            if ((a, b) in g) != ((a, b) in want):
                check.violation('membership of a connection', f'{a} {b}', case=case)
            tag, w = core.outcome(g.get_weight, a, b)
            if (tag == 'ok') != ((a, b) in want) or (tag == 'ok' and not same(w, want[(a, b)])):
                check.violation('each connection has its weight, the reverse its inverse', f'{a} {b}: {w}', case=case)
    check.count('graph states')


def tree(check, depth):
    rng = check.rng
    if depth == 0 or rng.random() < 0.3:
        return {'leaf': rng.randrange(5)}
    return {'kids': [tree(check, depth - 1) for _ in range(rng.choice([0, 1, 1, 1, 2]))]}


def plain(check, t):
    if 'leaf' in t:
        return t['leaf']
    kids = [plain(check, k) for k in t['kids']]
    return kids if check.rng.random() < 0.5 else tuple(kids)


def listed(x):
    if isinstance(x, (list, tuple)):
        return [listed(i) for i in x]
    return x


def of_tree(t):
    return t['leaf'] if 'leaf' in t else [of_tree(k) for k in t['kids']]


TYPES = {'int': int, 'float': float, 'str': str, 'bool': bool, 'list': list, 'tuple': tuple, 'set': set}
ATOMS = {'int': [0, 1, -7], 'float': [0.0, 2.5], 'str': ['a', 'bc'], 'bool': [True, False]}


class Plain:
    def __init__(self, a, b, c=None):
        self.read = (a, b, c)


class Three(typing.NamedTuple):
    a: int
    b: int
    c: int


def typed(check, case):
    """Type and emptiness tests, members of values, uniform rows."""
    rng = check.rng
    for _ in range(check.pick(300, 3000)):
        # a value of a type, or a collection of such values
        ty = rng.choice(list(TYPES))
        if ty in ATOMS:
            obj, mem = rng.choice(ATOMS[ty]), []
        else:
            mem = [rng.choice(list(ATOMS)) for _ in range(rng.randrange(4))]
            if ty == 'set':
                mem = mem[:1]
            obj = TYPES[ty](rng.choice(ATOMS[m]) for m in mem)
        types = rng.sample(list(TYPES), rng.choice([1, 1, 2, 3]))
        wraps = rng.sample(['list', 'tuple', 'set'], rng.randrange(4))
        strict = rng.random() < 0.5
        given = TYPES[types[0]] if len(types) == 1 and rng.random() < 0.7 else tuple(TYPES[t] for t in types)
        kw = {'strict': strict} if strict or rng.random() < 0.5 else {}
        case({'k': 'hastype', 'o': {'ty': ty, 'mem': mem}, 'types': types, 'wraps': wraps, 'strict': strict},
             lambda obj=obj, given=given, wraps=wraps, kw=kw: iterables.hastype(obj, given, *[TYPES[w] for w in wraps], **kw))
        if not wraps and all(isinstance(m, str) for m in types):
            one = rng.choice(list(TYPES))
            items = [rng.choice(ATOMS[m]) for m in mem]
            case({'k': 'hastype', 'o': {'ty': 'list', 'mem': mem}, 'types': [one], 'wraps': ['list'], 'strict': True},
                 lambda items=items, one=one: one == 'list' or iterables.allinstance(items, TYPES[one]))
        # something or nothing
        n = rng.randrange(3)
        ty, obj = rng.choice([
            ('int', 0), ('int', n), ('float', 0.0), ('float', -0.0), ('bool', False), ('float', numpy.float64(0)), ('none', None),
            ('str', 'x' * n), ('list', [0] * n), ('list', [None] * n), ('tuple', ('',) * n), ('dict', dict.fromkeys(range(n))), ('set', set(range(n))),
            ('array', numpy.zeros(n)), ('array', numpy.zeros((2, n))), ('range', range(n)), ('list', [[]] * n)])
        case({'k': 'missing', 'o': {'ty': ty, 'n': n}}, lambda obj=obj: bool(iterables.missing(obj)))
        # members

        def value():
            ty = rng.choice(['none', 'int', 'str', 'list', 'tuple', 'array', 'range'])
            n = rng.randrange(4)
            base = [rng.randrange(3) for _ in range(n)]
            if ty == 'none':
                return {'ty': ty}, None
            if ty == 'int':
                return {'ty': ty, 'one': base[0] if base else 7}, base[0] if base else 7
            if ty == 'str':
                return {'ty': ty, 'one': 'ab'[:n]}, 'ab'[:n]
            if ty == 'range':
                return {'ty': ty, 'mem': list(range(n))}, range(n)
            return {'ty': ty, 'mem': base}, {'list': list, 'tuple': tuple, 'array': numpy.array}[ty](base)
        spec, obj = value()

        def parts(obj):
            w = iterables.whole(obj)
            items = [i if isinstance(i, str) else int(i) for i in w]
            if len(w) != len(items) or any(i not in w for i in items) or 'zz' in w or 99 in w:
                return 'inconsistent'
            return items
        case({'k': 'whole', 'o': spec}, lambda obj=obj: parts(obj))
        other, obj2 = value()
        if {spec['ty'], other['ty']} & {'str'} and spec['ty'] != other['ty']:
            continue
        if rng.random() < 0.4 and 'mem' in spec:
            mixed = rng.sample(spec['mem'], len(spec['mem']))
            other, obj2 = {'ty': 'list', 'mem': mixed}, mixed
        case({'k': 'same members', 'a': spec, 'b': other}, lambda a=obj, b=obj2: iterables.whole(a) == iterables.whole(b))
        # rows as records
        names = rng.sample(['a', 'b', 'c', 'zz'], rng.randrange(5))
        rows = {key: {k: rng.randrange(9) for k in names} for key in rng.sample('pqrs', rng.randrange(1, 4))}
        key = rng.choice(list(rows))
        kind = rng.choice([Plain, Three])

        def record(rows=rows, kind=kind, key=key):
            u = iterables.UniformMapping(rows, kind)
            if sorted(u) != sorted(rows) or len(u) != len(rows) or 'absent' in u or core.outcome(lambda: u['absent'])[0] == 'ok':
                return 'inconsistent'
            r = u[key]
            if type(r) is not kind:
                return f'a {type(r)}'
            return [[] if v is None else [v] for v in (r.read if kind is Plain else r)]
        case({'k': 'uniform', 'row': [[k, v] for k, v in rows[key].items()], 'fields': ['a', 'b', 'c']}, record)


def helpers(check):
    rng = check.rng
    cases, calls = [], []

    def case(c, call):
        cases.append(c)
        calls.append(call)
    for n in range(1, 5):
        opts = [None] + list(range(-n - 2, n + 3))
        for a in opts:
            for b in opts:
                for s in (None, 1, 2, -1, -3):
                    if rng.random() < check.pick(0.5, 1):
                        case({'k': 'slice', 'n': n, 'start': [] if a is None else [a], 'stop': [] if b is None else [b],
                              'step': [] if s is None else [s]},
                             lambda a=a, b=b, s=s, n=n: list(iterables.slice_to_range(slice(a, b, s), n)))
    for _ in range(check.pick(150, 1500)):
        s = [rng.randrange(4) for _ in range(rng.randrange(8))]
        case({'k': 'unique', 's': s}, lambda s=s: iterables.unique(*s))
        m = [[rng.randrange(9) for _ in range(w)] for w in [rng.randrange(1, 4)] for _ in range(rng.randrange(1, 4))]
        case({'k': 'transpose', 'm': m}, lambda m=m: iterables.transpose_list(m))
        t = tree(check, 4)
        p = plain(check, t)
        case({'k': 'unwrap', 't': t}, lambda p=p: iterables.unwrap(p))
        a = [rng.randrange(4) for _ in range(rng.randrange(1, 4))]
        b = [rng.randrange(4) for _ in range(rng.randrange(1, 4))]
        mode = rng.randrange(3)
        x = a if mode != 1 else a[0]
        y = b if mode != 2 else b[0]
        case({'k': 'product', 'a': a if mode != 1 else a[:1], 'b': b if mode != 2 else b[:1]},
             lambda x=x, y=y: listed(list(iterables.distribute(x, y))))
        n = rng.randrange(2, 5)
        case({'k': 'show', 'n': n, 's': s}, lambda n=n, s=s: [-1 if i == '...' else int(i) for i in iterables.show_at_most(n, s, separator=';').split(';') if i])
    typed(check, case)
    for c, call, v in zip(cases, calls, check.evaluate('LookupCases', cases)):
        want = v['r']
        if c['k'] == 'unwrap':
            want = of_tree(want)
        tag, got = core.outcome(call)
        if tag == 'err' or listed(got) != want:
            check.violation(f"helper {c['k']}", f'{c}: {got!r}, expected {want}', case=c)
        check.count('helper calls')
        check.validated += 1
    for _ in range(check.pick(100, 500)):
        values = rng.sample(range(10), rng.randrange(5))
        keys = rng.sample('abcdefgh', len(values))
        d = dict(zip(keys, values))
        bi = iterables.Bijection(d)
        inv = bi.invert()
        ok = (dict(bi) == d and {v: k for k, v in d.items()} == dict(inv) and len(bi) == len(d) == len(inv)
              and all(inv[bi[k]] == k for k in bi) and all(bi[inv[v]] == v for v in inv) and dict(inv.invert()) == d)
        d['zz'] = 99
        if not ok or 'zz' in bi or 99 in inv:
            check.violation('a two-way mapping is its own inverse in both directions', f'{d}', case=d)
        if values:
            twice = {**dict(zip(keys, values)), 'q': values[0]}
            tag, got = core.outcome(iterables.Bijection, twice)
            if tag == 'ok':
                check.violation('a two-way mapping refuses repeated values', f'{twice}', case=twice)
    # a guard substitutes exactly for the exceptions it knows
    known = [KeyError, ValueError, LookupError, ArithmeticError]
    for _ in range(check.pick(100, 500)):
        err = rng.choice([KeyError, IndexError, ValueError, UnicodeError, ZeroDivisionError, TypeError, None])

        def call(*args, **kwargs):
            if err:
                raise err('x')
            return 'result'
        guard = iterables.Guard(call)
        subs = {k: rng.choice([None, 0, 'sub', Ellipsis]) for k in rng.sample(known, rng.randrange(1, 4))}
        for k, v in subs.items():
            guard.catch(k, v) if v is not None or rng.random() < 0.5 else guard.catch(k)
        hits = [subs[k] for k in (err.__mro__ if err else ()) if k in subs]
        args = tuple(range(rng.randrange(3)))
        kw = {'a': 1} if rng.random() < 0.3 else {}
        echo = (args[0] if len(args) == 1 else args) if not kw else (kw if not args else (args, kw))
        want = ('ok', 'result') if err is None else ('err', err.__name__) if not hits else ('ok', echo if hits[0] is Ellipsis else hits[0])
        got = core.outcome(guard.call, *args, **kw)
        if got != want:
            check.violation('a guard substitutes for known exceptions', f'{err} {subs} {args} {kw}: {got}, expected {want}', case=str(subs))


def run(check):
    rng = check.rng
    out = check.tlc('TableModel', 'TableModelThorough.cfg' if check.thorough else 'TableModel.cfg', timeout=3000, heap='6g')
    tables = list(check.emitted(out))
    for t in tables:
        reqs = [(r['ps'], s, r['t'] if s else r['f']) for r in t['req'] for s in (True, False)]
        if not check.thorough:
            reqs = rng.sample(reqs, 40)
        expect_table(check, t['rows'], reqs, [(v + 1, t['find'][v]) for v in range(3)], t['common'])
    cases = []
    for _ in range(check.pick(150, 2000)):
        cols = rng.sample('abcde', rng.choice([1, 2, 3, 4]))
        rows = [[[c, rng.randrange(3)] for c in rng.sample(cols, len(cols)) if rng.random() < 0.97] for _ in range(rng.randrange(1, 9))]
        reqs = []
        for _ in range(8):
            row = rng.choice(rows)
            ps = [[c, (dict(row).get(c, 1) if rng.random() < 0.75 else rng.randrange(4))] for c in rng.sample(cols, rng.randrange(1, len(cols) + 1))]
            reqs.append({'ps': ps, 'strict': rng.random() < 0.5})
        cases.append({'k': 'table', 'rows': rows, 'reqs': reqs, 'vals': [0, 1, 2, 7]})
    histories = [h for h in (registry_history(check) for _ in range(check.pick(250, 3000))) if h]
    graphs = []
    for _ in range(check.pick(60, 600)):
        k = rng.choice([3, 5])
        graphs.append({'k': 'graph', 'events': [[rng.randrange(k), rng.randrange(k), rng.choice([[2, 1], [1, 3], [5, 4], [0, 1]])]
                                                for _ in range(rng.randrange(1, 15))]})
    verdicts = check.evaluate('LookupCases', cases + histories + graphs)
    for c, v in zip(cases, verdicts):
        expect_table(check, c['rows'], [(r['ps'], r['strict'], a) for r, a in zip(c['reqs'], v['req'])],
                     list(zip(c['vals'], v['find'])), v['common'])
        check.validated += 1
    for h, v in zip(histories, verdicts[len(cases):]):
        if v['ok'] != len(h['events']):
            check.violation('a registry keeps each object with its metadata until removed',
                            f"after {h['events'][:v['ok']]}: {h['events'][v['ok']]}", case=h)
        check.validated += 1
    for c, v in zip(graphs, verdicts[len(cases) + len(histories):]):
        g = Graph(check)
        if rng.random() < 0.4:
            base = {}
            for a, b, w in c['events']:
                base.setdefault((f'n{a}', f'n{b}'), g.weight(w))
            keep = [e for i, e in enumerate(c['events']) if e[:2] not in [x[:2] for x in c['events'][:i]]]
            if len(keep) == len(c['events']):
                g.g = iterables.Connections(base)
            else:
                for a, b, w in c['events']:
                    g.add(f'n{a}', f'n{b}', g.weight(w))
        else:
            for a, b, w in c['events']:
                g.add(f'n{a}', f'n{b}', g.weight(w))
        check_graph(check, g.g, edges_of(v['c']), c['events'])
        check.validated += 1
    raw = check.graph('GraphModel', 'GraphModelThorough.cfg' if check.thorough else 'GraphModel.cfg', timeout=3000)
    edges = core.normalize_graph(raw, lambda s: sorted(s, key=core.canon))
    g = Graph(check)
    for step in core.covering_walk(edges, core.canon([]), rng, check.pick(4000, 60000)):
        if step is None:
            g = Graph(check)
            continue
        g.apply(json.loads(step[1])['o'])
        check_graph(check, g.g, edges_of(json.loads(step[2])), step)
    helpers(check)
    check.sample({'table': tables[-1]['rows']})
    check.assumptions += ['rows are mappings with hashable keys; registered objects have a name; weights are nonzero or absent']
