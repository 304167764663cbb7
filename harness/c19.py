"""C19: a run parameter has the user's value, else the resolved default."""
import json
import math
import numbers
import pathlib

import numpy

import core
from goats.core import metadata
from goats.eprem import runtime

TYPES = {'int': int, 'float': float, 'str': str, 'list': list}
MODES = {'int': 'readInt', 'float': 'readDouble', 'str': 'readString', 'list': 'readDoubleArray'}


# -- writing worlds down -----------------------------------------------------
def render(t, rng, bare=True):
    """One of the spellings of a definition."""
    sp = lambda: rng.choice(['', ' '])
    op = t['op']
    if op == 'num':
        return t['id']
    if op == 'text':
        return t['t']
    if op == 'list':
        return '[' + (',' + sp()).join(t['ids']) + ']'
    if op == 'third':
        return 'third'
    if op == 'nprocs':
        return 'N_PROCS'
    if op == 'par':
        return ('config.' if not bare or rng.random() < 0.8 else '') + t['name']
    if op == 'const':
        return t['name']
    if op == 'group':
        return f'({sp()}{render(t["x"], rng, bare)}{sp()})'
    if op == 'neg':
        return '-' + render(t['x'], rng, bare)
    gap = rng.choice(['', ' ', ' '])
    sign = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/'}[op]
    return render(t['x'], rng, bare) + gap + sign + gap + render(t['y'], rng, bare)


def number(t):
    """The value of a closed definition."""
    op = t['op']
    if op == 'num':
        return float(t['id'])
    if op == 'third':
        return 1 / 3
    if op == 'neg':
        return -number(t['x'])
    a, b = number(t['x']), number(t['y'])
    return a + b if op == 'add' else a - b if op == 'sub' else a * b if op == 'mul' else a / b


def size(t):
    """An upper bound of the terms a sum cancels (for the tolerance)."""
    op = t['op']
    if op in ('num', 'third'):
        return abs(number(t))
    if op == 'neg':
        return size(t['x'])
    a, b = size(t['x']), size(t['y'])
    return a + b if op in ('add', 'sub') else a * b if op == 'mul' else a / abs(number(t['y'])) if number(t['y']) else 0.0


def stable(t):
    """False if some divisor is a sum that (nearly) cancels, so that rounding
    alone decides whether the quotient exists."""
    if t['op'] in ('num', 'third'):
        return True
    if t['op'] == 'neg':
        return stable(t['x'])
    if not (stable(t['x']) and stable(t['y'])):
        return False
    return t['op'] != 'div' or abs(number(t['y'])) > 1e-6 * size(t['y'])


def agrees(got, want):
    """None if `got` is the value that the specification resolved."""
    v, kind = want['v'], want['type']
    op = v['op']
    if op == 'nprocs':
        return None if got is None else f'expected no value, got {got!r}'
    if op == 'text':
        return None if isinstance(got, str) and got == v['t'] else f'expected the text {v["t"]!r}, got {got!r}'
    if op == 'list':
        if kind == 'list' and isinstance(got, list) and [float(x) for x in got] == [float(x) for x in v['ids']]:
            return None
        return f'expected the list {v["ids"]}, got {got!r}'
    x = number(v)
    if isinstance(got, bool) or not isinstance(got, numbers.Real):
        return f'expected {x}, got {got!r}'
    if not math.isclose(float(got), x, rel_tol=1e-9, abs_tol=1e-12 * size(v)):
        return f'expected {x}, got {got!r}'
    if kind == 'float' and not isinstance(got, float):
        return f'expected a real number, got {got!r}'
    if kind == 'int' and x == int(x) and not isinstance(got, numbers.Integral):
        return f'expected an integer, got {got!r}'
    return None


def write_source(folder, source, rng):
    """Write one source of a world as configuration.c and baseTypes.h."""
    folder.mkdir(exist_ok=True)
    head, body = ['#ifndef BASETYPES_H'], ['/* parameters */']
    for c in source['consts']:
        d = render(c['def'], rng)
        head.append(f'#define {c["name"]} {d if rng.random() < 0.5 else "( " + d + " )"}')
    for k, p in enumerate(source['params']):
        mode = MODES[p['type']]
        if p['type'] == 'list':
            body.append(f'Scalar_t default{k}[{len(p["default"]["ids"])}] = {{{", ".join(p["default"]["ids"])}}};')
            args = f'&config.{p["name"]}Size, default{k}'
        elif p['type'] == 'str':
            args = f'"{p["default"]["t"]}"'
        else:
            args = f'{render(p["default"], rng, bare=False)}, VERYSMALL, BADVALUE'
        cast = '(char*)' if p['type'] == 'str' else ''
        body.append(f'  config.{p["name"]} = {cast}{mode}("{p["key"]}", {args});')
    (folder / 'baseTypes.h').write_text('\n'.join(head) + '\n')
    (folder / 'configuration.c').write_text('\n'.join(body) + '\n')
    return folder


def write_config(path, rows, rng, mark='#'):
    lines = []
    for r in rows:
        if rng.random() < 0.3:
            lines.append(rng.choice(['', f'{mark} {r["name"]} = 99', '  ', f'  {mark} note']))
        sp = lambda: rng.choice(['', ' ', '  '])
        lines.append(f'{sp()}{r["name"]}{sp()}={sp()}{render(r["def"], rng)}{rng.choice(["", "", " " + mark + " x = 1"])}')
    path.write_text('\n'.join(lines) + '\n')
    return path


# -- the small model ----------------------------------------------------------
class Subject:
    """A runtime over written worlds, driven by the model's operations."""

    def __init__(self, check, sources, configs, src, cfg, shadow=True):
        self.check = check
        self.sources, self.configs = sources, configs
        self.src, self.cfg = src, cfg
        self.real = runtime.Runtime(sources[src], configs[cfg])

    def path(self, p):
        return p if p is None or self.check.rng.random() < 0.5 else str(p)

    def apply(self, o):
        if o['do'] == 'config':
            self.cfg = o['to']
            return core.outcome(self.real.path_to, config=self.path(self.configs[o['to']]))
        if o['do'] == 'source':
            self.src = o['to']
            return core.outcome(self.real.path_to, source=self.path(self.sources[o['to']]))
        if o['do'] == 'both':
            self.src, self.cfg = o['src'], o['cfg']
            return core.outcome(self.real.path_to, source=self.sources[o['src']], config=self.configs[o['cfg']])
        if o['do'] == 'names':
            return core.outcome(lambda: [list(self.real), list(self.real.keys()), len(self.real)])
        r = self.check.rng.random()
        if r < 0.15:
            # another parameter may be undefined: then ask for this one alone
            tag, value = core.outcome(lambda: dict(self.real.items())[o['name']])
            if tag == 'ok':
                return tag, value
        if r < 0.25 and o['name'] in list(self.real):
            return core.outcome(self.real.get, o['name'])
        return core.outcome(self.real.__getitem__, o['name'])

    def agrees(self, o, want, tag, value):
        kind = want['is']
        if kind == 'ok':
            return None if tag == 'ok' and value is self.real else f'{o} gave {tag} {value}'
        if kind == 'names':
            if tag == 'ok' and all(sorted(v) == sorted(want['names']) for v in value[:2]) and value[2] == len(want['names']):
                return None
            return f'names {value}, expected {want["names"]}'
        if kind in ('unknown', 'error'):
            return None if tag == 'err' else f'{o["name"]} gave {value!r}, expected an error'
        if tag == 'err':
            return f'{o["name"]} raised {value}, expected {want}'
        return agrees(value, want)


def model(check, folder):
    rng = check.rng
    out = check.tlc('ParamModel')
    world, edges, init = None, {}, core.canon({'src': 1, 'cfg': 0})
    for e in check.emitted(out):
        if 'world' in e:
            world = e['world']
        else:
            if 'names' in e['a']['res']:
                e['a']['res']['names'].sort()
            edges.setdefault(core.canon(e['s']), {})[core.canon(e['a'])] = core.canon(e['t'])
    sources = {k + 1: write_source(folder / f'm{k}', s, rng) for k, s in enumerate(world['sources'])}
    configs = {k + 1: write_config(folder / f'm{k}.cfg', c, rng) for k, c in enumerate(world['configs'])}
    configs[0] = None
    subject = Subject(check, sources, configs, 1, 0)
    recent = []
    for rounds in range(check.pick(3, 20)):
        for step in core.covering_walk(edges, init, rng):
            if step is None:
                subject, recent = Subject(check, sources, configs, 1, 0), []
                continue
            act = json.loads(step[1])
            o = act['o']
            tag, value = subject.apply(o)
            recent = (recent + [o])[-8:]
            bad = subject.agrees(o, act['res'], tag, value)
            if bad:
                check.violation('resolved value', f'{bad} after {recent} (in {step[0]})', case=recent)
            check.count('model_steps')
        subject, recent = Subject(check, sources, configs, 1, 0), []
    check.validated += 1


# -- generated worlds -----------------------------------------------------------
NUMS = ['1.0', '0.5', '2.0', '3.25', '1.0e-3', '2.5E2', '4.0', '0.125', '7', '1.5e+2']
PARAMS = ['alpha', 'beta_x', 'eMin', 'r1', 'simStart', 'tDel', 'width', 'numIt']
CONSTS = ['SCALE', 'BASE', 'PI', 'TAU', 'MP', 'VERYSMALL']
LISTS = [['1.0'], ['1.0', '4.0'], ['2', '3', '5.5'], ['0']]
TEXTS = ['out.txt', 'a dir', 'warn', 'x=1', '/tmp/a/b']


def product(rng, pars, consts, depth=0, risky=False):
    r = rng.random()
    if depth > 2 or r < 0.4:
        k = rng.random()
        if pars and k < 0.4:
            return {'op': 'par', 'name': rng.choice(pars)}
        if consts and k < 0.6:
            return {'op': 'const', 'name': rng.choice(consts)}
        return {'op': 'num', 'id': rng.choice(NUMS)}
    x = product(rng, pars, consts, depth + 1, risky)
    if r < 0.85:
        y = product(rng, pars, consts, depth + 1, risky)
        if y['op'] in ('mul', 'div'):
            y = {'op': 'group', 'x': y}
        # tight integers are rational numbers in the expression language
        if r < 0.6 or risky or y == {'op': 'num', 'id': '7'}:
            return {'op': 'mul', 'x': x, 'y': y}
        return {'op': 'div', 'x': x, 'y': y}
    return {'op': 'group', 'x': x}


def definition(rng, pars, consts, risky=False):
    r = rng.random()
    if r < 0.35:
        t = {'op': 'num', 'id': rng.choice(NUMS + ['0', '0.0', '-2.5', '-1e-3'])}
        return t
    if r < 0.5 and pars:
        return {'op': 'par', 'name': rng.choice(pars)}
    if r < 0.54:
        return {'op': 'third'}
    t = product(rng, pars, consts, risky=risky)
    while rng.random() < 0.4:
        t = {'op': rng.choice(['add', 'sub']), 'x': t, 'y': product(rng, pars, consts, risky=risky)}
    if rng.random() < 0.1:
        first = t
        if first['op'] in ('mul', 'div', 'num', 'par', 'const', 'group'):
            t = {'op': 'neg', 'x': t}
    return t


def typed(rng, kind, pars, consts, risky=False):
    if kind == 'list':
        return {'op': 'list', 'ids': rng.choice(LISTS)}
    if kind == 'str':
        return {'op': 'text', 't': rng.choice(TEXTS)}
    if kind == 'int':
        return rng.choice([{'op': 'num', 'id': rng.choice(['0', '1', '3', '20', '-4'])}, {'op': 'num', 'id': '12'},
                           {'op': 'nprocs'}] + ([{'op': 'par', 'name': rng.choice(pars)}] if pars else []))
    return definition(rng, pars, consts, risky)


def make_world(rng):
    kinds = {}
    for n in PARAMS:
        kinds[n] = 'int' if n == 'numIt' else rng.choice(['float'] * 6 + ['int', 'list', 'str'])
    sources = []
    for _ in range(rng.choice([1, 2])):
        consts, known = [], []
        for n in rng.sample(CONSTS, rng.choice([1, 3, 4])):
            d = product(rng, [], known)
            consts.append({'name': n, 'def': d})
            known.append(n)
        names = rng.sample(PARAMS, rng.choice([2, 5, 8]))
        params, refs, ints = [], [], []
        cyclic = rng.random() < 0.1
        floats = [n for n in names if kinds[n] == 'float']
        for n in names:
            pool = floats if cyclic else refs
            pool = ints if kinds[n] == 'int' else pool
            d = typed(rng, kinds[n], pool, known, cyclic)
            params.append({'name': n, 'key': n if rng.random() < 0.85 else 'input_' + n, 'type': kinds[n], 'default': d})
            if kinds[n] == 'float':
                refs.append(n)
            if kinds[n] == 'int' and d['op'] == 'num':
                ints.append(n)
        rng.shuffle(params)
        sources.append({'params': params, 'consts': consts})
    configs = []
    for _ in range(rng.choice([1, 2, 3])):
        rows = []
        s = rng.choice(sources)
        order = [p['name'] for p in s['params']]
        keys = {p['name']: p['key'] for p in s['params']}
        consts = [c['name'] for c in s['consts']]
        for n in rng.sample(order, min(len(order), rng.choice([1, 2, 4]))):
            # refer only to parameters this user does not set, or set before
            risky = rng.random() < 0.2 or len(sources) > 1
            safe = [m for m in order if kinds[m] == 'float' and m != n] if risky and rng.random() < 0.5 else \
                [r['real'] for r in rows if kinds[r['real']] == 'float']
            if kinds[n] == 'int':
                d = {'op': 'num', 'id': rng.choice(['0', '2', '15', '-1'])}
            else:
                d = typed(rng, kinds[n], safe, consts, risky)
            rows.append({'name': keys[n], 'real': n, 'def': d})
        configs.append([{'name': r['name'], 'def': r['def']} for r in rows])
    return {'sources': sources, 'configs': configs}


def computable(out):
    """True unless some expected value divides by (nearly) zero or overflows."""
    for r in out:
        if r['is'] == 'value' and r['v']['op'] not in ('text', 'list', 'nprocs'):
            try:
                x = number(r['v'])
            except (ZeroDivisionError, OverflowError, KeyError):
                return False
            if not math.isfinite(x) or not stable(r['v']):
                return False
    return True


def worlds(check, folder):
    rng = check.rng
    cases = []
    for _ in range(check.pick(350, 4000)):
        w = make_world(rng)
        ns, nc = len(w['sources']), len(w['configs'])
        start = {'src': rng.randint(1, ns), 'cfg': rng.randint(0, nc)}
        steps = []
        names = sorted({p['name'] for s in w['sources'] for p in s['params']}) + ['nothing', 'SCALE']
        for _ in range(rng.choice([4, 8, 14])):
            r = rng.random()
            if r < 0.65:
                steps.append({'do': 'look', 'name': rng.choice(names)})
            elif r < 0.8:
                steps.append({'do': 'config', 'to': rng.randint(0, nc)})
            elif r < 0.88:
                steps.append({'do': 'source', 'to': rng.randint(1, ns)})
            elif r < 0.92:
                steps.append({'do': 'both', 'src': rng.randint(1, ns), 'cfg': rng.randint(0, nc)})
            else:
                steps.append({'do': 'names'})
        cases.append({'world': w, 'start': start, 'steps': steps})
    for c, v in zip(cases, check.evaluate('ParamCases', cases)):
        if not computable(v['out']):
            check.count('skipped')
            continue
        w = c['world']
        sources = {k + 1: write_source(folder / f'w{k}', s, rng) for k, s in enumerate(w['sources'])}
        configs = {k + 1: write_config(folder / f'w{k}.cfg', x, rng) for k, x in enumerate(w['configs'])}
        configs[0] = None
        tag, subject = core.outcome(Subject, check, sources, configs, c['start']['src'], c['start']['cfg'])
        if tag == 'err':
            check.violation('the runtime can be created', f'{subject}', case=c)
            continue
        for k, (o, want) in enumerate(zip(c['steps'], v['out'])):
            tag, value = subject.apply(o)
            bad = subject.agrees(o, want, tag, value)
            if bad:
                text = {str(p): p.read_text() for p in [*configs.values(), *(s / 'configuration.c' for s in sources.values()),
                                                        *(s / 'baseTypes.h' for s in sources.values())] if p}
                check.violation('resolved value', f'{bad} after {c["steps"][:k + 1]} from {c["start"]} in {text}', case=c)
                break
            check.count('steps')
        check.validated += 1


# -- the documented parameters ----------------------------------------------------
def plain(arg):
    """The value of an argument as plain numbers or text."""
    data = arg.data
    if isinstance(data, numpy.ndarray):
        return data.tolist()
    if isinstance(data, numpy.generic):
        return data.item()
    return data


def argument_agrees(arg, want, unit):
    """None if a unit-carrying argument is what the specification says."""
    if unit:
        if arg.unit is None or metadata.Unit(unit) != arg.unit:
            return f'unit {arg.unit}, expected {unit}'
    elif arg.unit is not None:
        return f'unit {arg.unit}, expected none'
    v = want['v']
    if v['op'] == 'text':
        return None if plain(arg) == v['t'] else f'{plain(arg)!r}, expected {v["t"]!r}'
    if v['op'] == 'nprocs':
        return None if plain(arg) is None else f'{plain(arg)!r}, expected none'
    xs = [float(i) for i in v['ids']] if v['op'] == 'list' else [number(v)]
    tol = 1e-12 * (size(v) if v['op'] != 'list' else 1)
    got = list(arg)
    if len(got) != len(xs) or len(arg) != len(xs):
        return f'{got}, expected {xs}'
    if not all(math.isclose(float(g), x, rel_tol=1e-9, abs_tol=tol) for g, x in zip(got, xs)):
        return f'{got}, expected {xs}'
    if len(xs) == 1:
        if unit and not math.isclose(float(arg), xs[0], rel_tol=1e-9, abs_tol=tol):
            return f'float gives {float(arg)}, expected {xs[0]}'
        if want['type'] == 'int' and not isinstance(plain(arg), numbers.Integral):
            return f'{plain(arg)!r} is not an integer'
    return None


def package(check, folder):
    rng = check.rng
    first = check.tlc('PackageCases', env={'CASES': empty(folder)})
    info = next(e for e in check.emitted(first) if e['i'] == 0)
    rows = {r['name']: r for r in info['table']}
    local = {r['name']: r for r in info['local']}
    floats = [n for n in rows if rows[n]['type'] == 'float']
    consts = ['MAS_TIME_NORM', 'TAU', 'AU', 'C', 'PI', 'RSAU']
    cases = []
    everything = sorted(rows) + sorted(local)
    for k in range(check.pick(60, 600)):
        user = []
        chosen = rng.sample(sorted(rows), rng.choice([0, 1, 3, 6, 12]) if k else 0)
        if rng.random() < 0.5:
            chosen = list({*chosen, *rng.sample(['simStartTime', 'tDel', 'simStopTime', 'epCalcStartTime', 'idealShockInitTime'], 2)})
        chosen.sort()
        rng.shuffle(chosen)
        for n in chosen:
            kind = rows[n]['type']
            if kind == 'int':
                d = {'op': 'num', 'id': rng.choice(['0', '1', '2', '7', '-1', '100'])}
            else:
                safe = [m for m in floats if m not in ('simStopTime', 'epCalcStartTime', 'idealShockInitTime') and m not in chosen]
                d = typed(rng, kind, safe + [u['name'] for u in user if u['name'] in floats], consts)
            user.append({'name': n, 'def': d})
        look = everything if k < 2 else sorted(set(chosen) | set(rng.sample(everything, 12)) |
                                               {'simStopTime', 'epCalcStartTime', 'omegaSun', 'rigidityPower'})
        cases.append({'user': user, 'look': look})
    path = folder / 'user.cfg'
    for c, v in zip(cases, [x for x in check.evaluate('PackageCases', cases)]):
        if not computable(v['values']):
            check.count('skipped')
            continue
        mark = rng.choice(['#', '#', '!'])
        write_config(path, c['user'], rng, mark)
        opts = {} if mark == '#' else {'comments': ['!']}
        given = None if not c['user'] and rng.random() < 0.5 else rng.choice([path, str(path)])
        tag, face = core.outcome(runtime.Interface, given, **(opts if given else {}))
        text = path.read_text()
        if tag == 'err':
            check.violation('parameters can be loaded', f'{text!r} raised {face}', case=c)
            continue
        tag, args = core.outcome(runtime.Arguments, None, given, **(opts if given else {}))
        run_ = runtime.Runtime(None, given, **(opts if given else {}))
        if tag == 'err':
            check.violation('parameters can be loaded', f'arguments from {text!r} raised {args}', case=c)
            continue
        for n, want in zip(c['look'], v['values']):
            row = rows.get(n) or local[n]
            for name in [n, *row['aliases']]:
                t, arg = core.outcome(face.__getitem__, name)
                bad = f'raised {arg}' if t == 'err' else argument_agrees(arg, want, row['unit'])
                if bad:
                    check.violation('value of a parameter', f'{name} ({n}): {bad} with {text!r}', case=c)
                given_by_user = any(u['name'] == n for u in c['user'])
                t, arg = core.outcome(face.config, name)
                bad = (f'raised {arg}' if t == 'err' else
                       argument_agrees(arg, want, row['unit']) if given_by_user else
                       None if arg is None else f'gave {arg} although the user did not')
                if bad:
                    check.violation("the user's value", f'config({name!r}): {bad} with {text!r}', case=c)
                t, got = core.outcome(args.__getitem__, name)
                if t == 'err':
                    check.violation('value of an argument', f'{name} ({n}) raised {got} with {text!r}', case=c)
                elif row['unit']:
                    xs = [float(i) for i in want['v']['ids']] if want['v']['op'] == 'list' else [number(want['v'])]
                    tol = 1e-12 * (size(want['v']) if want['v']['op'] != 'list' else 1)
                    data = [float(x) for x in numpy.ravel(got.data)]
                    if len(data) != len(xs) or not all(math.isclose(g, x, rel_tol=1e-9, abs_tol=tol) for g, x in zip(data, xs)) \
                            or got.unit != metadata.Unit(row['unit']):
                        check.violation('value of an argument', f'{name}: {got}, expected {xs} {row["unit"]} with {text!r}', case=c)
                else:
                    bad = agrees(got.value, want)
                    if bad:
                        check.violation('value of an argument', f'{name}: {bad} with {text!r}', case=c)
                check.count('look_ups')
            if n in rows:
                t, got = core.outcome(run_.__getitem__, n)
                bad = f'raised {got}' if t == 'err' else agrees(got, want)
                if bad:
                    check.violation('value of a parameter', f'{n}: {bad} with {text!r}', case=c)
        for name in ('no such parameter', 'eMinn', ''):
            if core.outcome(face.__getitem__, name)[0] == 'ok' or core.outcome(run_.__getitem__, name)[0] == 'ok':
                check.violation('unknown parameters are refused', name, case=c)
        check.validated += 1
    names = set(run_)
    if names != set(rows):
        check.violation('the documented parameters', f'missing {set(rows) - names}, extra {names - set(rows)}')


def empty(folder):
    p = folder / 'none.ndjson'
    p.write_text('')
    return p


def run(check):
    folder = check.tmp / 'files'
    folder.mkdir()
    model(check, folder)
    worlds(check, folder)
    package(check, folder)
    check.assumptions += [
        'definitions are sums of products of numbers, parameters and constants; sums inside parentheses are not judged',
        'a value given for a parameter in terms of itself, or of an unknown name, is refused',
        'parameters defined by the number of processors have no value',
    ]
