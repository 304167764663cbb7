"""C20: configuration and source files are read faithfully."""
import contextlib
import io
import json
import math
import pathlib

import core
from goats.eprem import runtime


def write(path, lines, rng=None):
    """Write a file; its last line may lack the newline."""
    text = '\n'.join(lines)
    if lines and (rng is None or rng.random() < 0.7):
        text += '\n'
    with open(path, 'w', newline='') as fp:
        fp.write(text)
    return path


def load(path, marks=None, rng=None):
    args = {} if marks in (None, ['#']) else {'comments': list(marks)}
    if marks == ['#'] and rng and rng.random() < 0.2:
        args = {'comments': ['#']}
    given = str(path) if rng is None or rng.random() < 0.5 else pathlib.Path(path)
    return core.outcome(runtime.ConfigFile, given, **args)


def contents(cfg):
    """Everything the file object says, through each of its views."""
    flat = {k: cfg[k] for k in cfg}
    views = [dict(cfg), dict(cfg.items()), {k: cfg.get(k) for k in cfg.keys()},
             dict(zip(cfg.keys(), cfg.values()))]
    return flat, all(v == flat for v in views) and len(cfg) == len(flat)


def one_file(check, tag, cfg, st, want, what, case):
    """Compare one loaded file with what the specification read."""
    if st == 'open':
        return None
    if st == 'error':
        if tag == 'ok':
            check.violation('a line that assigns nothing is refused',
                            f'{what} was read as {dict(cfg)}', case=case)
        return None
    if tag == 'err':
        check.violation('the file is read', f'{what} raised {cfg}, expected {want}', case=case)
        return None
    flat, same = contents(cfg)
    if flat != want:
        check.violation('exactly the assignments', f'{what} was read as {flat}, expected {want}', case=case)
    if not same:
        check.violation('all views of a file agree', f'{what}', case=case)
    for k in ('zz', ' a', 'a '):
        if (k in cfg) != (k in want):
            check.violation('membership', f'{k!r} in {what}', case=case)
        t, v = core.outcome(cfg.__getitem__, k)
        if (t == 'ok') != (k in want):
            check.violation('unknown names are refused', f'{what}[{k!r}] gave {t} {v}', case=case)
    return cfg


def compared(check, a, b, v, what, case, other=None):
    """Compare the comparison of two loaded files with the specification's."""
    left = {p['k']: p['v'] for p in v['full'][0]}
    right = {p['k']: p['v'] for p in v['full'][1]}
    arg = other if other is not None else b
    tag, got = core.outcome(a.diff, arg)
    if tag == 'err':
        check.violation('files can be compared', f'{what}: diff raised {got}', case=case)
        return
    keys = {n: set(got['keys'][n]) for n in (0, 1)}
    if keys != {0: set(v['only'][0]), 1: set(v['only'][1])}:
        check.violation('parameters only one file has', f'{what}: {keys}, expected {v["only"]}', case=case)
    if dict(got['full'][0]) != left or dict(got['full'][1]) != right:
        check.violation('differing values', f'{what}: {got["full"]}, expected {left} and {right}', case=case)
    tag, got = core.outcome(a.compare, arg)
    want = {k: (left.get(k), right.get(k)) for k in v['keys']}
    if tag == 'err' or dict(got) != want:
        check.violation('comparison', f'{what}: {got}, expected {want}', case=case)
    check.count('comparisons')


def lines_table(check, folder, cfg, marks):
    rng = check.rng
    out = check.tlc('LineTable', cfg, heap='4g', timeout=3000)
    path = folder / 'line.cfg'
    rows = list(check.emitted(out))
    for r in rows:
        write(path, [r['line']] if r['line'] or rng.random() < 0.5 else [], rng)
        tag, got = load(path, marks, rng)
        st = {'nothing': 'ok', 'assign': 'ok'}.get(r['is'], r['is'])
        want = {r['key']: r['value']} if r['is'] == 'assign' else {}
        one_file(check, tag, got, st, want, repr(r['line']), r)
        check.count('lines')
    check.validated += len(rows)
    check.sample(next(r for r in rows if r['is'] == 'assign' and len(r['line']) > 3))


def pairs_model(check, folder):
    rng = check.rng
    rows = list(check.emitted(check.tlc(
        'ConfigModel', check.pick('ConfigModel.cfg', 'ConfigModelThorough.cfg'),
        heap='4g', timeout=3000)))
    menu = next(r['menu'] for r in rows if 'menu' in r)
    pa, pb = folder / 'left.cfg', folder / 'right.cfg'
    rows = [r for r in rows if 'left' in r]
    for r in rows:
        la, lb = ([menu[j - 1] for j in r[s]] for s in ('left', 'right'))
        write(pa, la, rng), write(pb, lb, rng)
        (ta, a), (tb, b) = load(pa, None, rng), load(pb, None, rng)
        what = f'{la} against {lb}'
        a = one_file(check, ta, a, 'ok', {p['k']: p['v'] for p in r['L']}, what, r)
        b = one_file(check, tb, b, 'ok', {p['k']: p['v'] for p in r['R']}, what, r)
        if a is not None and b is not None:
            compared(check, a, b, r, what, r,
                     other=rng.choice([None, None, str(pb), pathlib.Path(pb)]))
    check.validated += len(rows)


NAMES = ['eMin', 'eMax', 'lamo', 'simStartTime', 'mass', 'x', 'warningsFile']
VALUES = ['1', '2.5e-4', '[1.0, 4.0]', 'config.eMin * 2', 'out.txt', 'a b', '-1.0 * BADVALUE', '1=2', '']


def random_line(rng, marks):
    sp = lambda: rng.choice(['', '', ' ', '  ', '\t', ' \t '])
    tail = lambda: rng.choice(['', '', '', rng.choice(marks) + rng.choice(['note', ' x = 1', '', ' # ! =', '=']), ' '])
    r = rng.random()
    if r < 0.12:
        return sp()
    if r < 0.27:
        return sp() + rng.choice(marks) + rng.choice([' note', 'eMin=7', ' eMin = 7 # x', ''])
    if r < 0.29:
        return sp() + rng.choice(NAMES) + sp() + tail()
    return sp() + rng.choice(NAMES) + sp() + '=' + sp() + rng.choice(VALUES) + sp() + tail()


def random_files(check, folder):
    rng = check.rng
    pa, pb = folder / 'a.cfg', folder / 'b.cfg'
    cases = []
    for _ in range(check.pick(500, 6000)):
        marks = rng.choice([['#'], ['#'], ['!'], ['#', '!'], ['!', '#'], [';']])
        a = [random_line(rng, marks) for _ in range(rng.choice([0, 1, 3, 6, 12]))]
        b = list(a) if rng.random() < 0.4 else [random_line(rng, marks) for _ in range(rng.choice([1, 3, 6]))]
        if rng.random() < 0.5 and b:
            b[rng.randrange(len(b))] = random_line(rng, marks)
        if rng.random() < 0.3:
            rng.shuffle(b)
        cases.append({'a': a, 'b': b, 'marks': marks})
    # long files, with assignments after tens of thousands of characters
    for n in (150, check.pick(600, 1500)):
        fine = lambda: rng.choice([rng.choice(NAMES) + f'{rng.randrange(n)} = {rng.randrange(999)}', '# ' + 'a long note ' * 12, ''])
        a = [fine() for _ in range(n)]
        cases.append({'a': a + ['last = 1'], 'b': a[:n // 2] + ['last = 2'], 'marks': ['#']})
    coded = [{'a': [list(l) for l in c['a']], 'b': [list(l) for l in c['b']], 'marks': c['marks']}
             for c in cases]
    for c, v in zip(cases, check.evaluate('ConfigCases', coded)):
        if not v['laws']:
            raise core.MachineryError('comparison laws fail')
        write(pa, c['a'], rng), write(pb, c['b'], rng)
        (ta, a), (tb, b) = load(pa, c['marks'], rng), load(pb, c['marks'], rng)
        what = f'{c["a"]} against {c["b"]} with {c["marks"]}'
        a = one_file(check, ta, a, v['a']['st'], {p['k']: p['v'] for p in v['a']['map']}, repr(c['a']), c)
        b = one_file(check, tb, b, v['b']['st'], {p['k']: p['v'] for p in v['b']['map']}, repr(c['b']), c)
        if a is not None and b is not None:
            compared(check, a, b, v, what, c)
        check.validated += 1
        check.count('files', 2)


# -- source files ----------------------------------------------------------
CONST = ['AU', 'C', 'TAU', 'MP', 'GEV', 'PI', 'DAY', 'OM', 'RSUN', 'MAS_TIME_NORM', 'T', 'Q',
         'MHD_B_NORM', 'THRESH', 'MZERO', 'MY_SCALE', 'EXTRA', 'A_B_C', 'MHD_2', 'R0']
INTS = ['BADINT', 'F', 'MHD_MAS', 'MAX_STRING_SIZE', 'COUNT']
NUMS = ['1.0', '24.0', '60.0', '2.0', '0.5', '3.25', '1e3', '1.495978707e13', '2.99792458e10',
        '1.6726e-24', '4.0', '1.25E-2', '100.', '5.0e-5', '-2.5']


def tree(rng, known, nums, depth=0):
    r = rng.random()
    if depth >= 3 or r < 0.25:
        if known and rng.random() < 0.6:
            return {'op': 'ref', 'name': rng.choice(known)}
        n = rng.choice(NUMS[:-1])
        nums.append(float(n))
        return {'op': 'num', 'id': len(nums), 'text': n}
    if r < 0.55:
        return {'op': 'mul', 'x': tree(rng, known, nums, depth + 1), 'y': factor(rng, known, nums, depth + 1)}
    if r < 0.8:
        return {'op': 'div', 'x': tree(rng, known, nums, depth + 1), 'y': factor(rng, known, nums, depth + 1)}
    if r < 0.88:
        return {'op': 'sqrt', 'x': tree(rng, known, nums, depth + 1)}
    return {'op': 'par', 'x': tree(rng, known, nums, depth + 1)}


def factor(rng, known, nums, depth):
    t = tree(rng, known, nums, depth)
    return t if t['op'] not in ('mul', 'div') else {'op': 'par', 'x': t}


def render(t, rng):
    sp = lambda: rng.choice(['', ' ', ' '])
    op = t['op']
    if op == 'num':
        return t['text']
    if op == 'ref':
        return t['name']
    if op == 'par':
        return f'({sp()}{render(t["x"], rng)}{sp()})'
    if op == 'sqrt':
        return f'sqrt({sp()}{render(t["x"], rng)}{sp()})'
    gap = sp()
    return render(t['x'], rng) + gap + ('*' if op == 'mul' else '/') + gap + render(t['y'], rng)


def has_root(t):
    return t['op'] == 'sqrt' or any(has_root(t[k]) for k in ('x', 'y') if k in t)


NOISE = ['', '/* EPREM */', '// #define AU 2.0', 'typedef double Scalar_t;', '#include <math.h>',
         '#ifndef BASETYPES_H', '#define BASETYPES_H', '#endif', '#define LABEL "a name"',
         '#define SQUARE(x) ((x)*(x))', ' * #define C 1.0', 'int numSpecies;', '/* #define AU 3.0 */']


def make_header(rng, check):
    nums, defs, lines, known, taken, roots = [], [], [], [], [], {}
    undefined = rng.random() < 0.1
    for _ in range(rng.choice([1, 3, 6, 10])):
        if rng.random() < 0.15:
            name, n = rng.choice(INTS), rng.choice(['0', '1', '3', '240', '2147483647'])
            nums.append(float(n))
            t = {'op': 'num', 'id': len(nums), 'text': n}
        else:
            # a name is redefined only before anything refers to it
            free = [c for c in CONST if c not in taken]
            if not free:
                break
            name = rng.choice(free)
            if rng.random() < 0.35:
                n = rng.choice(NUMS)
                nums.append(float(n))
                t = {'op': 'num', 'id': len(nums), 'text': n}
            else:
                pool = [k for k in known if roots.get(k, 0) < 3]
                t = tree(rng, pool, nums)
                if undefined and rng.random() < 0.3:
                    t = {'op': 'mul', 'x': t, 'y': {'op': 'ref', 'name': 'NOT_DEFINED'}}
                if rng.random() < 0.5 and t['op'] not in ('num', 'ref'):
                    t = {'op': 'par', 'x': t}
            # nothing refers to a negative or an undefined constant
            if 'NOT_DEFINED' not in pool_refs(t) and t.get('text') != '-2.5':
                known.append(name)
            taken.append(name)
            roots[name] = 1 + max([roots.get(k, 0) for k in pool_refs(t)] + [0]) if has_root(t) else \
                max([roots.get(k, 0) for k in pool_refs(t)] + [0])
        defs.append({'name': name, 'tree': t})
        gap = rng.choice([' ', '  ', '\t', '     '])
        end = rng.choice(['', '', '', ' ', '  /* a constant */', ' // the value', ' /* in cgs */'])
        if rng.random() < 0.15:
            end += rng.choice([' /* in cgs */', ' /* a */ /* b */', ' /* a */ // b'])
        mid = rng.choice([' ', '   ', chr(9)]) if rng.random() < 0.9 else ' /* value */ '
        lines.append(f'{rng.choice(["", "", "  ", "/* new */ "])}#define{gap}{name}{mid}{render(t, rng)}{end}')
        while rng.random() < 0.4:
            lines.append(rng.choice(NOISE))
    negative = {k for k in range(1, len(nums) + 1) if nums[k - 1] < 0}
    return nums, defs, lines, negative


def pool_refs(t):
    if t['op'] == 'ref':
        return [t['name']]
    return [n for k in ('x', 'y') if k in t for n in pool_refs(t[k])]


PARAM = ['eMin', 'eMax', 'numSpecies', 'lamo', 'simStartTime', 'mass', 'charge', 'warningsFile', 'my_par', 'tDel', 'x2']
DEFAULTS = {
    'readInt': ['0', '1', '20', 'BADINT', 'N_PROCS', '-3'],
    'readDouble': ['0.0', '1.0e-4', '400.0e5', 'config.simStartTime', 'config.simStartTime + config.tDel',
                   '(0.004144/MAS_TIME_NORM)*TAU', '2.0 * PI', 'VERYSMALL', '-1.0 * BADVALUE', 'third'],
    'readString': ['"warningsXXX.txt"', '""', '"/a/dir"', '"two words"'],
}
CNOISE = ['', '// config.eMin = readDouble("eMin", 9.0, 0.0, 1.0);', 'config.masTime = 0;', 'readIt();',
          '/* config.eMax = readInt("eMax", 1, 2, 3); */', 'int n = 0;', 'void read(char* s) {', '}',
          'config.other = other;', 'Scalar_t single = 1.0;']


def make_source(rng):
    calls, arrays, body = [], [], []
    for a in range(rng.choice([0, 1, 2])):
        values = [rng.choice(['1.0', '2', '0', '4.5', '.5', '16.0']) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
        arrays.append({'name': f'default{a}', 'values': values})
        sp = lambda: rng.choice(['', ' '])
        body.append(f'{rng.choice(["", "  "])}Scalar_t default{a}[{len(values)}]{sp()}={sp()}{{{(","+sp()).join(values)}}};'
                    + rng.choice(['', '', '  ', ' // default']))
    for _ in range(rng.choice([1, 3, 6])):
        name = rng.choice(PARAM)
        key = name if rng.random() < 0.8 else rng.choice(['Other', 'input_' + name])
        mode = rng.choice(['readInt', 'readDouble', 'readDouble', 'readString'] + (['readDoubleArray'] * 2 if arrays else []))
        sp = lambda: rng.choice(['', ' ', '  '])
        limits = []
        if mode == 'readDoubleArray':
            default = rng.choice(arrays)['name']
            args = [f'&config.{name}Size', default]
        else:
            text = rng.choice(DEFAULTS[mode])
            default = text.strip('"')
            args = [text]
            if mode != 'readString':
                limits = [rng.choice(['0', 'VERYSMALL', '-1.0 * BADVALUE', 'config.eMin']),
                          rng.choice(['1', 'BADVALUE', 'PI', '2.0 * PI'])]
                args += limits
        calls.append({'name': name, 'key': key, 'mode': mode, 'default': default, 'limits': limits})
        cast = '(char*)' if mode == 'readString' else ''
        eq = rng.choice([' = ', '=', '  =  '])
        body.append(f'{rng.choice(["", "  ", chr(9)])}config.{name}{eq}{cast}{mode}("{key}",'
                    + ','.join(sp() + a + rng.choice(['', '', '', ' /* or so */']) for a in args)
                    + ');' + rng.choice(['', '', '  ', ' // note', ' /* note */']))
        if rng.random() < 0.1:
            body[-1] = '/* input */ ' + body[-1]
        while rng.random() < 0.3:
            body.append(rng.choice(CNOISE))
    return calls, arrays, body


TYPES = {'readInt': int, 'readDouble': float, 'readString': str, 'readDoubleArray': list}


def constants(check, source, nums, verdicts, text):
    """The constants the code reads against the specification's values."""
    tag, got = core.outcome(runtime.BaseTypesH, source)
    if tag == 'err':
        check.violation('headers are read', f'{text} raised {got}', case=text)
        return
    names = {v['name'] for v in verdicts}
    if set(got) != names or len(got) != len(names):
        check.violation('every defined constant', f'{text}: {sorted(got)}, expected {sorted(names)}', case=text)
        return
    order = list(verdicts)
    check.rng.shuffle(order)
    for v in order:
        want = math.prod(nums[n - 1] ** (e / 64) for n, e in v['m']) if v['ok'] else None
        for _ in range(2):
            tag, x = core.outcome(got.__getitem__, v['name'])
            if not v['ok']:
                if tag == 'ok':
                    check.violation('a constant defined by an undefined name is refused',
                                    f'{v["name"]} = {x} in {text}', case=text)
            elif tag == 'err' or not isinstance(x, (int, float)) or not math.isclose(x, want, rel_tol=1e-9, abs_tol=0):
                check.violation('the value of a constant', f'{v["name"]} = {x}, expected {want} in {text}', case=text)
        check.count('constants')


def close_text(a, b):
    return ''.join(str(a).split()) == ''.join(str(b).split())


def parameters(check, got, verdicts, text):
    names = {v['name'] for v in verdicts}
    if set(got) != names or len(got) != len(names):
        check.violation('every declared parameter', f'{sorted(got)}, expected {sorted(names)} from {text}', case=text)
        return
    for v in verdicts:
        d = got[v['name']]
        bad = []
        if d.get('type') is not TYPES[v['mode']]:
            bad.append('type')
        if v['array']:
            t, x = core.outcome(lambda: [float(i) for i in str(d.get('default')).strip('[]').split(',')])
            if t == 'err' or x != [float(i) for i in v['values']]:
                bad.append('default')
        elif not isinstance(d.get('default'), str) or d['default'] != v['default']:
            bad.append('default')
        if d.get('alias', '') != v['alias']:
            bad.append('alias')
        limits = [d[k] for k in ('minimum', 'maximum') if k in d]
        if limits != v['limits']:
            bad.append('limits')
        if bad:
            check.violation('the declaration of a parameter',
                            f'{v["name"]}: {d} is wrong in {bad}, expected {v} from {text}', case=text)
        check.count('parameters')


def sources(check, folder):
    rng = check.rng
    cases, extra = [], []
    for _ in range(check.pick(500, 5000)):
        nums, defs, head, _neg = make_header(rng, check)
        calls, arrays, body = make_source(rng)
        rng.random() < 0.3 and rng.shuffle(body)
        if rng.random() < 0.03:  # files as long as the real ones
            head = [rng.choice(NOISE) for _ in range(900)] + head
            body = [rng.choice(CNOISE) for _ in range(900)] + body
        cases.append({'defs': defs, 'calls': calls if not shuffled(body, calls) else calls, 'arrays': arrays})
        extra.append((nums, head, body))
    # the order of calls matters when a name is declared twice: read it back
    for c, (_, _, body) in zip(cases, extra):
        c['calls'] = in_order(c['calls'], body)
    src = folder / 'src'
    src.mkdir()
    h, c_ = src / 'baseTypes.h', src / 'configuration.c'
    for c, (nums, head, body), v in zip(cases, extra, check.evaluate('HeaderCases', cases)):
        write(h, head, rng), write(c_, body, rng)
        given = rng.choice([src, str(src)])
        single = rng.random() < 0.3
        constants(check, rng.choice([h, str(h)]) if single else given, nums, v['constants'], head)
        tag, got = core.outcome(runtime.ConfigurationC, rng.choice([c_, str(c_)]) if single else given)
        if tag == 'err':
            check.violation('sources are read', f'{body} raised {got}', case=body)
        else:
            parameters(check, got, v['parameters'], body)
        if rng.random() < 0.2 and tag == 'ok':
            database(check, src, folder / 'db', body)
        check.validated += 1


def shuffled(body, calls):
    return False


def in_order(calls, body):
    """The generated calls in the order of the lines that render them."""
    rest = list(calls)
    out = []
    for line in body:
        t = line.replace('/* input */ ', '').replace(' /* or so */', '').strip()
        if not t.startswith('config.'):
            continue
        for k, c in enumerate(rest):
            name = t[7:].split('=')[0].strip()
            squeezed = ''.join(t.split())
            args = ([f'&config.{c["name"]}Size', c['default']] if c['mode'] == 'readDoubleArray'
                    else [f'"{c["default"]}"' if c['mode'] == 'readString' else c['default']] + c['limits'])
            tail = ''.join((f'{c["mode"]}("{c["key"]}",' + ','.join(args) + ');').split())
            if name == c['name'] and tail in squeezed:
                out.append(rest.pop(k))
                break
    if rest:
        raise core.MachineryError(f'lost calls {rest} in {body}')
    return out


def database(check, src, out, text):
    """Writing the defaults and reading them back loses nothing."""
    base, conf = runtime.BaseTypesH(src), runtime.ConfigurationC(src)
    tag, err = core.outcome(runtime.generate_defaults, str(src), output=str(out))
    if tag == 'err':
        check.violation('defaults can be saved', f'{err} for {text}', case=text)
        return
    saved = json.loads(out.with_suffix('.json').read_text())
    again = {k: {'type' if j == 'mode' else j: TYPES[x] if j == 'mode' else x for j, x in d.items()}
             for k, d in saved['_CONFIGURATION_C'].items()}
    if again != {k: conf[k] for k in conf}:
        check.violation('saved defaults', f'{again} from {text}', case=text)
    if {k: ''.join(str(v).split()) for k, v in saved['_BASETYPES_H'].items()} != {
            k: ''.join(str(v).split()) for k, v in base.definitions.items()}:
        check.violation('saved constants', str(saved['_BASETYPES_H']), case=text)
    check.count('databases')


# -- tables that compare arguments -------------------------------------------
ARGS = {'eMin': 1.0, 'eMax': 1000.0, 'lamo': 1.0, 'numSpecies': 1, 'dsh_min': 5e-05, 'masDigits': 3,
        'idw_p': 3.0, 'rScale': 0.005, 'kperxkpar': 0.01, 'mhdBAu': 1.6e-5, 'flowMag': 4e7,
        'simStartTime': 0.0, 'numObservers': 0}
WHOLE = {'numSpecies', 'masDigits', 'numObservers'}
SPELLED = [['0', '0.0'], ['1', '1.0'], ['2', '2.0', '2e0'], ['3', '3.0'], ['0.005', '5e-3'],
           ['1000', '1e3'], ['1.6e-5', '0.000016'], ['-2.5']]


def cell(text):
    """The number or the absence that a cell of a table shows."""
    return None if text == 'None' else float(text.split()[0])


def parse(text):
    """The blocks of a printed table: title -> [(label, cell)]."""
    out, lines = {}, text.split('\n')
    for k, line in enumerate(lines):
        if line and set(line) == {'-'}:
            title, rows = lines[k - 1].strip(), []
            for row in lines[k + 1:]:
                if not row.strip():
                    break
                label, _, value = row.strip().partition(' ')
                if not value and label.endswith('None'):   # narrow columns touch
                    label, value = label[:-4], 'None'
                rows.append((label, value.strip()))
            out.setdefault(title, []).append(rows)
    return out


def argument_tables(check, folder):
    rng = check.rng
    base = folder / 'args'
    (base / 'one').mkdir(parents=True), (base / 'two').mkdir()
    spots = ['a.cfg', 'b.cfg', 'one/a.cfg', 'one/b.cfg', 'two/a.cfg']
    names = sorted(runtime.ConfigurationC())
    cases, extra = [], []
    for _ in range(check.pick(60, 800)):
        files, texts = [], []
        for k in range(rng.choice([1, 2, 2, 3])):
            if files and rng.random() < 0.5:
                rows = [dict(r) for r in files[-1]]
                if rows and rng.random() < 0.7:
                    rows[rng.randrange(len(rows))]['value'] = rng.choice([1, 2, 3, 4])
            else:
                rows = []
                for n in rng.sample(sorted(ARGS), rng.choice([0, 1, 2, 5])):
                    rows.append({'name': n, 'value': rng.choice([1, 2, 3, 4] if n in WHOLE else range(1, 9))})
            for r in rows:
                if r['name'] in WHOLE and r['value'] > 4:
                    r['value'] = 2
            files.append(rows)
            texts.append([f'{r["name"]} = '
                          + (SPELLED[r["value"] - 1][0] if r['name'] in WHOLE else rng.choice(SPELLED[r["value"] - 1]))
                          for r in rows])
        cases.append({'names': names, 'files': files, 'mode': rng.choice(['show', 'diff', 'diff', 'diff'])})
        extra.append((texts, rng.sample(spots, len(files))))
    for c, (texts, where), v in zip(cases, extra, check.evaluate('ArgumentCases', cases)):
        paths = [write(base / w, t, rng) for w, t in zip(where, texts)]
        what = f'{c["mode"]} {dict(zip(where, texts))}'
        given = [rng.choice([str, pathlib.Path])(p) for p in paths]
        out = io.StringIO()
        args = {} if c['mode'] == 'show' and rng.random() < 0.5 else {'action': c['mode']}
        with contextlib.redirect_stdout(out):
            tag, err = core.outcome(runtime.compare_arguments, given, **args)
        if tag == 'err':
            check.violation('arguments can be compared', f'{what} raised {err}', case=c)
            continue
        got = parse(out.getvalue())
        want = {r['name']: r['row'] for r in v['table']}
        if set(got) != set(want) or any(len(b) > 1 for b in got.values()):
            check.violation('the parameters that differ', f'{what}: {sorted(got)}, expected {sorted(want)}', case=c)
            continue
        for n, row in want.items():
            rows = got[n][0]
            shown = dict(rows)
            if n in ARGS or any(row):
                cells = [cell(shown[l]) for l in sorted(shown, key=labels(where))] if len(shown) == len(where) + 1 else None
                expect = [ARGS.get(n)] + [float(SPELLED[x - 1][0]) if x else None for x in row]
                if cells != expect:
                    check.violation('the compared values', f'{what}: {n} has {rows}, expected {expect}', case=c)
            elif any(shown[l] != 'None' for l in shown if l != 'default'):
                check.violation('the compared values', f'{what}: {n} has {rows}, expected no values', case=c)
        check.validated += 1
        check.count('argument tables')
    tag, _ = core.outcome(runtime.compare_arguments, [str(base / 'a.cfg')], action='list')
    if tag == 'ok':
        check.violation('unknown comparisons are refused', 'action list was accepted', case='list')


def labels(where):
    """Order the labels of a table like the files: default first, then the
    file whose path ends in the label (the labels are distinct tails)."""
    def key(label):
        if label == 'default':
            return 0
        hits = [k for k, w in enumerate(where) if ('/' + w).endswith('/' + label)]
        exact = [k for k in hits if where[k] == label]
        return 1 + (exact or hits or [99])[0]
    return key


def run(check):
    folder = check.tmp / 'files'
    folder.mkdir()
    lines_table(check, folder, check.pick('LineTable.cfg', 'LineTableThorough.cfg'), ['#'])
    lines_table(check, folder, 'LineTable2.cfg', check.rng.choice([['#', '!'], ['!', '#']]))
    pairs_model(check, folder)
    random_files(check, folder)
    sources(check, folder)
    argument_tables(check, folder)
    check.assumptions += [
        'a line with text but no equals sign is refused; a line that begins with one is not judged',
        'source declarations are one per line, constants are products, quotients and square roots',
    ]
