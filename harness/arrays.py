"""Programs over array quantities: generate, let the specification (Arrays.tla)
say what each step gives, run them on the real classes and compare."""
import fractions
import operator

import netCDF4
import numpy

import core
from goats.core import measurable, physical, variable

AXES = ['t', 'r', 'e', 'q']
UNITS = [[['m', 1, 1]], [['s', 1, 1]], [['J', 1, 1]], [], [['m', 1, 1], ['s', -1, 1]], [['m', 2, 1]], [['km', 1, 1]], [['m', -3, 1]], [['J', 1, 1], ['m', -2, 1]]]
LENGTHS = {'m': 0, 'km': 3, 'mm': -3}


def text(unit):
    """A unit expression of the model as text."""
    parts = []
    for b, n, d in unit:
        parts.append(b if (n, d) == (1, 1) else f'{b}^{n}' if d == 1 else f'{b}^{n}/{d}')
    return ' * '.join(parts) or '1'


def numbers(x):
    """The exact numbers of a model array as floats."""
    f = fractions.Fraction(10) ** x['e10']
    return [float(fractions.Fraction(n, d) * f) for n, d in x['data']]


def subscript(check, ix):
    """The real subscript for a model index; also its text."""
    rng = check.rng
    out = []
    for x in ix:
        if x['k'] == 'dots':
            out.append(Ellipsis)
        elif x['k'] == 'int':
            out.append(numpy.int64(x['i']) if rng.random() < 0.1 else x['i'])
        elif x['k'] == 'slice':
            out.append(slice(*[p[0] if p else None for p in (x['a'], x['b'], x['s'])]))
        else:
            r = rng.random()
            out.append(x['s'] if r < 0.5 else tuple(x['s']) if r < 0.75 and len(ix) > 1 else
                       numpy.array(x['s'], dtype=int))
    if len(out) == 1 and rng.random() < 0.7:
        return out[0]
    return tuple(out)


def index(rng, n):
    r = rng.random()
    if r < 0.3:
        return {'k': 'int', 'i': rng.randrange(-n, n) if n and rng.random() < 0.95 else rng.choice([n, -n - 1])}
    if r < 0.65:
        def opt():
            return [] if rng.random() < 0.4 else [rng.randrange(-n - 1, n + 2)]
        s = [] if rng.random() < 0.5 else [rng.choice([1, 2, 3, -1, -2])]
        return {'k': 'slice', 'a': opt(), 'b': opt(), 's': s}
    k = rng.choice([0, 1, 1, 2, 2, 3, 4])
    if not n:
        k = 0
    bad = [n] if rng.random() < 0.03 else []
    return {'k': 'seq', 's': [rng.randrange(-n, n) for _ in range(k)] + bad}


def indices(rng, shape):
    n = len(shape)
    m = rng.choice([n, n, n, rng.randint(0, n), n + 1 if rng.random() < 0.1 else n])
    out = [index(rng, shape[j] if j < n else 2) for j in range(m)]
    if rng.random() < 0.3:
        at = rng.randint(0, len(out))
        # the entries after the dots refer to the last axes
        lead, tail = out[:at], out[at:]
        tail = [index(rng, shape[n - len(tail) + j] if 0 <= n - len(tail) + j < n else 2) for j in range(len(tail))]
        out = lead + [{'k': 'dots'}] + tail
        if rng.random() < 0.02:
            out.append({'k': 'dots'})
    return out


def array(rng, dims=None, unit=None, values='any', shape=None):
    if dims is None:
        dims = rng.sample(AXES, rng.choice([0, 1, 1, 2, 2, 2, 3, 3]))
    shape = shape or [rng.choice([1, 2, 2, 3, 3, 4]) for _ in dims]
    size = 1
    for n in shape:
        size *= n
    if values == 'distinct':
        data = [[k + 1, 1] for k in range(size)]
        rng.shuffle(data)
    elif values == 'squares':
        data = [[rng.choice([1, 4, 9, 16]), rng.choice([1, 1, 1, 4])] for _ in range(size)]
        data = [list(fractions.Fraction(*p).as_integer_ratio()) for p in data]
    else:
        data = [[rng.choice([-3, -2, -1, 1, 2, 3, 5, 7, 0 if rng.random() < 0.2 else 4]), 1] for _ in range(size)]
    return {'dims': list(dims), 'shape': list(shape), 'data': data, 'e10': 0,
            'unit': rng.choice(UNITS) if unit is None else unit}


class Disk:
    """Arrays stored in a netCDF file."""

    def __init__(self, check):
        self.path = check.tmp / f'arrays-{check.rng.randrange(10**9)}.nc'
        self.items = []

    def add(self, x):
        self.items.append(x)
        return len(self.items) - 1

    def open(self):
        if not self.items:
            return
        with netCDF4.Dataset(self.path, 'w') as f:
            for k, x in enumerate(self.items):
                g = f.createGroup(f'g{k}')
                for n, size in zip(x['dims'], x['shape']):
                    g.createDimension(n, size)
                v = g.createVariable('v', 'f8', x['dims'])
                setattr(v, 'unit' if k % 3 == 0 else 'units', text(x['unit']))
                v[:] = numpy.array(numbers(x)).reshape(x['shape'])
        self.file = netCDF4.Dataset(self.path, 'r')

    def source(self, k):
        return self.file.groups[f'g{k}'].variables['v']

    def close(self):
        if self.items:
            self.file.close()
            self.path.unlink()


def make(check, x, kind, disk=None, where=None):
    """A real array quantity for a model array."""
    rng = check.rng
    data = numpy.array(numbers(x)).reshape(x['shape'])
    if kind == 'physical':
        return physical.Array(data if x['shape'] and rng.random() < 0.5 else data.tolist(), unit=text(x['unit']))
    if where is not None:
        source = disk.source(where)
    else:
        source = data if not x['shape'] or rng.random() < 0.5 or 0 in x['shape'] else data.tolist()
    q = variable.Quantity(source, dimensions=x['dims'], unit=text(x['unit']))
    r = rng.random()
    if r < 0.15:
        return variable.Quantity(q)
    if r < 0.3:
        numpy.array(q)
    return q


def describe(q):
    return f'{type(q).__name__} {getattr(q, "dimensions", "")} {getattr(q, "shape", "")} {numpy.array(q).ravel().tolist()[:12] if hasattr(q, "__array__") else q} {getattr(q, "unit", "")}'


def same_numbers(q, want, tol=1e-12):
    got = numpy.asarray(numpy.array(q), dtype=float).ravel().tolist()
    if len(got) != len(want):
        return False
    return all(abs(a - b) <= tol * max(abs(a), abs(b)) for a, b in zip(got, want))


def agrees(q, x, kind='variable', plain=False):
    """Why a real result is not the model array (or None)."""
    if kind == 'variable' and not isinstance(q, variable.Quantity):
        if not plain:
            return f'not an array quantity: {q!r}'
    elif kind == 'variable':
        if list(q.dimensions) != x['dims']:
            return f'axes {list(q.dimensions)}, expected {x["dims"]}'
        if q.unit != text(x['unit']):
            return f'unit {q.unit}, expected {text(x["unit"])}'
        if q.ndim != len(x['dims']):
            return f'{q.ndim} axes'
    elif hasattr(q, 'unit') and q.unit != text(x['unit']):
        return f'unit {q.unit}, expected {text(x["unit"])}'
    shape = list(numpy.shape(numpy.array(q))) if hasattr(q, '__array__') else []
    if kind == 'physical':
        if [n for n in shape if n != 1] != [n for n in x['shape'] if n != 1]:
            return f'shape {shape}, expected {x["shape"]}'
    elif shape != x['shape']:
        return f'shape {shape}, expected {x["shape"]}'
    values = q if hasattr(q, '__array__') else [float(q)]
    if not same_numbers(values, numbers(x)):
        return f'values {numpy.array(values).ravel().tolist()[:12]}, expected {numbers(x)[:12]}'
    return None


def reads(check, q):
    """Why other ways of looking at an array disagree with its numbers (or None)."""
    if not isinstance(q, (variable.Quantity, physical.Array)) or check.rng.random() < 0.6:
        return None
    have = numpy.array(q)
    flat = have.ravel().tolist()
    if have.ndim == 1 and flat:
        m = measurable.measure(q)
        if [float(v) for v in m.data] != flat or not m.unit == q.unit:
            return f'measured as {m}, but the numbers are {flat} {q.unit}'
    if isinstance(q, variable.Quantity) and flat and have.ndim:
        v = check.rng.choice(flat)
        out = max(flat) + 1 + abs(max(flat))
        if not (v in q and q.array_contains(v)) or out in q or q.array_contains(out):
            return f'membership of {v} and {out} among {flat}: {v in q} {q.array_contains(v)} {out in q} {q.array_contains(out)}'
    if list(q.shape) != list(have.shape) or q.ndim != have.ndim or (have.ndim and len(q) != len(have)):
        return f'shape {q.shape}, but the numbers have {have.shape}'
    return None


UFUNC = {'neg': [operator.neg, numpy.negative], 'pos': [operator.pos, numpy.positive],
         'abs': [abs, numpy.absolute, numpy.fabs], 'square': [numpy.square], 'reciprocal': [numpy.reciprocal],
         'sqrt': [numpy.sqrt], 'sign': [numpy.sign]}
BINARY = {'mul': [operator.mul, numpy.multiply, operator.imul], 'div': [operator.truediv, numpy.true_divide, operator.itruediv],
          'add': [operator.add, numpy.add, operator.iadd], 'sub': [operator.sub, numpy.subtract, operator.isub]}
TRANS = ['exp', 'sin', 'cos', 'arctan', 'tanh', 'expm1']


def perform(check, o, q, b):
    """Carry out one operation on the real objects."""
    rng = check.rng
    op = o['op']
    if op == 'select':
        return q[o['real']]
    if op == 'convert':
        return q[o['text']]
    if op == 'read':
        numpy.array(q)
        return q
    if op == 'copy':
        return type(q)(q)
    if op == 'eq':
        return [q == b, not q != b][o['how'] % 2]
    if op in BINARY:
        return BINARY[op][o['how'] % 3](q, b)
    if op == 'scale':
        f = o['q'][0] / o['q'][1]
        if o['how'] > 2:
            f = numpy.float64(f) if f != int(f) or o['how'] > 3 else numpy.int64(f)
        return [lambda: q * f, lambda: f * q, lambda: q / (1 / f)][o['how'] % 3]()
    if op == 'un':
        return UFUNC[o['f']][o['how'] % len(UFUNC[o['f']])](q)
    if op == 'pow':
        n, d = o['q']
        e = n / d if d != 1 or o['how'] % 2 else n
        return q ** e if o['how'] < 2 else numpy.power(q, e)
    if op == 'trans':
        return getattr(numpy, o['f'])(q)
    f = {'sum': numpy.sum, 'mean': numpy.mean, 'max': numpy.max, 'min': numpy.min, None: numpy.squeeze}[o.get('f')]
    if o['all']:
        return f(q, keepdims=True) if o.get('keep') else f(q)
    axes = o['axes'][0] if len(o['axes']) == 1 and o['how'] % 2 else tuple(o['axes'])
    kw = {'keepdims': True} if o.get('keep') else {}
    return f(q, axes, **kw) if o['how'] % 3 == 0 else f(q, axis=axes, **kw)


def run(check, programs, judged, kind='variable', law='subscript'):
    """Run programs with the outcomes that the specification assigned."""
    for prog, verdict in zip(programs, judged):
        disk = Disk(check)
        where = [disk.add(x) if d else None for x, d in zip(prog['regs'], prog.get('disk', [False] * 9))]
        disk.open()
        real = [make(check, x, kind, disk, w) for x, w in zip(prog['regs'], where)]
        model = list(prog['regs'])
        quiet = prog.get('quiet')    # do not look at an array before the end
        show = (lambda q: f'{type(q).__name__}') if quiet else describe
        history = [f'{k}: {show(q)}' for k, q in enumerate(real)]
        for o, r in zip(prog['ops'], verdict['r']):
            q = real[o['a'] - 1]
            b = real[o['b'] - 1] if 'b' in o else None
            if o['op'] == 'select':
                o['real'] = subscript(check, o['ix'])
            shown = {k: v for k, v in o.items() if k not in ('ix',)}
            history.append(str(shown))
            tag, got = core.outcome(perform, check, o, q, b)
            check.count(o['op'])
            bad = None
            if o['op'] in BINARY and o['how'] % 3 == 2 and tag == 'err' and r['tag'] == 'must':
                r = dict(r, tag='may')    # operating in place cannot add axes
            if r['tag'] == 'must' and tag == 'err':
                bad = f'raised {got}'
            elif r['tag'] == 'refuse' and tag == 'ok':
                bad = f'not refused: {describe(got)}'
            elif o['op'] == 'eq':
                if tag == 'ok' and r['tag'] == 'must' and (not isinstance(got, (bool, numpy.bool_)) or bool(got) != r['bool']):
                    same = numpy.array(q).ravel().tolist() == numpy.array(b).ravel().tolist()
                    if not r['bool'] or same:    # arrays that differ by rounding may be unequal
                        bad = f'equality gave {got!r}, expected {r["bool"]}'
            elif quiet and o['dst']:
                pass
            elif tag == 'ok' and r['tag'] in ('must', 'may'):
                x = r['x']
                if o['op'] == 'trans':
                    want = getattr(numpy, o['f'])(numpy.array(numbers(model[o['a'] - 1])))
                    if not isinstance(got, variable.Quantity) or list(got.dimensions) != x['dims'] or got.unit != '1' \
                            or (max(map(abs, numbers(model[o['a'] - 1])), default=0) < 30 and not same_numbers(got, want.ravel().tolist(), 1e-9)):
                        bad = f'gave {describe(got)}'
                else:
                    bad = agrees(got, x, kind, plain=o['op'] == 'reduce')
            if bad:
                check.violation(law, f'{shown} on {show(q)}{" and " + show(b) if b is not None else ""}: {bad}',
                                case={'program': prog['regs'], 'history': history[-8:]})
                break
            if r['tag'] == 'must' and o['dst'] and tag == 'ok' and o['op'] != 'eq':
                if o['op'] == 'reduce' and not isinstance(got, variable.Quantity):
                    got = make(check, r['x'], kind)
                real[o['dst'] - 1] = got
                model[o['dst'] - 1] = r['x']
            if quiet and o is not prog['ops'][-1]:
                continue
            # nothing else has changed
            for k, (p, x) in enumerate(zip(real, model)):
                why = agrees(p, x, kind) or reads(check, p)
                if why:
                    check.violation('operands are left unchanged', f'after {shown}: register {k + 1}: {why}',
                                    case={'program': prog['regs'], 'history': history[-8:]})
                    break
            else:
                continue
            break
        check.validated += 1
        disk.close()
