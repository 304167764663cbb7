"""Programs over measured quantities: generation, execution on the real
classes and comparison with the outcomes of spec/Quantities.tla."""
import fractions
import math
import operator
import warnings

import numpy

import core
import units
from goats.core import index, measurable, metadata, metric, physical, variable

Fr = fractions.Fraction
FUNCS = {
    'add': operator.add, 'sub': operator.sub, 'mul': operator.mul,
    'div': operator.truediv, 'pow': operator.pow, 'lt': operator.lt,
    'le': operator.le, 'gt': operator.gt, 'ge': operator.ge,
    'eq': operator.eq, 'ne': operator.ne,
}
IFUNCS = {
    'add': operator.iadd, 'sub': operator.isub, 'mul': operator.imul,
    'div': operator.itruediv, 'pow': operator.ipow,
}
UFUNCS = {
    'neg': operator.neg, 'pos': operator.pos, 'abs': abs, 'round': round,
    'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc,
    'int': int, 'float': float,
}
KINDS = ('mquantity', 'mscalar', 'scalar', 'vector', 'array', 'variable')
MULTI = ('vector', 'array', 'variable')


class Lazy:
    """An array-like source (as of a variable in a file) that must not be
    assumed to be in memory."""

    def __init__(self, values):
        self._values = numpy.array(values)
        self.shape = self._values.shape
        self.ndim = self._values.ndim

    def __getitem__(self, i):
        if any(isinstance(k, numpy.ndarray) for k in (i if isinstance(i, tuple) else (i,))):
            raise IndexError('only simple subscripts')
        return self._values[i].copy()

    def __array__(self, *args, **kwargs):
        return numpy.array(self._values, *args, **kwargs)

    def __len__(self):
        return len(self._values)


def build(kind, data, unit, name, how=0):
    data = [float(Fr(*d)) for d in data]
    if kind == 'mquantity':
        return measurable.Quantity(data[0], unit=unit)
    if kind == 'mscalar':
        return measurable.Scalar(data[0], unit=unit)
    meta = {'unit': unit}
    if name:
        meta['name'] = name
    if kind == 'scalar':
        return physical.Scalar(data[0], **meta)
    if how % 3 == 1:
        data = numpy.array(data)
    elif how % 3 == 2:
        data = tuple(data)
    if kind == 'index':
        return index.Array(index.Data(range(len(data)), values=data), unit=unit)
    if kind == 'vector':
        return physical.Vector(data, **meta)
    if how >= 3:
        data = Lazy(data)
    if kind == 'array':
        return physical.Array(data, **meta)
    return variable.Quantity(data, dimensions=('x',), unit=unit)


def kind_of(x):
    for kind, cls in (('variable', variable.Quantity), ('array', physical.Array),
                      ('vector', physical.Vector), ('scalar', physical.Scalar),
                      ('mscalar', measurable.Scalar), ('mquantity', measurable.Quantity),
                      ('index', index.Array)):
        if isinstance(x, cls):
            return kind
    return type(x).__name__


def numbers_of(x):
    """The numbers of a quantity in its current unit."""
    if isinstance(x, (physical.Array, variable.Array)):
        return [float(v) for v in numpy.array(x).ravel()]
    if isinstance(x, index.Array):
        return [float(v) for v in x.values]
    d = x.data
    if isinstance(d, (list, tuple, numpy.ndarray)):
        return [float(v) for v in d]
    return [float(d)]


def views(x):
    """The numbers of a quantity by every other way of looking at them."""
    if isinstance(x, index.Array):
        yield 'numpy.array', [float(v) for v in numpy.array(x)]
        return
    m = measurable.measure(x)
    yield 'measure', [float(v) for v in m.data]
    if isinstance(x, (measurable.Scalar, physical.Scalar)):
        yield 'float', [float(x)]
    elif isinstance(x, physical.Vector):
        yield 'list', [float(v) for v in x]
        yield 'elements', [float(x[k]) for k in range(len(x))]
    elif isinstance(x, physical.Array):
        yield 'x[...]', [float(v) for v in numpy.array(x[...]).ravel()]
        yield 'x[[...]]', [float(v) for v in numpy.array(x[[*range(len(x))]]).ravel()]
    elif isinstance(x, variable.Quantity):
        yield 'x[...]', [float(v) for v in numpy.array(x[...]).ravel()]
        yield 'x[:]', [float(v) for v in numpy.asarray(x[:]).ravel()]
        have = numpy.array(x).ravel().tolist()
        yield 'in', [v if v in x and x.array_contains(v) else math.nan for v in have]


def snapshot(x):
    name = getattr(x, 'name', None)
    out = [kind_of(x), numbers_of(x), str(x.unit), sorted(name) if name is not None else None]
    if isinstance(x, variable.Quantity):
        out.append(list(x.dimensions))
    return out


def expected(res):
    s = units.value(res['scale'])
    if s is None:
        return None
    return [n / d * s for n, d in res['coef']]


def close(a, b, tol=1e-9):
    return len(a) == len(b) and all(
        math.isclose(x, y, rel_tol=tol, abs_tol=0.0 if y else 1e-9) for x, y in zip(a, b))


class Runner:
    """Execute programs and compare every outcome."""

    def __init__(self, check, gen):
        self.check = check
        self.gen = gen
        self.pending = []  # unit pairs to be judged by the specification
        warnings.simplefilter('ignore')

    def operand(self, regs, o):
        if 'num' in o:
            f = Fr(*o['num'])
            if o.get('np'):
                return numpy.int64(f) if f.denominator == 1 and not o.get('float') else numpy.float64(f)
            return int(f) if f.denominator == 1 and not o.get('float') else float(f)
        return regs[o['r'] - 1]

    def perform(self, regs, o):
        op = o['op']
        if op == 'bin':
            return FUNCS[o['f']](self.operand(regs, o['a']), self.operand(regs, o['b']))
        if op == 'ibin':
            return IFUNCS[o['f']](self.operand(regs, o['a']), self.operand(regs, o['b']))
        a = self.operand(regs, o['a'])
        if op == 'un':
            return UFUNCS[o['f']](a)
        if op == 'conv':
            return a[metadata.Unit(o['text']) if o.get('obj') else
                     metric.Unit(o['text']) if o.get('mobj') else o['text']]
        if op == 'sys':
            return a[o['s'].upper() if o.get('upper') else o['s']]
        if op == 'item':
            return a[o['k'] - 1 if not o.get('neg') else o['k'] - 1 - len(a)]
        if op == 'pick':
            i = o['index']
            return a[slice(*i) if isinstance(i, list) and o.get('slice') else i]
        if op == 'copy':
            return type(a)(a)
        if op == 'read':
            str(a), repr(a)
            numbers_of(a)
            if isinstance(a, (physical.Array, variable.Array)):
                a.shape, a.ndim, len(a)
            return a
        raise core.MachineryError(op)

    def run(self, prog, outs):
        check = self.check
        regs, sources = [], []
        for k, r in enumerate(prog['init']):
            x = build(r['kind'], r['data'], r['text'], r['name'], r.get('how', 0))
            regs.append(x)
        done = []
        quiet = prog.get('quiet')    # look at the quantities only at the end
        final = [None] * len(regs)
        for o, res in zip(prog['ops'], outs):
            tag = res['tag']
            describe = self.describe(regs, o, quiet)
            done.append(describe)
            where = ' ; '.join(done[-6:])
            if o['op'] == 'ibin' and tag in ('may', 'open'):
                continue
            target = o['a']['r'] - 1 if o['op'] == 'ibin' else None
            before = [snapshot(r) for r in regs] if not quiet else []
            with warnings.catch_warnings(), numpy.errstate(all='ignore'):
                warnings.simplefilter('ignore')
                got_tag, got = core.outcome(self.perform, regs, o)
            after = [snapshot(r) for r in regs] if not quiet else []
            for k, (b, a) in enumerate(zip(before, after)):
                if b != a and not (k == target and got_tag == 'ok'):
                    aliased = target is not None and regs[k] is regs[target]
                    if not aliased:
                        check.violation('operands are left unchanged',
                                        f'{where}: register {k + 1} went from {b} to {a}', case=prog)
                        return
            ok = True
            if tag == 'refuse':
                if got_tag == 'ok' and got is not NotImplemented:
                    check.violation('an operation without meaning is refused',
                                    f'{where}: gave {got!r}', case=prog)
                    return
                check.count('refusals')
            elif tag in ('must', 'once', 'may'):
                if got_tag != 'ok':
                    if tag != 'may':
                        check.violation('the operation succeeds', f'{where}: raised {got}', case=prog)
                        return
                elif not (quiet and tag == 'must' and 'dst' in o):
                    if not self.agrees(res, got, where, prog, regs, o):
                        return
                    check.count('results')
            if tag == 'must' and got_tag == 'ok' and 'coef' in res and 'dst' in o:
                regs[o['dst'] - 1] = got
                final[o['dst'] - 1] = (res, o)
        if prog.get('views'):
            where = ' ; '.join(done[-6:])
            for k, x in enumerate(regs):
                if quiet and final[k] and not self.agrees(final[k][0], x, where, prog, regs, final[k][1]):
                    return
                if quiet and not final[k]:
                    r = prog['init'][k]
                    if not close(numbers_of(x), [float(Fr(*d)) for d in r['data']]) or not x.unit == r['text']:
                        check.violation('operands are left unchanged', f'{where}: register {k + 1} is {snapshot(x)}', case=prog)
                        return
                have = numbers_of(x)
                for how, got in views(x):
                    if not close(got, have):
                        check.violation('every way of looking at a quantity gives its numbers',
                                        f'{where}: {how} gives {got}, but the numbers are {have}', case=prog)
                        return
                    check.count('views')
        check.validated += 1

    def agrees(self, res, got, where, prog, regs, o):
        check = self.check
        if 'bools' in res:
            try:
                vals = [bool(v) for v in numpy.ravel(got)]
            except Exception as err:
                check.violation('comparison gives truth values', f'{where}: {got!r} {err}', case=prog)
                return False
            if len(vals) != len(res['bools']) and len(res['bools']) == 1 and o['f'] in ('eq', 'ne'):
                check.violation('equality gives one truth value', f'{where}: {got!r}', case=prog)
                return False
            if vals != list(res['bools']) and not self.near(regs, o, vals, res['bools']):
                check.violation('comparison of the numbers', f"{where}: gave {vals}, expected {res['bools']}", case=prog)
                return False
            return True
        if 'number' in res:
            n, d = res['number']
            if not math.isclose(float(got), n / d, rel_tol=1e-12) or isinstance(got, measurable.Quantified):
                check.violation('cast gives the number', f'{where}: {got!r}, expected {n}/{d}', case=prog)
                return False
            return True
        if not isinstance(got, (measurable.Quantified, index.Array)):
            check.violation('the result is a measured quantity', f'{where}: {got!r}', case=prog)
            return False
        if res['tag'] == 'must' and kind_of(got) != res['kind'] and o['op'] not in ('item', 'pick'):
            if not (res['kind'] in MULTI and len(res['coef']) == 1):
                check.violation('kind of the result', f'{where}: {type(got)!r}, expected {res["kind"]}', case=prog)
                return False
        want = expected(res)
        have = numbers_of(got)
        if want is not None and not close(have, want):
            check.violation('numbers of the result', f'{where}: {have} [{got.unit}], expected {want}', case=prog)
            return False
        return self.unit(res['unit'], got.unit, where, prog)

    def near(self, regs, o, vals, want):
        """Differences explained by rounding of numbers that are equal in the
        model but not in floating point."""
        xs = []
        for side in ('a', 'b'):
            x = self.operand(regs, o[side])
            xs.append(numbers_of(x) if isinstance(x, measurable.Quantified) else [float(x)])
        n = max(map(len, xs))
        xs = [x * n if len(x) == 1 else x for x in xs]
        if o['f'] in ('eq', 'ne'):
            return all(math.isclose(p, q, rel_tol=1e-9) for p, q in zip(*xs)) and xs[0] != xs[1]
        return all(v == w or (p != q and math.isclose(p, q, rel_tol=1e-9))
                   for v, w, p, q in zip(vals, want, *xs))

    def unit(self, want, got, where, prog):
        e, coef = self.gen.read(got)
        if e is None:
            self.check.violation('unit of the result', f'{where}: unknown unit {got}', case=prog)
            return False
        want = units.merge(want)
        if coef == 1.0 and sorted(units.merge(e)) == sorted(want):
            return True
        self.pending.append((want, units.merge(e), coef, where, str(got), prog))
        return True

    def settle(self):
        """Let the specification compare units that are written differently."""
        todo = self.pending
        self.pending = []
        if not todo:
            return
        vs = self.check.evaluate('UnitCases', [{'a': a, 'b': b} for a, b, *_ in todo])
        for (a, b, coef, where, text, prog), v in zip(todo, vs):
            if v['mixed']:
                same = a == b and coef == 1.0
                if a == b and not same:
                    self.check.violation('unit of the result', f'{where}: {text}, expected {self.gen.render(a)}', case=prog)
                continue
            if v['v'] == 'open' or v['vp'] == 'open':
                continue
            f = units.value(v['f'])
            if v['v'] == 'no' or f is None or not math.isclose(f, coef, rel_tol=1e-9):
                self.check.violation('unit of the result',
                                     f'{where}: {text}, expected {self.gen.render(a)}', case=prog)

    def describe(self, regs, o, quiet=False):
        def one(x):
            if 'num' in x:
                return ('numpy ' if x.get('np') else '') + str(Fr(*x['num']))
            r = regs[x['r'] - 1]
            if quiet:
                return f"{kind_of(r)} {x['r']}"
            return f"{kind_of(r)}({numbers_of(r)} [{r.unit}])"
        op = o['op']
        if op in ('bin', 'ibin'):
            return f"{'in-place ' if op == 'ibin' else ''}{o['f']}({one(o['a'])}, {one(o['b'])})"
        extra = {k: v for k, v in o.items() if k in ('f', 'text', 's', 'k', 'index', 'obj', 'upper')}
        return f"{op}({one(o['a'])}, {extra})"


def judge(check, runner, programs, chunk=3000):
    """Evaluate all programs in the specification, then run them."""
    for i in range(0, len(programs), chunk):
        part = programs[i:i + chunk]
        outs = check.evaluate('QuantityCases', part)
        for p, v in zip(part, outs):
            runner.run(p, v['out'])
        runner.settle()
