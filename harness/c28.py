"""C28: the name of a computed quantity follows from the names it is computed from."""
import fractions
import math
import operator

import numpy

import core
from goats.core import metadata, physical

BINARY = {'add': operator.add, 'sub': operator.sub, 'mul': operator.mul, 'div': operator.truediv, 'pow': operator.pow}
INPLACE = {'add': operator.iadd, 'sub': operator.isub, 'mul': operator.imul, 'div': operator.itruediv}
UNARY = {'neg': operator.neg, 'pos': operator.pos, 'abs': abs, 'round': round, 'floor': math.floor, 'ceil': math.ceil,
         'trunc': math.trunc, 'sqrt': numpy.sqrt}
WORDS = ['a', 'A', 'b', 'speed', 'V', 'flux', 'r', 'B_r', 'time step', 'x1', 'Q']
NUMBERS = [2, 3, 1, 7, 0.5, 1.5, -2, 0.25, -1, numpy.float64(2.5), 10, 2.0 ** -21, 1 + 2.0 ** -20, 0.1, 1e6 + 1]


def aliases(name):
    return sorted(str(i) for i in name)


def as_name(rng, group):
    group = rng.sample(group, len(group))
    r = rng.randrange(4)
    if r == 0 and len(group) == 1:
        return group[0]
    if r == 1:
        return tuple(group)
    if r == 2:
        return metadata.Name(*group)
    return list(group)


def same(check, what, got, want, clause, case):
    """A name has exactly these aliases, by every way of asking."""
    want = sorted(want)
    tag, name = core.outcome(lambda: aliases(got))
    if tag == 'err' or name != want:
        check.violation(clause, f'{what} is named {name}, expected {want}', case=case)
        return False
    ok = (len(got) == len(want) and all(w in got for w in want) and 'absent' not in got and got == metadata.Name(*want)
          and not got != metadata.Name(*want) and not got == metadata.Name(*want, 'absent') and bool(got) == (want != [''])
          and hash(got) == hash(metadata.Name(*want)))
    if not ok:
        check.violation('a name is its set of aliases', f'{what}: {got!r} against {want}', case=case)
    check.count('names compared')
    return ok


def text(number):
    return str(fractions.Fraction(number))


def table(check):
    rng = check.rng
    out = check.tlc('NameTable', 'NameTableThorough.cfg' if check.thorough else 'NameTable.cfg', timeout=3000)
    for c in check.emitted(out):
        a, b = (metadata.Name(*rng.sample(c[k], len(c[k]))) for k in 'ab')
        tag, got = core.outcome(BINARY[c['op']], a, b)
        what = f"Name{tuple(c['a'])} {c['op']} Name{tuple(c['b'])}"
        if tag == 'err':
            check.violation('names combine', f'{what} raised {got}', case=c)
            continue
        same(check, what, got, c['r'], 'names combine', c)
        same(check, 'an operand', a, c['a'], 'operands keep their names', c)
        same(check, 'an operand', b, c['b'], 'operands keep their names', c)
        check.validated += 1
    check.sample({'a': ['a', 'A'], 'b': ['b'], 'op': 'mul'})


class Names:
    """Programs on bare names."""
    kinds = ['binary', 'binary', 'number', 'reverse', 'unary', 'alias']
    unary = ['neg', 'pos', 'abs', 'round', 'floor', 'ceil', 'trunc', 'sqrt']
    binary = list(BINARY)
    number = ['mul', 'div', 'pow']
    reverse = ['mul', 'div', 'pow']

    def leaf(self, rng, group):
        return metadata.Name(*group) if rng.random() < 0.5 else metadata.Name(list(group))

    def name(self, x):
        return x

    def keep(self, rng, x):
        return metadata.Name(x)

    def alias(self, rng, x, new, reset):
        if reset:
            return metadata.Name(*new)
        return metadata.Name(x).add(new if rng.random() < 0.5 or len(new) > 1 else new[0])

    def number_of(self, rng, n):
        return text(n) if rng.random() < 0.3 else n.item() if isinstance(n, numpy.number) else n


class Scalars(Names):
    unary = ['neg', 'pos', 'abs', 'round', 'floor', 'ceil', 'trunc', 'keep']
    binary = ['add', 'sub', 'mul', 'div']
    reverse = ['mul']
    Type = physical.Scalar

    def leaf(self, rng, group):
        kw = {} if group == [''] and rng.random() < 0.7 else {'name': as_name(rng, group)}
        return self.Type(self.data(rng), unit='m' if self.metered else '1', **kw)
    metered = False

    def data(self, rng):
        return rng.choice([1.0, 2.0, 3.5])

    def name(self, x):
        return x.name

    def keep(self, rng, x):
        """Operations that do not change what the quantity is."""
        r = rng.random()
        if r < 0.4 and str(x.unit) == '1':
            return x['1']
        if r < 0.7:
            return x['mks']
        return type(x)(x)

    def alias(self, rng, x, new, reset):
        y = type(x)(x)
        back = y.alias(*new, reset=reset) if reset or rng.random() < 0.5 else y.alias(*new)
        return back

    def number_of(self, rng, n):
        return n


class Meters(Scalars):
    """Quantities with a unit: sums of unlike units do not occur."""
    metered = True
    binary = ['mul', 'div']
    number = ['mul', 'div']

    def keep(self, rng, x):
        r = rng.random()
        if r < 0.4:
            return x['cgs']
        if r < 0.7:
            return x['mks']
        return type(x)(x)


class Vectors(Scalars):
    Type = physical.Vector
    unary = ['neg', 'pos', 'abs', 'keep']

    def data(self, rng):
        return [rng.choice([1.0, 2.0, 3.5]) for _ in range(3)]


class VectorMeters(Meters):
    Type = physical.Vector
    unary = ['neg', 'pos', 'abs', 'keep']
    data = Vectors.data


class Arrays(Vectors):
    Type = physical.Array
    unary = ['neg', 'pos', 'abs', 'keep', 'sqrt']

    def data(self, rng):
        return numpy.array([[1.0, 2.0], [rng.choice([3.0, 4.0]), 5.0]])

    def keep(self, rng, x):
        r = rng.random()
        if r < 0.3:
            return x['mks']
        if r < 0.5:
            return type(x)(x)
        if r < 0.6:
            return x[...]
        return x[:, :] if r < 0.8 else x[[0, 1], :]


def program(check, world):
    """A random program and its replay; names are judged by the specification."""
    rng = check.rng
    n = rng.choice([1, 2, 2, 3])
    words = rng.sample(WORDS, len(WORDS))
    groups = []
    for _ in range(n):
        k = rng.choice([1, 1, 2, 3])
        groups.append([words.pop() for _ in range(k)] if rng.random() < 0.88 else [''])
    prog = [{'o': 'leaf', 'a': g} for g in groups]
    size = {i: len(g) * max(len(w) for w in g) for i, g in enumerate(groups)}
    weight = {i: len(g) for i, g in enumerate(groups)}
    for _ in range(rng.choice([1, 2, 3, 5])):
        i = rng.randrange(len(prog))
        if weight[i] > 12:
            continue
        kind = rng.choice(world.kinds)
        step = {'o': kind, 'l': i + 1}
        w = weight[i]
        if kind == 'binary':
            j = rng.choice([rng.randrange(len(prog)), i])
            if weight[j] * w > 40:
                continue
            w = w * weight[j]
            step.update(op=rng.choice(world.binary), r=j + 1)
        elif kind == 'number':
            op = rng.choice(world.number)
            step.update(op=op, n=rng.choice(NUMBERS if op != 'pow' or type(world) is Names else [2, 3, 1, -1, -2]))
        elif kind == 'reverse':
            step.update(op=rng.choice(world.reverse), n=rng.choice(NUMBERS))
        elif kind == 'unary':
            step.update(op=rng.choice(world.unary))
        else:
            new = [words.pop() for _ in range(min(len(words), rng.choice([1, 1, 2, 3])))] or ['zz']
            if rng.random() < 0.2 and groups[i % len(groups)] != ['']:
                new.append(rng.choice(groups[i % len(groups)]))
            if groups[0] == [''] or any(g == [''] for g in groups):
                continue
            step.update(a=new, reset=rng.random() < 0.3)
            w += len(new)
        weight[len(prog)] = w
        prog.append(step)
    return prog


def replay(check, world, prog, want):
    rng = check.rng
    env = []
    for k, s in enumerate(prog):
        kind = s['o']
        try:
            if kind == 'leaf':
                x = world.leaf(rng, s['a'])
            elif kind == 'binary':
                a, b = env[s['l'] - 1], env[s['r'] - 1]
                if isinstance(a, physical.Scalar) and s['op'] in INPLACE and rng.random() < 0.3:
                    x = INPLACE[s['op']](type(a)(a), b)
                else:
                    x = BINARY[s['op']](a, b)
            elif kind == 'number':
                x = BINARY[s['op']](env[s['l'] - 1], world.number_of(rng, s['n']))
            elif kind == 'reverse':
                x = BINARY[s['op']](world.number_of(rng, s['n']), env[s['l'] - 1])
            elif kind == 'unary':
                x = world.keep(rng, env[s['l'] - 1]) if s['op'] == 'keep' else UNARY[s['op']](env[s['l'] - 1])
            else:
                x = world.alias(rng, env[s['l'] - 1], s['a'], s['reset'])
        except ArithmeticError:
            return
        except (ValueError, TypeError, OverflowError, metadata.OperandTypeError, metadata.MetadataError,
                AttributeError, KeyError) as err:
            check.violation('named quantities combine', f'{type(world).__name__} {prog[:k + 1]}: {err!r}', case=prog)
            return
        env.append(x)
        if not same(check, f'{type(world).__name__}: the result of {prog[:k + 1]}', world.name(x), want[k],
                    'the name of a result', [type(world).__name__, prog]):
            return
    for x, w in zip(env, want):
        same(check, f'{type(world).__name__}: after {prog}, an operand', world.name(x), w, 'operands keep their names', prog)
    check.validated += 1


def refusals(check):
    """A number or a text has no name to add."""
    for group in (['a'], ['a', 'A']):
        for x in (2, '2', 'b', 1.5):
            for op in ('add', 'sub'):
                for args in ((metadata.Name(*group), x), (x, metadata.Name(*group))):
                    tag, got = core.outcome(BINARY[op], *args)
                    if tag == 'ok':
                        check.violation('only names are added', f'{args[0]!r} {op} {args[1]!r} = {got!r}', case=[group, str(x)])
                    check.count('refusals')


def run(check):
    rng = check.rng
    table(check)
    worlds = [Names(), Names(), Scalars(), Meters(), Vectors(), VectorMeters(), Arrays()]
    jobs = []
    for _ in range(check.pick(1200, 12000)):
        world = rng.choice(worlds)
        jobs.append((world, program(check, world)))
    coded = []
    for _, prog in jobs:
        coded.append({'p': [{**s, 'n': text(s['n'])} if 'n' in s else s for s in prog]})
    for (world, prog), v in zip(jobs, check.evaluate('NameCases', coded)):
        replay(check, world, prog, v['r'])
        check.count(f'programs on {type(world).__name__}')
    refusals(check)
    check.assumptions += [
        'factors of zero, one as a floating-point number, and powers of quantities other than fixed ones are not judged',
        'the names of elements of a vector and of results of functions without a symbol (sine, exponential) are not judged',
    ]
