"""C04: expression algebra and equality against spec/Algebra.tla."""
import fractions
import json
import math

import monomials
from core import canon, outcome, replay, MachineryError

Fr = fractions.Fraction
PRIMES = (2, 3, 5, 7)


def factor(q):
    """Prime exponents of a rational number, or None."""
    q = Fr(q)
    if q <= 0:
        return None
    out = {}
    for sign, n in ((1, q.numerator), (-1, q.denominator)):
        for p in PRIMES:
            while n % p == 0:
                n //= p
                out[str(p)] = out.get(str(p), 0) + sign
        if n != 1:
            return None
    return out


FORMS = {
    'a': ['a', 'a^1', '(a)', ['a'], 'a * b / b'],
    'b': ['b', '(b)^1', 'b^-1 * b^2', ('b',)],
    '2a': ['2a', 'a * 2', '2 * a', '(2a)', ['a', '2'], '4a / 2', '(4 * a^2)^1/2'],
    '1/3b^2': ['1/3b^2', 'b^2 / 3', 'b * b / 3', ['b', '1/3', 'b'], '(3 / b^2)^-1'],
    '6': ['6', 6, 6.0, Fr(6), '2 * 3', '36^1/2', ['2', '3']],
    'a/b': ['a / b', 'a * b^-1', '(b / a)^-1', ['a', 'b^-1']],
    '1': ['1', 1, 1.0, '', 'a / a', '(a * b)^0'],
    '5/14': ['5/14', Fr(5, 14), '5 / 14', '5 / (2 * 7)', ['5/2', '1/7']],
    'a^-1/2 b': ['a^-1/2 b', 'b / a^1/2', 'b * a^-0.5', '(b^2 / a)^1/2'],
}
POWERS = {
    '2': [2, 2.0, Fr(2)], '3': [3, 3.0], '-1': [-1, -1.0], '-2': [-2],
    '1/2': [0.5, Fr(1, 2)], '-1/2': [-0.5, Fr(-1, 2)], '1': [1], '3/2': [1.5, Fr(3, 2)],
    '1/3': [Fr(1, 3)], '3/16': [0.1875, Fr(3, 16)], '-5/64': [-0.078125, Fr(-5, 64)], '1/12': [Fr(1, 12)], '7': [7, 7.0],
}


class Subject:
    def __init__(self, check, state):
        from goats.core import symbolic
        self.s = symbolic
        self.check = check
        self.rng = check.rng
        self.reg, self.exact = {}, {}
        for r, m in state.items():
            self.reg[r] = symbolic.Expression(text(m, self.rng))
            self.exact[r] = rational(m)
        self.expect = state

    def const(self, k, plain=False):
        forms = [f for f in FORMS[k] if not (plain and isinstance(f, (list, tuple)))]
        form = self.rng.choice(forms)
        n = self.rng.randrange(4)
        if n == 0:
            return self.s.Expression(form)
        if n == 1 and k in ('a', 'b'):
            return self.s.Term(k)
        return form

    def apply(self, o):
        op, E = o['op'], self.s.Expression
        if op == 'eq':
            e, f = self.reg[o['r']], self.reg[o['s']]
            return outcome(lambda: (e == f, not (e != f), self.s.equality(e, f), f == e))
        x = self.reg.get(o.get('r'))
        y = self.reg.get(o.get('s'))
        v = self.rng.randrange(3)
        before = str(x), str(y)
        if op == 'load':
            res = outcome(E, self.const(o['k']))
        elif op == 'mul':
            res = outcome((lambda: x * y, lambda: self.s.product(x, y), lambda: x.__rmul__(y))[v])
        elif op == 'div':
            res = outcome((lambda: x / y, lambda: self.s.ratio(x, y), lambda: y.__rtruediv__(x))[v])
        elif op == 'pow':
            p = self.rng.choice(POWERS[o['p']])
            res = outcome((lambda: x ** p, lambda: self.s.power(x, p), lambda: pow(x, p))[v])
        elif op == 'mulk':
            k = self.const(o['k'])
            res = outcome((lambda: x * k, lambda: self.s.product(x, k), lambda: x * k)[v])
        elif op == 'kmul':
            k = self.const(o['k'])
            res = outcome((lambda: k * x, lambda: self.s.product(k, x),
                           lambda: x.__rmul__(k))[v if not isinstance(k, (str, list, tuple, self.s.Term)) else 1 + v % 2])
        elif op == 'divk':
            k = self.const(o['k'])
            res = outcome((lambda: x / k, lambda: self.s.ratio(x, k), lambda: x / k)[v])
        elif op == 'kdiv':
            k = self.const(o['k'])
            res = outcome((lambda: k / x, lambda: self.s.ratio(k, x), lambda: x.__rtruediv__(k))[v])
        else:
            raise MachineryError(op)
        if (str(x), str(y)) != before:
            self.check.violation('operand changed', f'{o}: {before} became {(str(x), str(y))}')
        if res[0] == 'ok':
            if not isinstance(res[1], E):
                return 'ok', f'not an expression: {res[1]!r}'
            ex = all(self.exact[o[f]] for f in 'rs' if f in o)
            self.reg[o['t']] = res[1]
            if op == 'pow':
                ex = ex and (Fr(o['p']).denominator == 1 or not has_number(res[1], self))
            self.exact[o['t']] = True if op == 'load' else ex
        return res

    def agrees(self, o, want, tag, val):
        if tag != 'ok':
            return val
        if isinstance(val, str):
            return val
        if o['op'] == 'eq' and self.exact[o['r']] and self.exact[o['s']]:
            if val != (want['val'],) * 4:
                return f'{self.reg[o["r"]]} == {self.reg[o["s"]]}: {val}'

    def state(self):
        # compared through `compare`, since irrational numbers are approximate
        return self.expect


def has_number(e, subject):
    c = 1
    for t in e:
        c *= t.coefficient
    return factor(c) is None


def rational(m):
    return all(d == 1 for g, (n, d) in (m or {}).items() if g.isdigit())


def text(m, rng):
    """A random spelling of a monomial."""
    parts = []
    for g, (n, d) in (m or {}).items():
        p = f'{n}/{d}' if d > 1 else f'{n}'
        q = f'{-n}/{d}' if d > 1 else f'{-n}'
        parts.append((f'{g}^{p}', f'{g}^{q}'))
    rng.shuffle(parts)
    out = '1'
    for up, down in parts:
        out += rng.choice((f' * {up}', f' / {down}', f' * ({up})', f' * (1 / {down})'))
    if parts and rng.random() < .3:
        out = f'({out})'
    return out


def compare(subject, st, check, where, light):
    E = subject.s.Expression
    for r, m in st.items():
        e = subject.reg[r]
        want = monomials.split(m)
        tag, got = outcome(monomials.read, e)
        if tag != 'ok' or not monomials.same(got, want, 1e-9):
            check.violation('value', f'{where}: register {r} is {e}, expected {m}')
            return False
        if light or not (subject.exact[r] and rational(m)):
            continue
        same = text(m, subject.rng)
        other = dict(m or {})
        g = subject.rng.choice(['a', 'b', '2', '3', 'zz'])
        n, d = other.get(g, [0, 1])
        other[g] = [n + d, d]
        if other[g][0] == 0:
            del other[g]
        diff = text(other, subject.rng)
        for t, w in ((same, True), (diff, False)):
            f = E(t)
            got = outcome(lambda: (e == f, f == e, e == t, e != f))
            if got != ('ok', (w, w, w, not w)):
                check.violation('equality', f'{where}: {e} against {t!r}: {got[1]}, expected {w}')
                return False
        # numbers far from one are told apart just as well
        k = subject.rng.choice([-26, -12, 12, 26])
        small, rest = (dict(x or {}) for x in (m, other))
        for x in (small, rest):
            n = x.pop('2', [0, 1])[0] + k
            if n:
                x['2'] = [n, 1]
        f, t = E(text(small, subject.rng)), E(text(rest, subject.rng))
        got = outcome(lambda: (f == t, t == f, f != t, f == E(text(small, subject.rng))))
        if got != ('ok', (False, False, True, True)):
            check.violation('equality', f'{where}: {f} against {t}: {got[1]}')
            return False
        f = E(same)
        if outcome(lambda: hash(f) == hash(e)) != ('ok', True):
            check.violation('hash of equal expressions', f'{where}: {e} and {same!r}')
            return False
    return True


def walk(check, cfg, limit):
    raw = check.graph('Algebra', cfg, workers=4)
    fix = lambda st: {r: (m or {}) for r, m in st.items()}
    regs = list(json.loads(next(iter(raw))))
    edges = {}
    for s, acts in raw.items():
        for a, t in acts.items():
            edges.setdefault(canon(fix(json.loads(s))), {})[a] = canon(fix(json.loads(t)))
    init = canon({r: {} for r in regs})

    class Sub(Subject):
        n = 0

        def state(self):
            Sub.n += 1
            return self.expect

    # drive `replay` with a state() that compares with tolerance
    from core import covering_walk
    subj = Subject(check, json.loads(init))
    steps, recent = 0, []
    for step in covering_walk(edges, init, check.rng, limit):
        if step is None:
            subj = Subject(check, json.loads(init))
            continue
        s, a, t = step
        act = json.loads(a)
        o, want = act['o'], act['res']
        tag, val = subj.apply(o)
        steps += 1
        recent = (recent + [o])[-6:]
        where = 'after ... ' + ' ; '.join(canon(i) for i in recent)
        before = len(check.violations)
        msg = subj.agrees(o, want, tag, val)
        if msg:
            check.violation('operation', f'{where}: {msg}', case=recent)
        compare(subj, json.loads(t), check, where, light=steps % 4)
        if len(check.violations) > before:
            subj = Subject(check, json.loads(t))
    check.count('replayed_steps', steps)
    check.validated += steps
    check.sample({'config': cfg, 'last_operations': recent})


def record(check, length):
    rng = check.rng
    subj = Subject(check, {r: {} for r in 'xyz'})
    events = []

    def project(e):
        c, out = Fr(1), []
        for t in e:
            c *= t.coefficient
            if t.base != '1':
                q = Fr(t.exponent)
                if max(abs(q.numerator), q.denominator) > 10**6:
                    q = Fr(999983)
                out.append([t.base, q.numerator, q.denominator])
        f = factor(c)
        if f is None:
            out.append(['?', 1, 1])
        else:
            out += [[p, n, 1] for p, n in f.items()]
        return out

    def size(e):
        return max([(abs(n) + d) / (12 if g.isdigit() else 150) for g, n, d in project(e)] + [0])

    while len(events) < length:
        t, r, s = (rng.choice('xyz') for _ in range(3))
        op = rng.choice(['load', 'mul', 'mul', 'div', 'div', 'pow', 'pow',
                         'mulk', 'kmul', 'divk', 'kdiv', 'eq'])
        o = {'op': op}
        if op != 'eq':
            o['t'] = t
        if op in ('mul', 'div', 'eq'):
            o.update(r=r, s=s)
        if op in ('pow', 'mulk', 'kmul', 'divk', 'kdiv'):
            o['r'] = r
        if op in ('load', 'mulk', 'kmul', 'divk', 'kdiv'):
            o['k'] = rng.choice(list(FORMS))
        if op == 'pow':
            nums = [p for p in project(subj.reg[r]) if p[0].isdigit()]
            o['p'] = rng.choice(list(POWERS) if not nums else ['2', '-1', '-2', '1', '3'])
        if op in ('mul', 'div', 'pow') and max(size(subj.reg[r]), size(subj.reg[o.get('s', r)])) > 1:
            o = {'op': 'load', 't': t, 'k': rng.choice(list(FORMS))}
        tag, val = subj.apply(o)
        res = {'tag': 'ok' if tag == 'ok' else val, 'val': False}
        if o['op'] == 'eq' and tag == 'ok':
            if len(set(val)) != 1:
                check.violation('equality', f'{o}: {val}')
            res['val'] = val[0]
        obs = {}
        for q, e in subj.reg.items():
            tg, p = outcome(project, e)
            obs[q] = p if tg == 'ok' else [['!' + p, 1, 1]]
        events.append({'o': o, 'res': res, 'obs': obs})
    verdict = check.validate('TraceAlgebra', events)
    check.count('recorded_events', len(events))
    if verdict:
        at, bad = verdict
        check.violation('recorded program rejected by the specification',
                        f'event {at + 1}: {bad}; observed {events[at]}',
                        case=[e['o'] for e in events[max(0, at - 6):at + 1]])


def terms(check):
    """Substituting numbers into terms; scaling and powers of terms."""
    from goats.core import symbolic
    T = symbolic.Term
    for c in (1, 2, Fr(1, 3), -4, Fr(-5, 2), 12):
        for e in (1, 2, -1, -3, Fr(1, 2), Fr(-3, 2), 0):
            t = T(c, 'x', e)
            for v in (1, 2, 4, 9, 0.25, 10):
                want = float(c) * float(v) ** float(e)
                got = outcome(lambda: float(t(v)))
                if got[0] != 'ok' or not math.isclose(got[1], want, rel_tol=1e-12):
                    check.violation('substitution', f'{t} at {v}: {got[1]}, expected {want}')
            for n in (3, Fr(1, 2)):
                got = outcome(lambda: ((t * n).attrs, (n * t).attrs))
                if got != ('ok', ((Fr(c) * n, 'x', Fr(e)),) * 2):
                    check.violation('scaling a term', f'{t} * {n}: {got[1]}')
            for n in (2, -1, 3):
                got = outcome(lambda: (t ** n).attrs)
                if got != ('ok', (Fr(c) ** n, 'x', Fr(e) * n)):
                    check.violation('power of a term', f'{t} ** {n}: {got[1]}')
            if t.attrs != (Fr(c), 'x', Fr(e)):
                check.violation('term changed', f'{t}')
            s = outcome(lambda: (T(c, 'x', e) == t, t == T(c, 'y', e),
                                 t == T(c, 'x', e + 1), t == T(c + 1, 'x', e)))
            if s != ('ok', (True, False, False, False)):
                check.violation('equality of terms', f'{t}: {s[1]}')
            check.count('terms')


def run(check):
    walk(check, 'AlgebraOne.cfg', check.pick(12000, None))
    walk(check, 'AlgebraTwo.cfg', check.pick(12000, None))
    for _ in range(check.pick(1, 6)):
        record(check, check.pick(800, 2500))
    terms(check)
