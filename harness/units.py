"""Unit expressions: generation, rendering, and reading real units back.

An expression is a list of terms [prefix, base, n, d]; bases '2', '3', '5' are
plain numbers (see spec/Units.tla)."""
import fractions
import math

Fr = fractions.Fraction
CONST = {'c': 2.99792458e10, 'pi': math.pi, 'qe': 1.6022e-19, 'au': 1.495978707e11}
NUMBERS = ('2', '3', '5')
TOL = 1e-9


def value(m):
    """Numerical value of an emitted monomial over primes and constants."""
    x = 0.0
    for g, (n, d) in (m or {}).items():
        x += (n / d) * math.log(CONST.get(g) or float(g))
    # sums of logarithms lose little: exponents are moderate
    if x > 690 or x < -690:
        return None
    return math.exp(x)


def symbols(m):
    return {g: Fr(n, d) for g, (n, d) in (m or {}).items()}


def table(check):
    """All prefixed units from the specification: list of rows and a map from
    every text to (prefix symbol, base symbol)."""
    rows = list(check.emitted(check.tlc('UnitTable')))
    uniq = {}
    for r in rows:
        uniq[r['prefix']['symbol'], r['unit']['symbol']] = r
    texts = {}
    plain = {r['unit'][k] for (p, _), r in uniq.items() if not p for k in ('symbol', 'name')}
    for (p, b), r in uniq.items():
        for text in spellings(r):
            if p and text in plain:
                continue
            texts.setdefault(text, set()).add((p, b))
    clash = {t for t, s in texts.items() if len(s) > 1}
    return uniq, {t: next(iter(s)) for t, s in texts.items() if t not in clash}, clash


def spellings(r):
    """Every text of a prefixed unit (the first two may be used in expressions
    if they consist of letters)."""
    p, u = r['prefix'], r['unit']
    sym = 'Ω' if u['symbol'] == 'ohm' else u['symbol']
    out = [p['symbol'] + sym, p['name'] + u['name']]
    if p['symbol'] == 'u':
        out.append('μ' + sym)
    return out


def usable(text):
    """Can this spelling appear inside a unit expression?"""
    return text.isascii() and (text.isalpha() or text == '#')


class Generator:
    def __init__(self, check, rng=None):
        self.rng = rng or check.rng
        self.rows, self.texts, self.clash = table(check)
        self.bases = sorted({b for _, b in self.rows if b != '1'})
        self.prefixes = sorted({p for p, _ in self.rows})
        self.quantity = {b: self.rows['', b]['unit']['quantity'] for b in self.bases}
        self.systems = {b: set(self.rows['', b]['unit']['systems']) for b in self.bases}
        self.spell = {}
        for t, pb in self.texts.items():
            if usable(t):
                self.spell.setdefault(pb, []).append(t)
        for v in self.spell.values():
            v.sort(key=lambda t: (len(t), t))

    def term(self, base=None, exps=None, prefixed=0.5):
        b = base or self.rng.choice(self.bases)
        while True:
            p = self.rng.choice(self.prefixes) if b != '#' and self.rng.random() < prefixed else ''
            if (p, b) in self.spell:
                break
        e = Fr(self.rng.choice(exps or EXPS))
        return [p, b, e.numerator, e.denominator]

    def expr(self, size=None, system=None, coefficient=0.15):
        n = size or self.rng.choice([1, 2, 2, 3, 3, 4])
        bases = [b for b in self.bases if not system or system in self.systems[b]]
        out, seen = [], set()
        while len(out) < n:
            t = self.term(self.rng.choice(bases))
            if tuple(t[:2]) not in seen:
                seen.add(tuple(t[:2]))
                out.append(t)
        if self.rng.random() < coefficient:
            out += self.number()
        return out

    def number(self):
        return [['', n, self.rng.choice([1, 1, 2, -1]), 1]
                for n in self.rng.sample(NUMBERS, self.rng.choice([1, 2]))]

    def alternative(self, e):
        """Another expression of the same dimensions (usually)."""
        out = []
        for p, b, n, d in e:
            if b in NUMBERS:
                continue
            q = self.quantity[b]
            r = self.rng.random()
            if r < 0.45:
                same = [x for x in self.bases if self.quantity[x] == q]
                t = self.term(self.rng.choice(same))
                out.append([t[0], t[1], n, d])
            elif r < 0.75 and b in EXPAND:
                for b2, k in self.rng.choice(EXPAND[b]):
                    f = Fr(n, d) * k
                    t = self.term(b2)
                    out.append([t[0], t[1], f.numerator, f.denominator])
            else:
                t = self.term(b)
                out.append([t[0], b, n, d])
        out = merge(out)
        self.rng.shuffle(out)
        if self.rng.random() < 0.1:
            out += self.number()
        return out or [['', '1', 1, 1]]

    def perturbed(self, e):
        """A near miss: one exponent or one unit changed."""
        e = [list(t) for t in e]
        t = self.rng.choice([x for x in e if x[1] not in NUMBERS])
        if self.rng.random() < 0.6:
            f = Fr(t[2], t[3]) + self.rng.choice([1, -1, Fr(1, 2)])
            f = f or Fr(2)
            t[2], t[3] = f.numerator, f.denominator
        else:
            t[0], t[1] = self.term()[:2]
        return merge(e) or [['', '1', 1, 1]]

    # -- rendering ---------------------------------------------------------
    def word(self, p, b, style=None):
        forms = self.spell[p, b]
        if style is None:
            return self.rng.choice(forms)
        return forms[min(style, len(forms) - 1)]

    def render(self, e, style=0, order=None, form=None):
        """Text of an expression.  style 0: symbols, 1: names, None: mixed."""
        rng = self.rng
        num = 1
        words = []
        for p, b, n, d in (order or e):
            if b in NUMBERS:
                num *= Fr(b) ** n
            elif b != '1':
                words.append((self.word(p, b, style), Fr(n, d)))
        form = rng.randrange(4) if form is None else form
        coef = '' if num == 1 else str(num)
        if not words:
            return coef or '1'

        def one(w, f):
            return w if f == 1 else f'{w}^{f}'
        sep = rng.choice([' ', ' * ', '*'])
        if form == 0 or (form == 1 and any(f > 0 for _, f in words) is False):
            body = sep.join(one(w, f) for w, f in words)
        elif form == 1:
            up = [one(w, f) for w, f in words if f > 0]
            down = [one(w, -f) for w, f in words if f < 0]
            body = sep.join(up)
            if down:
                body += ' / ' + (down[0] if len(down) == 1 else '(' + sep.join(down) + ')')
        elif form == 2:  # a chain of products and quotients, left to right
            words = sorted(words, key=lambda x: x[1] < 0)
            body = ''
            for i, (w, f) in enumerate(words):
                if i == 0:
                    body = one(w, f)
                elif f < 0:
                    # several slashes without grouping are ambiguous, so group
                    body = f'({body}) / {one(w, -f)}' if '/' in body else f'{body} / {one(w, -f)}'
                else:
                    body = f'{body} * {one(w, f)}'
        else:  # nested powers
            body = sep.join(f'({w})^{f}' if i % 2 else f'({w}^{f * 2})^1/2'
                            for i, (w, f) in enumerate(words))
        if not coef:
            return body
        return f'{coef} * ({body})' if form else f'{coef} {body}'

    # -- reading -----------------------------------------------------------
    def read(self, unit):
        """Expression of a real unit object; None if a name is unknown to the
        specification."""
        out = []
        coef = 1.0
        for t in unit:
            coef *= float(t.coefficient)
            if t.base == '1':
                continue
            if t.base not in self.texts:
                return None, coef
            p, b = self.texts[t.base]
            f = Fr(t.exponent).limit_denominator(1000)
            out.append([p, b, f.numerator, f.denominator])
        return out, coef


EXPS = ['1', '1', '1', '-1', '-1', '2', '-2', '3', '-3', '1/2', '-1/2', '3/2']
EXPAND = {
    'J': [[('N', 1), ('m', 1)], [('g', 1), ('m', 2), ('s', -2)], [('W', 1), ('s', 1)], [('V', 1), ('C', 1)], [('Pa', 1), ('m', 3)]],
    'erg': [[('dyn', 1), ('m', 1)], [('g', 1), ('m', 2), ('s', -2)], [('statV', 1), ('statC', 1)]],
    'eV': [[('J', 1)], [('erg', 1)], [('g', 1), ('m', 2), ('s', -2)], [('e', 1), ('V', 1)]],
    'N': [[('g', 1), ('m', 1), ('s', -2)], [('J', 1), ('m', -1)]],
    'dyn': [[('g', 1), ('m', 1), ('s', -2)], [('erg', 1), ('m', -1)]],
    'Pa': [[('N', 1), ('m', -2)], [('g', 1), ('m', -1), ('s', -2)], [('J', 1), ('m', -3)]],
    'W': [[('J', 1), ('s', -1)], [('V', 1), ('A', 1)], [('g', 1), ('m', 2), ('s', -3)]],
    'C': [[('A', 1), ('s', 1)], [('F', 1), ('V', 1)], [('e', 1)]],
    'statC': [[('statA', 1), ('s', 1)], [('g', Fr(1, 2)), ('m', Fr(3, 2)), ('s', -1)]],
    'V': [[('J', 1), ('C', -1)], [('W', 1), ('A', -1)], [('Wb', 1), ('s', -1)]],
    'statV': [[('erg', 1), ('statC', -1)]],
    'ohm': [[('V', 1), ('A', -1)], [('S', -1)]],
    'S': [[('A', 1), ('V', -1)]],
    'F': [[('C', 1), ('V', -1)], [('s', 1), ('S', 1)]],
    'Wb': [[('T', 1), ('m', 2)], [('V', 1), ('s', 1)]],
    'Mx': [[('G', 1), ('m', 2)]],
    'H': [[('Wb', 1), ('A', -1)], [('V', 1), ('s', 1), ('A', -1)]],
    'T': [[('Wb', 1), ('m', -2)], [('N', 1), ('A', -1), ('m', -1)], [('g', 1), ('s', -2), ('A', -1)]],
    'G': [[('Mx', 1), ('m', -2)]],
    'Hz': [[('s', -1)]], 'Bq': [[('s', -1)], [('Hz', 1)]], 'Ci': [[('s', -1)]],
    'Gy': [[('J', 1), ('g', -1)], [('m', 2), ('s', -2)]],
    'P': [[('g', 1), ('m', -1), ('s', -1)]],
    'lm': [[('cd', 1), ('sr', 1)]], 'lx': [[('lm', 1), ('m', -2)]],
    's': [[('Hz', -1)]],
}


def merge(e):
    acc = {}
    for p, b, n, d in e:
        if b == '1':
            continue
        acc[p, b] = acc.get((p, b), 0) + Fr(n, d)
    return [[p, b, f.numerator, f.denominator] for (p, b), f in acc.items() if f]
