"""C03: parsing of symbolic expressions against spec/Symbolic.tla."""
import monomials
from core import outcome, MachineryError

TOKENS = {'multiply': '@', 'divide': '|', 'opening': '[', 'closing': ']', 'raising': '!'}


SPELLINGS = {
    '4': ('4', '4', '4', '4.0', '40e-1', '0.4E1', '.4e+1'),
    '12': ('12', '12', '1.2e1', '120e-1', '12.'),
    '0.25': ('0.25', '0.25', '.25', '25e-2', '2.5E-1'),
    '2a': ('2a', '2a', '2.0a', '20e-1a'),
    '1.5b': ('1.5b', '1.5b', '15e-1b'),
}


def rooted(toks, rng):
    """Write some groups with the power one half as square roots."""
    toks, opened = list(toks), []
    for i, t in enumerate(toks):
        if t == '(':
            opened.append(i)
        elif t == ')' and opened:
            j = opened.pop()
            before = toks[j - 1] if j else '('
            if i + 1 < len(toks) and toks[i + 1] == '^0.5' and before in ('(', '*', '/') and rng.random() < 0.6:
                toks[j], toks[i + 1] = 'sqrt(', ''
    return toks


def render(toks, rng, custom=False):
    """One of the many spellings of a token sequence."""
    toks = rooted(toks, rng)
    sp = lambda: rng.choice(('', '', ' ', '  '))
    out = [sp()]
    for i, t in enumerate(toks):
        if t == '':
            continue
        if t == '~':
            out.append(rng.choice((' ', ' ', '   ')))
        elif t in '*/':
            nxt = toks[i + 1] if i + 1 < len(toks) else ''
            prev = toks[i - 1] if i else ''
            left, right = sp(), sp()
            if t == '/' and prev[-1:].isdigit() and nxt[:1].isdigit() and nxt not in ('0.25', '1.5b', '1e-7', '-1/4096') and not left + right:
                left = ' '
            sym = {'*': TOKENS['multiply'], '/': TOKENS['divide']}[t] if custom else t
            out.append(left + sym + right)
        elif t in SPELLINGS:
            out.append(rng.choice(SPELLINGS[t]))
        elif t == 'sqrt(':
            out.append(sp() + 'sqrt' + sp() + (TOKENS['opening'] if custom else '(') + sp())
        elif t == '(':
            out.append(sp() + (TOKENS['opening'] if custom else t) + sp())
        elif t == ')':
            out.append(sp() + (TOKENS['closing'] if custom else t))
        elif t[0] == '^' and custom:
            out.append(TOKENS['raising'] + t[1:])
        else:
            out.append(t)
    return ''.join(out) + sp()


def judge(check, case, rng, extras):
    from goats.core import symbolic
    E = symbolic.Expression
    text = render(case['t'], rng)
    tag, e = outcome(E, text)
    if case['s'] != 'ok':
        if tag == 'ok':
            check.violation(f'{case["s"]} text accepted', f'{text!r} gave {e}', case=case)
        if case['s'] == 'bad' and extras:
            more = text + rng.choice((' * a', ' b', '^2', ')', ' / (a * b)'))
            tag, e = outcome(E, more)
            if tag == 'ok':
                check.violation('malformed text accepted', f'{more!r} gave {e}', case=case)
        return
    want = monomials.split(case['m'])
    if tag != 'ok':
        check.violation('well-formed text refused', f'{text!r}: {e}', case=case)
        return
    r = outcome(monomials.read, e)
    if r[0] != 'ok' or not monomials.same(r[1], want):
        check.violation('meaning', f'{text!r} read as {e!s}, expected {want}', case=case)
        return
    slack = set(case['k'])
    if 'unspecified' not in slack:
        tag, s = outcome(E, text, operator_order='error')
        if slack:
            names = {'ratio': 'RatioError', 'product': 'ProductError'}
            if tag == 'ok' or s not in {names[k] for k in slack}:
                check.violation('strict order', f'{text!r} under strict order: {s}', case=case)
        elif tag != 'ok' or not monomials.same(monomials.read(s), want):
            check.violation('strict order', f'{text!r} under strict order: {s}', case=case)
    if not extras:
        return
    for how, make in (
        ('written out and read back', lambda: E(str(e))),
        ('written with * and read back', lambda: E(e.format(separator=' * '))),
        ('other tokens', lambda: E(render(case['t'], rng, custom=True), **TOKENS)),
        ('other spacing', lambda: E(render(case['t'], rng))),
        ('grouped', lambda: E(f'({text})')),
        ('as a sequence', lambda: E([text])),
    ):
        tag, f = outcome(make)
        if tag != 'ok' or not monomials.same(monomials.read(f), want):
            check.violation(how, f'{text!r} ({e}): {f}', case=case)
        elif outcome(lambda: (f == e, e == f, e != f)) != ('ok', (True, True, False)):
            check.violation(how, f'{text!r}: {f} differs from {e}', case=case)
    tag, f = outcome(lambda: e == text)
    if f is not True:
        check.violation('equality with text', f'{text!r} == {e}: {f}', case=case)


def run(check):
    rng = check.rng
    for cfg, stride in (('SymbolicWide.cfg', check.pick(3, 1)),
                        (check.pick('SymbolicDeep.cfg', 'SymbolicDeeper.cfg'), check.pick(4, 2))):
        out = check.tlc('Symbolic', cfg, workers=4, heap='6g')
        n = 0
        for case in check.emitted(out):
            judge(check, case, rng, n % stride == 0)
            n += 1
        if not n:
            raise MachineryError('no texts')
        check.count('texts', n)
        check.validated += n
        check.sample({'tokens': case['t'], 'status': case['s'], 'meaning': case['m']})
    long = []
    for cfg, num, depth in (('SymbolicLong.cfg', check.pick(180, 3000), 28), ('SymbolicNest.cfg', check.pick(120, 1500), 64)):
        out = check.tlc('Symbolic', cfg, timeout=900, extra=(
            '-simulate', f'num={num}', '-depth', str(depth), '-seed', str(check.seed)))
        long += list(check.emitted(out))
    n = 0
    for case in long:
        # exponents as large as these no longer compare meaningfully as floats
        if case['s'] == 'ok' and case['m']:
            c, s = monomials.split(case['m'])
            if not 1e-150 < abs(c) < 1e150:
                continue
        judge(check, case, rng, n % 3 == 0)
        n += 1
    check.count('long_texts', n)
    check.validated += n
    check.assumptions.append(
        'left unspecified: a leading operator, an empty group, a sign before a powered '
        'number, operator strictness across juxtaposition')
