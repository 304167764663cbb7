"""C05: unit texts denote units, against spec/Units.tla and TraceUnits.tla."""
import json
import pathlib
import subprocess
import sys

import units
from core import REPO, MachineryError, canon, outcome

HERE = pathlib.Path(__file__).resolve()


def run(check):
    gen = units.Generator(check)
    named(check, gen)
    unknown(check, gen)
    histories(check, gen)
    equality(check, gen)
    check.assumptions += [
        'multi-word names and the symbols with Greek letters are used with NamedUnit only '
        '(the expression grammar has no such symbols)',
        'object identity is required for one spelling of the factors of a compound unit; '
        'with other spellings equality is required',
        'units related only by a bridge between metric systems (capacitance and length) '
        'are left unspecified',
    ]


def named(check, gen):
    """Every prefixed unit, every spelling, in random order."""
    from goats.core import metric
    texts = sorted(gen.texts)
    check.rng.shuffle(texts)
    first, ufirst = {}, {}
    for t in texts:
        p, b = gen.texts[t]
        row = gen.rows[p, b]
        tag, n = outcome(metric.NamedUnit, t)
        if tag != 'ok':
            check.violation('known name refused', f'NamedUnit({t!r}) raised {n}')
            continue
        check.count('named_units')
        got = (n.scale, n.base.symbol, n.base.name, n.quantity)
        sym = 'Ω' if b == 'ohm' else b
        want = (float(f"1e{row['ten']}"), sym, row['unit']['name'], row['unit']['quantity'])
        if got != want:
            check.violation('meaning of a name', f'NamedUnit({t!r}) is {got}, expected {want}')
        if first.setdefault((p, b), n) is not n:
            check.violation('one object per unit', f'NamedUnit({t!r}) is a second object')
        if not (n == t) or any(not (n == s) for s in units.spellings(row) if gen.texts.get(s) == (p, b)):
            check.violation('equal to its text', f'NamedUnit({t!r}) differs from one of its own names')
        o = check.rng.choice(texts)
        if (n == metric.NamedUnit(o)) != (gen.texts[o] == (p, b)):
            check.violation('different units differ', f'NamedUnit({t!r}) == NamedUnit({o!r})')
        if units.usable(t):
            tag, u = outcome(metric.Unit, t)
            if tag != 'ok':
                check.violation('known name refused', f'Unit({t!r}) raised {u}')
                continue
            if ufirst.setdefault((p, b), u) is not u:
                check.violation('one object per unit', f'Unit({t!r}) is a second object')
            if not (u == t):
                check.violation('equal to its text', f'Unit({t!r}) != {t!r}')
            tag, r = outcome(lambda: metric.Unit(b) // metric.Unit(t))
            want = float(f"1e{row['ten']}")
            if tag != 'ok' or abs(r / want - 1) > units.TOL:
                check.violation('prefix', f'Unit({b!r}) // Unit({t!r}) is {r}, expected {want}')
    # every two prefixes of one base
    for b in gen.bases:
        for p in gen.prefixes:
            q = check.rng.choice(gen.prefixes)
            if (p, b) not in gen.spell or (q, b) not in gen.spell:
                continue
            s, t = gen.word(p, b), gen.word(q, b)
            want = float(f"1e{gen.rows[p, b]['ten']}") / float(f"1e{gen.rows[q, b]['ten']}")
            tag, r = outcome(metric.ratio, s, t)
            if tag != 'ok' or abs(r / want - 1) > units.TOL:
                check.violation('prefix', f'ratio({s!r}, {t!r}) is {r}, expected {want}')
            if (metric.Unit(s) == metric.Unit(t)) != (p == q):
                check.violation('different units differ', f'Unit({s!r}) == Unit({t!r}) is {p != q}')
            check.count('prefix_pairs')


def unknown(check, gen):
    """Names one edit away from known ones, and prefixes on top of prefixes."""
    from goats.core import metric
    letters = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
    texts = sorted(t for t in gen.texts if t.isascii() and t.isalpha())
    seen = set()
    for _ in range(check.pick(400, 4000)):
        t = check.rng.choice(texts)
        i = check.rng.randrange(len(t) + 1)
        w = check.rng.choice([t[:i] + check.rng.choice(letters) + t[i:], t[:i] + t[i + 1:],
                              check.rng.choice(['k', 'M', 'kilo', 'da']) + t, t.swapcase(), t + 's'])
        if not w or w in gen.texts or w in seen or w in ('ohm', '#', '1'):
            continue
        seen.add(w)
        tag, n = outcome(metric.NamedUnit, w)
        if tag == 'ok':
            check.violation('unknown name', f'NamedUnit({w!r}) gave {n}')
        tag, n = outcome(lambda: metric.Unit(w) // metric.Unit(t))
        if tag == 'ok':
            check.violation('unknown name', f'Unit({w!r}) // Unit({t!r}) gave {n}')
        tag, n = outcome(lambda: metric.Unit(w).dimensions)
        if tag == 'ok':
            check.violation('unknown name', f'Unit({w!r}).dimensions gave {n}')
        check.count('unknown_names')


def histories(check, gen):
    """Creations in random order in fresh processes, validated by TLC."""
    rng = check.rng
    procs = []
    for _ in range(check.pick(3, 12)):
        pool = [gen.expr() for _ in range(check.pick(40, 120))]
        pool += [[gen.term(exps=['1'])] for _ in range(15)]
        # physically equal but differently composed units must stay apart or equal
        pool += [[['', 'J', 1, 1]], [['', 'N', 1, 1], ['', 'm', 1, 1]],
                 [['k', 'm', 1, 1]], [['', 'm', 1, 1], ['', '2', 3, 1], ['', '5', 3, 1]],
                 [['', 'm', 1, 1], ['', 's', -1, 1]], [['', 'm', -1, 1], ['', 's', 1, 1]]]
        events = []
        for e in pool:
            for _ in range(rng.choice([2, 3, 4])):
                order = list(e)
                rng.shuffle(order)
                style = rng.choice([0, 0, 1])
                text = gen.render(order, style)
                form = rng.choice(['str', 'str', 'expr', 'list'])
                words = []
                for p, b, n, d in order:
                    words.append([b if b in units.NUMBERS else gen.word(p, b, style), n, d])
                events.append({'e': order, 'words': words, 'text': text, 'form': form})
        rng.shuffle(events)
        cmd = [sys.executable, str(HERE), 'worker']
        proc = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                stderr=subprocess.PIPE, text=True)
        procs.append((proc, events))
    import threading
    results = [None] * len(procs)

    def feed(k):
        proc, events = procs[k]
        results[k] = proc.communicate(json.dumps(events))
    threads = [threading.Thread(target=feed, args=(k,)) for k in range(len(procs))]
    [t.start() for t in threads]
    [t.join() for t in threads]
    for (proc, events), (out, err) in zip(procs, results):
        if proc.returncode:
            raise MachineryError(f'worker failed:\n{err[-3000:]}')
        got = json.loads(out)
        trace = []
        for ev, g in zip(events, got):
            if g['err']:
                check.violation('creation refused', f"Unit({ev['text']!r}) [{ev['form']}] raised {g['err']}")
            else:
                if not g['eq']:
                    check.violation('equal to its text', f"Unit({ev['text']!r}) != its own text")
                trace.append({'e': ev['e'], 'words': ev['words'], 'id': g['id'], 'text': ev['text']})
        check.count('creations', len(trace))
        bad = check.validate('TraceUnits', trace)
        if bad:
            k = bad[0]
            same = [t['text'] for t in trace[:k] if t['id'] == trace[k]['id']]
            check.violation('identity', f"creation {k} of {trace[k]['text']!r}: object shared with "
                            f"{same[:5]} breaks one-object-per-unit", case=[t['text'] for t in trace[:k + 1]])
        check.sample({'history': [t['text'] for t in trace[:6]]})


def worker():
    from goats.core import metric, symbolic
    events = json.load(sys.stdin)
    keep, out = {}, []
    last = None
    for ev in events:
        text = ev['text']
        try:
            if ev['form'] == 'expr':
                u = metric.Unit(symbolic.Expression(text))
            elif ev['form'] == 'list':
                u = metric.Unit(list(symbolic.Expression(text)))
            else:
                u = metric.Unit(text)
        except Exception as err:
            out.append({'err': repr(err)})
            continue
        k = keep.setdefault(id(u), (len(keep) + 1, u))[0]
        try:
            eq = bool(u == text)
            if last is not None:
                last * u, last / u, u ** 2, last == u
                last | u
        except Exception as err:
            out.append({'err': repr(err)})
            continue
        last = u
        out.append({'err': None, 'id': k, 'eq': eq})
    json.dump(out, sys.stdout)


# powers of 2, 3 and 5 that make ratios close to one (1e-3, 5e-4, 2e-4, 9e-6)
CLOSE = [(-15, 8, 1), (1, -27, 18), (54, -37, 2), (161, -84, -12)]


def equality(check, gen):
    """Equality of generated pairs, judged by the specification."""
    from goats.core import metric
    rng = check.rng
    pairs = [([['', 'ohm', 1, 1]], [['', 'V', 1, 1]])]
    for _ in range(check.pick(900, 6000)):
        e = gen.expr()
        r = rng.random()
        if r < 0.06:
            f = units.merge(equal_variant(gen, e) + [['', n, k, 1] for n, k in zip('235', rng.choice(CLOSE))])
            f = f or [['', '1', 1, 1]]
        elif r < 0.35:
            f = equal_variant(gen, e)
        elif r < 0.6:
            f = gen.alternative(e)
        elif r < 0.85:
            f = gen.perturbed(e)
        else:
            f = gen.expr()
        pairs.append((e, f))
    verdicts = check.evaluate('UnitCases', [{'a': a, 'b': b} for a, b in pairs])
    for (a, b), v in zip(pairs, verdicts):
        s, t = gen.render(a, None), gen.render(b, None)
        want = {True: v['v'] == 'yes' and not v['f'], 'p': v['vp'] == 'yes' and not v['fp']}
        if v['v'] == 'open' or (v['v'] == 'yes' and near(v['f'])):
            continue
        tag, got = outcome(lambda: metric.Unit(s) == metric.Unit(t))
        tag2, rev = outcome(lambda: (metric.Unit(t) == s, not (metric.Unit(s) != metric.Unit(t))))
        check.count('equalities')
        if tag != 'ok' or tag2 != 'ok' or got != want[True] or rev != (got, got):
            key = None
            if tag == tag2 == 'ok' and got == want['p'] and rev == (got, got):
                key = 'ohm-dimension'
            check.violation('equality', f'Unit({s!r}) == Unit({t!r}) is {got}, reversed {rev}, '
                            f'expected {want[True]}', case=[a, b], key=key)
        else:
            check.validated += 1
    check.sample({'pair': [gen.render(a), gen.render(b)], 'verdict': v['v']})


def near(f):
    x = units.value(f)
    return bool(f) and (x is None or abs(x - 1) < 1e-6)


def equal_variant(gen, e):
    """Rewrite with other units of exactly the same size."""
    swap = {'J': [('', 'N', 1), ('', 'm', 1)], 'Hz': [('', 's', -1)], 'N': [('k', 'g', 1), ('', 'm', 1), ('', 's', -2)],
            'W': [('', 'J', 1), ('', 's', -1)], 'Pa': [('', 'N', 1), ('', 'm', -2)], 'C': [('', 'A', 1), ('', 's', 1)],
            'V': [('', 'W', 1), ('', 'A', -1)], 'erg': [('', 'dyn', 1), ('c', 'm', 1)], 'dyn': [('', 'g', 1), ('c', 'm', 1), ('', 's', -2)],
            'T': [('', 'Wb', 1), ('', 'm', -2)], 'Gy': [('', 'J', 1), ('k', 'g', -1)], 'Bq': [('', 's', -1)],
            'min': [('', 's', 1), ('', '2', 2), ('', '3', 1), ('', '5', 1)], 'P': [('', 'g', 1), ('c', 'm', -1), ('', 's', -1)]}
    out = []
    for p, b, n, d in e:
        if b in swap and d == 1 and gen.rng.random() < 0.8:
            ten = gen.rows[p, b]['ten']
            if ten:
                out += [['', '2', ten * n, 1], ['', '5', ten * n, 1]]
            out += [[q, c, n * k, d] for q, c, k in swap[b]]
        elif b not in units.NUMBERS and d == 1 and gen.rng.random() < 0.3:
            q = gen.rng.choice([x for x in ('', 'k', 'm', 'M', 'c') if (x, b) in gen.spell])
            ten = (gen.rows[p, b]['ten'] - gen.rows[q, b]['ten']) * n
            out.append([q, b, n, d])
            if ten:
                out += [['', '2', ten, 1], ['', '5', ten, 1]]
        else:
            out.append([p, b, n, d])
    return units.merge(out) or [['', '1', 1, 1]]


if __name__ == '__main__':
    sys.path.insert(0, str(REPO / 'src'))
    worker()
