"""C22: misspelled names get exactly the close known names as suggestions."""
import json

import core
from goats.core import observer, observing, reference, spelling

ALPHABETS = ['ab', 'xY', 'k2', 'r ', 'e>']


class Context(observing.Context):
    """The smallest observing context: it knows names."""

    def observe(self, name):
        raise NotImplementedError


def ask(check, checker, name, want, case):
    """Ask in every mode; want is a set of words (None: name is known)."""
    before = set(checker.words)
    known = name in before
    tag, got = core.outcome(checker.check, name, mode='suggest')
    if tag == 'err' or sorted(got) != sorted(want):
        check.violation('suggestions', f'{name!r} among {sorted(before)}: {got!r}, expected {sorted(want)}', case=case)
    if known or want:
        tag, got = core.outcome(checker.check, name, mode='truth')
        if tag == 'err' or bool(got) != known:
            check.violation('a known name passes', f'{name!r} truth: {got!r}', case=case)
    try:
        checker.check(name)
        raised = None
    except spelling.SpellingError as err:
        raised = err
    except Exception as err:
        check.violation('suggestions', f'{name!r} raised {err!r}', case=case)
        return
    if (raised is not None) != bool(want):
        check.violation('an unknown name is reported iff close names are known',
                        f'{name!r} among {sorted(before)}: {raised!r}, expected {sorted(want)}', case=case)
    elif raised is not None:
        listed = [raised.suggested] if isinstance(raised.suggested, str) else list(raised.suggested)
        if sorted(listed) != sorted(want) or raised.name != name or any(w not in str(raised) for w in want):
            check.violation('the report lists the suggestions', f'{raised!s}, expected {sorted(want)}', case=case)
    if set(checker.words) != before:
        check.violation('checking keeps the vocabulary', f'{name!r}: {sorted(before)} became {sorted(checker.words)}', case=case)
    check.count('lookups')


def observe(check, obs, name, want, case):
    tag, got = 'ok', None
    try:
        obs[name]
    except spelling.SpellingError as err:
        tag, got = 'spelling', sorted([err.suggested] if isinstance(err.suggested, str) else err.suggested)
    except KeyError:
        tag, got = 'key', []
    except Exception as err:
        tag, got = 'other', repr(err)
    if tag == 'other' or (got or []) != sorted(want):
        check.violation('an observer suggests the close known names', f'{name!r}: {tag} {got!r}, expected {sorted(want)}', case=case)
    check.count('observer lookups')


def run(check):
    rng = check.rng
    raw = check.graph('SpellModel', 'SpellModelThorough.cfg' if check.thorough else 'SpellModel.cfg', timeout=3000)
    edges = core.normalize_graph(raw, lambda s: sorted(s, key=core.canon))
    init = core.canon([])
    checker, letters, steps = None, None, 0

    def text(w):
        return ''.join(letters[i - 1] for i in w)
    restart = True
    for step in core.covering_walk(edges, init, rng):
        if step is None or restart:
            letters = rng.choice(ALPHABETS)
            checker = spelling.SpellChecker()
            restart = False
            if step is None:
                continue
        s, a, t = step
        act = json.loads(a)
        if act['o'] == 'add':
            w = text(act['w'])
            r = rng.random()
            if json.loads(s) == [] and r < 0.5:
                checker = spelling.SpellChecker(w)
            elif r < 0.7:
                checker.words |= {w}
            else:
                checker.words.add(w)
        else:
            ask(check, checker, text(act['w']), [text(w) for w in act['res']], [[text(w) for w in json.loads(s)], text(act['w'])])
        steps += 1
    check.count('model steps replayed', steps)
    check.validated += 1

    # realistic vocabularies and edited names, judged by the specification
    groups = [sorted(k for k in g) for g in reference.ALIASES]
    names = sorted({k for g in groups for k in g if len(k) <= 14})
    pool = sorted({c for n in names for c in n} | set('abcXYZ019_-'))

    def edit(w):
        i = rng.randrange(len(w) + 1)
        r = rng.randrange(4)
        if r == 0:
            return w[:i] + rng.choice(pool) + w[i:]
        if r == 1 and w:
            return w[:i] + w[i + 1:]
        if r == 2 and w:
            i = rng.randrange(len(w))
            return w[:i] + rng.choice(pool) + w[i + 1:]
        if len(w) > 1:
            i = rng.randrange(len(w) - 1)
            return w[:i] + w[i + 1] + w[i] + w[i + 2:]
        return w
    cases = []
    for _ in range(check.pick(100, 1000)):
        n = rng.choice([1, 2, 4, 8, 15])
        r = rng.random()
        if r < 0.6:
            vocab = rng.sample(names, n)
        else:
            seed = rng.choice([x for x in names if 3 <= len(x) < 9])
            vocab = list({seed} | {edit(edit(edit(seed)) if rng.random() < 0.5 else seed) for _ in range(n)} - {''})
        queries = []
        for _ in range(4):
            w = rng.choice(vocab)
            for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3])):
                w = edit(w)
            if len(w) <= 13:
                queries.append(w)
        cases += [{'voc': vocab, 'word': q} for q in queries]
    coded = [{'v': [[ord(c) for c in w] for w in c['voc']], 'w': [ord(c) for c in c['word']]} for c in cases]
    half = len(coded)
    # observers know whole groups of aliases
    singles = [n for n in names if len(n) >= 3]
    obs_cases = []
    for _ in range(check.pick(12, 80)):
        keys = rng.sample(singles, rng.choice([1, 2, 3]))
        extra = rng.sample(['plasmon', 'wobble9', 'Qty x', 'drift'], 2)
        known = set()
        for k in keys + extra:
            known |= set(next((g for g in groups if k in g), [k]))
        queries = []
        for _ in range(4):
            w = rng.choice(sorted(known))
            for _ in range(rng.choice([1, 1, 1, 2])):
                w = edit(w)
            if len(w) <= 14 and w not in known and not set(w) & set('/*^()'):
                queries.append(w)
        obs_cases.append((keys + extra, queries))
        coded += [{'v': [[ord(c) for c in k] for k in sorted(known)], 'w': [ord(c) for c in q]} for q in queries]
    verdicts = check.evaluate('SpellCases', coded)
    plain = [[''.join(map(chr, w)) for w in v['res']] for v in verdicts]
    checker, last = None, None
    for c, want in zip(cases, plain[:half]):
        if c['voc'] is not last:
            grow = rng.random() < 0.5
            if grow:
                k = rng.randrange(len(c['voc']))
                checker = spelling.SpellChecker(*c['voc'][:k])
                core.outcome(checker.check, 'Bq9', mode='suggest')
                checker.words |= set(c['voc'][k:])
            else:
                checker = spelling.SpellChecker(*c['voc'])
            last = c['voc']
        ask(check, checker, c['word'], want, [c['voc'], c['word']])
        check.validated += 1
    k = half
    for keys, queries in obs_cases:
        i = rng.randrange(len(keys) + 1)
        ctx = Context({n: None for n in keys[:i]}, constraints={n: None for n in keys[i:]})
        o = observer.Interface(context=ctx)
        for q in queries:
            observe(check, o, q, plain[k], [keys, q])
            k += 1
            check.validated += 1
    check.sample(cases[0])
    check.assumptions += ['a vocabulary of nonempty names; names up to 14 characters']
