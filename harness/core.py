"""Shared machinery: run TLC on the specifications, collect behaviours,
validate recorded traces, report verdicts and write evidence."""
import json
import os
import pathlib
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = pathlib.Path(__file__).resolve().parent.parent
SPEC = VERIF / 'spec'
REPO = pathlib.Path(os.environ.get('GOATS_REPO', '/repo'))
JARS = ('/opt/veriftools/tla/tla2tools.jar'
        ':/opt/veriftools/tla/CommunityModules-deps.jar')

sys.dont_write_bytecode = True
if str(REPO / 'src') not in sys.path:
    sys.path.insert(0, str(REPO / 'src'))


class MachineryError(Exception):
    """The checking machinery itself failed (never a verdict on the code)."""


class Violation(Exception):
    """Raised by a driver to stop at once with a recorded violation."""


class Hang(Exception):
    """The code under test did not finish."""


class Check:
    """One run of one property check."""

    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.rng = random.Random(f'{prop}-{seed}')
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.extra = {}
        self.samples = []
        self.violations = []
        self.findings = load_findings(prop)
        self.known_hit = {}
        self.assumptions = []
        self.tmp = pathlib.Path(tempfile.mkdtemp(prefix=f'verif-{prop}-'))

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- verdicts ---------------------------------------------------------
    def violation(self, clause, detail, case=None, key=None):
        """Record a violation of the property (or a listed known finding)."""
        for f in self.findings:
            if f['key'] == key and key is not None:
                self.known_hit.setdefault(f['key'], f)
                return
        if len(self.violations) < 25:
            self.violations.append({
                'clause': clause, 'detail': str(detail)[:2000], 'case': case,
                'key': key,
            })
        else:
            raise Violation()

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def sample(self, case, limit=4):
        if len(self.samples) < limit:
            self.samples.append(case)

    # -- TLC --------------------------------------------------------------
    def tlc(self, module, cfg=None, env=None, workers=1, extra=(), timeout=600,
            count=True, heap='2g', expect_ok=True):
        """Run TLC on `module` of /verif/spec; return its stdout."""
        meta = tempfile.mkdtemp(dir=self.tmp)
        work = pathlib.Path(tempfile.mkdtemp(dir=self.tmp))
        for f in SPEC.iterdir():
            if f.suffix in ('.tla', '.cfg'):
                shutil.copy(f, work)
        cmd = ['java', f'-Xmx{heap}', '-Xss64m', '-XX:+UseParallelGC',
               '-XX:ParallelGCThreads=4', '-cp', JARS, 'tlc2.TLC',
               '-noGenerateSpecTE', '-metadir', meta,
               '-workers', str(workers), '-config', cfg or f'{module}.cfg',
               *extra, f'{module}.tla']
        full = dict(os.environ)
        full.update({k: str(v) for k, v in (env or {}).items()})
        out_path = work / 'tlc.out'
        with out_path.open('w') as fp:
            try:
                rc = subprocess.run(cmd, cwd=work, env=full, stdout=fp,
                                    stderr=subprocess.STDOUT,
                                    timeout=timeout).returncode
            except subprocess.TimeoutExpired:
                raise MachineryError(f'TLC timed out on {module}')
        out = out_path.read_text(errors='replace')
        shutil.rmtree(meta, ignore_errors=True)
        shutil.rmtree(work, ignore_errors=True)
        m = None
        for m in re.finditer(r'([\d,]+) states generated, ([\d,]+) distinct', out):
            pass
        if m and count:
            self.transitions += int(m.group(1).replace(',', ''))
            self.states += int(m.group(2).replace(',', ''))
        if expect_ok and rc != 0:
            tail = '\n'.join(l for l in out.splitlines() if not l.startswith('"@@'))
            raise MachineryError(f'TLC failed (rc={rc}) on {module}:\n{tail[-6000:]}')
        self.last_rc = rc
        return out

    def emitted(self, out):
        """Decode the JSON lines that a specification printed as @@..."""
        for line in out.splitlines():
            if line.startswith('"@@'):
                yield json.loads(json.loads(line)[2:])

    def graph(self, module, cfg=None, env=None, workers=1, timeout=600, heap='2g'):
        """Explore the model exhaustively; return its labelled graph.

        The specification prints one line per transition:
        {"s": state, "a": action, "t": next state}.
        """
        out = self.tlc(module, cfg, env, workers=workers, timeout=timeout, heap=heap)
        edges = {}
        for e in self.emitted(out):
            s, t = canon(e['s']), canon(e['t'])
            edges.setdefault(s, {})[canon(e['a'])] = t
        if not edges:
            raise MachineryError(f'{module} emitted no transitions')
        return edges

    def evaluate(self, module, cases, cfg=None, timeout=600, heap='3g',
                 count=True, chunk=None, workers=1):
        """Let the specification judge recorded cases.

        `cases` (a list of JSON-able records) is written to a file; the module
        reads it (IOEnv.CASES) and prints, per case, its verdict as
        @@{"i": index, ...}.  Returns the list of verdicts in order.
        """
        path = self.tmp / f'cases-{time.time_ns()}.ndjson'
        with path.open('w') as fp:
            for c in cases:
                fp.write(json.dumps(c) + '\n')
        out = self.tlc(module, cfg, {'CASES': path}, timeout=timeout, heap=heap,
                       count=count, workers=workers)
        path.unlink()
        res = {}
        for v in self.emitted(out):
            if v['i'] >= 1:
                res[v['i']] = v
        if len(res) != len(cases):
            raise MachineryError(
                f'{module}: {len(res)} verdicts for {len(cases)} cases\n{out[-3000:]}')
        return [res[i + 1] for i in range(len(cases))]

    def validate(self, module, events, cfg=None, timeout=600, heap='3g'):
        """Check one recorded history against a trace specification.

        Returns None if accepted, else (index, verdict record)."""
        path = self.tmp / f'trace-{time.time_ns()}.ndjson'
        with path.open('w') as fp:
            for e in events:
                fp.write(json.dumps(e) + '\n')
        out = self.tlc(module, cfg, {'CASES': path}, timeout=timeout, heap=heap)
        path.unlink()
        done, bad = None, None
        for v in self.emitted(out):
            if 'done' in v:
                done = v
            elif bad is None:
                bad = v
        if done is None or done['len'] != len(events):
            raise MachineryError(f'{module}: no verdict\n{out[-3000:]}')
        if done['done'] == len(events) and bad is None:
            self.validated += 1
            return None
        return done['done'], bad

    # -- finish -----------------------------------------------------------
    def finish(self, level='model_checking'):
        wall = round(time.time() - self.t0, 2)
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed,
            'level': level,
            'coverage': {
                'states': self.states, 'transitions': self.transitions,
                'traces_validated_against_impl': self.validated,
                'samples': self.samples or ['(none)'],
                **self.extra,
            },
            'assumptions': self.assumptions,
            'wall_s': wall, 'violations': len(self.violations),
        }
        evdir = VERIF / 'evidence'
        evdir.mkdir(exist_ok=True)
        (evdir / f'{self.prop}.json').write_text(
            json.dumps(ev, indent=1, default=str) + '\n')
        for key, f in sorted(self.known_hit.items()):
            print(f"KNOWN-FINDING: property={self.prop} {f['what']}")
        shutil.rmtree(self.tmp, ignore_errors=True)
        if self.violations:
            rdir = evdir / 'replay'
            rdir.mkdir(exist_ok=True)
            rp = rdir / f'{self.prop}.json'
            rp.write_text(json.dumps({
                'property': self.prop, 'seed': self.seed, 'tier': self.tier,
                'rerun': f'cd /verif && VERIF_SEED={self.seed} ./check {self.prop} {self.tier}',
                'violations': self.violations}, indent=1, default=str) + '\n')
            for v in self.violations[:5]:
                print(f"  [{v['clause']}] {v['detail'][:600]}")
            print(f'VIOLATION property={self.prop} replay={rp}')
            sys.stdout.flush()
            return 1
        print(f'OK property={self.prop} states={self.states} '
              f'transitions={self.transitions} '
              f'validated={self.validated} wall={wall}s')
        return 0


def load_findings(prop):
    path = VERIF / 'known_findings.json'
    if not path.exists():
        return []
    data = json.loads(path.read_text())
    return [f for f in data.get('findings', []) if f['property'] == prop]


def canon(x):
    """Canonical text of a JSON value (used as graph node / action name)."""
    return json.dumps(x, sort_keys=True, separators=(',', ':'))


def covering_walk(edges, init, rng, limit=None):
    """Yield (state, action, next) steps: one walk from `init` that takes every
    transition reachable, restarting (yields None) where it cannot go on."""
    todo = {s: list(a) for s, a in edges.items()}
    for s in todo:
        todo[s].sort()
        rng.shuffle(todo[s])
    cur = init
    steps = 0
    remaining = sum(len(v) for v in todo.values())
    while remaining:
        if limit and steps >= limit:
            return
        if todo.get(cur):
            a = todo[cur].pop()
            remaining -= 1
            nxt = edges[cur][a]
            yield cur, a, nxt
            cur = nxt
            steps += 1
            continue
        path = _nearest(edges, todo, cur)
        if path is None:
            if cur == init:
                return
            yield None
            cur = init
            continue
        for a in path:
            nxt = edges[cur][a]
            yield cur, a, nxt
            cur = nxt
            steps += 1


def _nearest(edges, todo, start):
    seen = {start: None}
    queue = [start]
    for s in queue:
        if todo.get(s):
            path = []
            while seen[s] is not None:
                p, a = seen[s]
                path.append(a)
                s = p
            return path[::-1]
        for a, t in edges.get(s, {}).items():
            if t not in seen:
                seen[t] = (s, a)
                queue.append(t)
    return None


def outcome(func, *args, **kwargs):
    """('ok', value) or ('err', exception class name)."""
    try:
        return 'ok', func(*args, **kwargs)
    except Hang:
        raise
    except RecursionError:
        return 'err', 'RecursionError'
    except Exception as err:  # the code under test may raise anything
        if os.environ.get('VERIF_TRACE'):
            traceback.print_exc()
        return 'err', type(err).__name__


def in_repo(tb):
    while tb is not None:
        if str(REPO / 'src') in tb.tb_frame.f_code.co_filename:
            return True
        tb = tb.tb_next
    return False


def main(prop, driver, argv):
    tier = (argv[0] if argv else None) or os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    limit = 800 if tier == 'quick' else 5 * 3600
    check = Check(prop, tier, seed)

    def on_alarm(*_):
        raise Hang(f'no verdict after {limit} s')
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(limit)
    try:
        driver(check)
    except Violation:
        pass
    except MachineryError as err:
        if not check.violations:
            print(f'MACHINERY ERROR: {err}', file=sys.stderr)
            shutil.rmtree(check.tmp, ignore_errors=True)
            return 2
    except BaseException as err:
        if isinstance(err, KeyboardInterrupt):
            raise
        tb = traceback.format_exc()
        if check.violations:
            pass
        elif in_repo(err.__traceback__):
            # The code under test raised (or never returned) where the
            # property promises a result.
            check.violations.append({
                'clause': 'unexpected exception from the code under test',
                'detail': tb[-1800:], 'case': None, 'key': None})
        elif isinstance(err, (ArithmeticError, AssertionError, AttributeError, LookupError, TypeError, ValueError)):
            # A result of the code under test does not even have the form
            # that the comparison with the specification expects.
            check.violations.append({
                'clause': 'a result that cannot be compared with the specification',
                'detail': tb[-1800:], 'case': None, 'key': None})
        else:
            print(tb, file=sys.stderr)
            shutil.rmtree(check.tmp, ignore_errors=True)
            return 2
    signal.alarm(0)
    return check.finish()


def sorted_sets(x):
    """Sort every array (for states in which all arrays encode sets)."""
    if isinstance(x, dict):
        return {k: sorted_sets(v) for k, v in x.items()}
    if isinstance(x, list):
        return sorted((sorted_sets(i) for i in x), key=canon)
    return x


def normalize_graph(raw, norm):
    edges = {}
    cache = {}

    def c(s):
        if s not in cache:
            cache[s] = canon(norm(json.loads(s)))
        return cache[s]
    for s, acts in raw.items():
        for a, t in acts.items():
            edges.setdefault(c(s), {})[a] = c(t)
    return edges


def replay(check, edges, init, make, limit=None, label=''):
    """Walk the model's graph on real objects.

    `make(state)` builds a subject in the given abstract state; the subject
    has apply(o) -> (tag, value), agrees(o, want, tag, value) -> text or None,
    and state() -> abstract state.  Returns the number of steps taken."""
    subject = make(json.loads(init))
    recent = []
    steps = 0
    for step in covering_walk(edges, init, check.rng, limit):
        if step is None:
            subject = make(json.loads(init))
            recent = []
            continue
        s, a, t = step
        act = json.loads(a)
        o, want = act['o'], act['res']
        tag, val = subject.apply(o)
        steps += 1
        recent.append(o)
        del recent[:-8]
        before = len(check.violations)
        where = label + 'after ... ' + ' ; '.join(canon(i) for i in recent)
        if want['tag'] == 'ok' and tag != 'ok':
            check.violation('operation refused', f'{where}: raised {val}', case=recent[:])
        elif want['tag'] != 'ok' and tag == 'ok':
            check.violation('operation not refused',
                            f'{where}: gave {val!r} instead of {want["tag"]}', case=recent[:])
        else:
            msg = subject.agrees(o, want, tag, val)
            if msg:
                check.violation('result', f'{where}: {msg}', case=recent[:])
        stag, got = outcome(subject.state)
        if stag != 'ok' or canon(got) != t:
            check.violation('state after the operation',
                            f'{where}: {got!r}, expected {t}', case=recent[:])
        if len(check.violations) > before:
            subject = make(json.loads(t))
    check.count('replayed_steps', steps)
    check.validated += steps
    check.sample({'replay': label, 'last_operations': recent[:]})
    return steps
