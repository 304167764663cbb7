"""C26: an observer reads the files it names."""
import json
import os
import pathlib

import numpy

import core
import observe
import streams
from goats import eprem

DATA = {'A': ['obs0', 'flux0', 'flux1', 'p0'], 'B': ['flux0', 'obs1', 'p12'], 'C': ['p0', 'flux12'], 'W': ['obs0', 'obs12', 'p12']}
COMING = [('C', 'obs12')]       # a file that is not there at first
CONF = {'A': ['c1'], 'B': ['c1', 'c2'], 'C': [], 'W': ['c2', 'c3']}


def file_name(n):
    for stem, form in (('obs', 'obs{:06}.nc'), ('flux', 'flux{:06}.nc'), ('p', 'p_obs{:03}.nc')):
        if n.startswith(stem) and n[len(stem):].isdigit():
            return form.format(int(n[len(stem):]))


class Layout:
    """The folders of the model, with files that can be told apart."""

    def __init__(self, check, w):
        self.root = check.tmp / 'layout'
        self.root.mkdir()
        self.speed, self.lamo = {}, {}
        rng = check.rng
        k = 0
        self.moved = set()
        (self.root / 'away').mkdir()
        for folder in 'ABCW':
            (self.root / folder).mkdir()
            for n in (*DATA[folder], *(f[1] for f in COMING if f[0] == folder)):
                k += 1
                data = observe.Data(rng, {'time': 2, 'shell': 2, 'energy': 2, 'mu': 2}, [0], w.si)
                data.values['Vr'][...] = 100.0 + k
                data.values['time'] = numpy.array([k, k + 0.5])
                streams.write(self.root / folder / file_name(n), data.sizes, data.values)
                self.speed[folder, n] = k
            for c in CONF[folder]:
                k += 1
                self.lamo[folder, c] = round(k / 10, 3)
                (self.root / folder / f'{c}.ini').write_text(f'lamo = {k / 10}\n')
            # something else that is not a data file of any observer
            (self.root / folder / 'obs000007.txt').write_text('')
        for f in COMING:
            self._swap(f)
        os.chdir(self.root / 'W')

    def _swap(self, f):
        here, away = self.root / f[0] / file_name(f[1]), self.root / 'away' / '-'.join(f)
        if here.exists():
            here.rename(away)
        else:
            away.rename(here)

    def move(self, f):
        """Let a file appear or disappear."""
        self._swap(f)
        self.moved ^= {f}
        return f'the file {f[0]}/{file_name(f[1])} {"comes" if (self.root / f[0] / file_name(f[1])).exists() else "goes"}'

    def restore(self):
        for f in sorted(self.moved):
            self.move(f)

    def source(self, rng, name):
        if name == 'none':
            return rng.choice([{}, {'source': None}])
        p = self.root / name
        return {'source': rng.choice([p, str(p), f'../{name}', pathlib.Path('..') / name])}

    def config(self, rng, c):
        if not c:
            return rng.choice([{}, {'config': None}])
        if len(c) == 1:
            return {'config': rng.choice([str, pathlib.Path])(f'{c[0]}.ini')}
        p = self.root / c[0] / f'{c[1]}.ini'
        return {'config': rng.choice([p, str(p), f'../{c[0]}/{c[1]}.ini'])}


def check_seen(check, lay, label, s, see):
    """What the observer describes is what the specification says."""
    rng = check.rng
    if not see['data']:
        for what, f in (('observing', lambda: s['Vr'].observe()), ('asking', lambda: s.observes('Vr'))):
            tag, got = core.outcome(f)
            if tag == 'ok':
                check.violation('an observer without files observes nothing', f'{label}: {what} gave {got!r}')
        tag, got = core.outcome(lambda: numpy.array(s.time))
        if tag == 'ok':
            check.violation('an observer without files observes nothing', f'{label}: time is {got}')
        return
    k = lay.speed[tuple(see['data'])]
    tag, got = core.outcome(lambda: (numpy.array(s['Vr']['km s^-1'].observe().data), numpy.array(s.time['day'])))
    if tag == 'err':
        check.violation('an observer with its files observes', f'{label}: raised {got}')
        return
    if not numpy.allclose(got[0], 100.0 + k, rtol=1e-9):
        check.violation('an observer reads the data file it names', f'{label}: Vr is {got[0].ravel()[:2]}, {see["data"]} has {100.0 + k}')
    if not numpy.allclose(got[1], [k, k + 0.5], rtol=1e-9):
        check.violation('the axes of an observer are those of its data', f'{label}: times {got[1]}')
    if core.outcome(lambda: s.datapath)[1] != lay.root / see['data'][0] / file_name(see['data'][1]):
        check.violation('an observer reports its data file', f'{label}: {core.outcome(lambda: s.datapath)[1]}')
    want = [lay.lamo[tuple(c)] for c in see['confs']]
    tag, got = core.outcome(lambda: float(s['mfp'].observe(time=0, shell=0)['lambda0']['au']))
    if tag == 'err' or not any(abs(got - x) < 1e-9 for x in want):
        check.violation('an observer uses the configuration it names', f'{label}: lambda0 is {got} au, expected one of {want} ({see["confs"]})')
    elif core.outcome(lambda: s.confpath)[1] not in [lay.root / c[0] / f'{c[1]}.ini' for c in see['confs']]:
        check.violation('an observer reports its configuration file', f'{label}: {core.outcome(lambda: s.confpath)[1]}')
    check.count('observers read')


def run(check):
    rng = check.rng
    w = observe.World(check)
    before = os.getcwd()
    lay = Layout(check, w)
    try:
        edges = check.graph('Files')
        nodes = {x for x in edges} | {t for a in edges.values() for t in a.values()}
        start = next(x for x in sorted(edges) if not json.loads(x)['m'] and any(json.loads(a)['o']['op'] == 'new' for a in edges[x]))
        check.count('model transitions', sum(len(a) for a in edges.values()))
        check.count('model states', len(nodes))

        def begin():
            return eprem.Stream(0, source=lay.root / 'A', config='c1.ini')
        s, told = begin(), ['Stream(0, A, c1)']
        steps = 0
        for step in check.pick(short_walks, core.covering_walk)(edges, start, rng):
            if step is None:
                lay.restore()
                s, told = begin(), ['Stream(0, A, c1)']
                continue
            act = json.loads(step[1])
            o = act['o']
            steps += 1
            if o['op'] == 'move':
                told = told[-5:] + [lay.move(tuple(o['file']))]
                tag, got = 'ok', None
            elif o['op'] == 'new':
                cls = {'Stream': eprem.Stream, 'Point': eprem.Point}[o['kind']]
                kw = {**lay.source(rng, o['src']), **lay.config(rng, o['conf'])}
                told = [f'{o["kind"]}({o["n"]}, {", ".join(f"{k}={v}" for k, v in kw.items())})']
                tag, got = core.outcome(cls, o['n'], **kw)
                if act['res'] == 'ok' and tag == 'ok':
                    s = got
            else:
                kw = {**lay.source(rng, o['src']), **lay.config(rng, o['conf'])}
                told = told[-5:] + [f'update({", ".join(f"{k}={v}" for k, v in kw.items())})']
                tag, got = core.outcome(s.update, **kw)
                if tag == 'ok' and got is not s:
                    check.violation('an update returns the observer', f'{told}: {got!r}')
            label = ', then '.join(told).replace(str(lay.root), '')
            if (act['res'] == 'ok') != (tag == 'ok'):
                check.violation('files that are missing are refused, others are not',
                                f'{label}: {"raised " + str(got) if tag == "err" else "did not fail"}', case=o)
                t = json.loads(step[2])['o']
                s = rebuild(lay, t)
                told = [f'{t}']
                if s is None:
                    moved = sorted(lay.moved)
                    lay.restore()
                    s, told = begin(), ['Stream(0, A, c1)']
                    for f in moved:
                        lay.move(f)
                continue
            if o['op'] == 'new' and act['res'] != 'ok':
                told = ['Stream(0, A, c1)']
            if rng.random() < check.pick(0.35, 1.0) or o['op'] == 'new':
                check_seen(check, lay, label, s, act['see'])
        check.count('steps', steps)
        check.validated += steps
        check.sample({'last': told})
    finally:
        os.chdir(before)


def short_walks(edges, start, rng, length=6):
    """Every kind of observer, each followed by a few updates."""
    for a in sorted(edges[start]):
        if json.loads(a)['o']['op'] != 'new':
            continue
        yield None
        cur = start
        while rng.random() < 0.3:
            m = rng.choice([b for b in sorted(edges[cur]) if json.loads(b)['o']['op'] == 'move'])
            yield cur, m, edges[cur][m]
            cur = edges[cur][m]
        b = next(b for b in edges[cur] if json.loads(b)['o'] == json.loads(a)['o'])
        yield cur, b, edges[cur][b]
        cur = edges[cur][b]
        for _ in range(length):
            acts = [b for b in sorted(edges.get(cur, ())) if json.loads(b)['o']['op'] == 'update']
            moves = [b for b in sorted(edges.get(cur, ())) if json.loads(b)['o']['op'] == 'move']
            if moves and rng.random() < 0.3:
                acts = moves
            if not acts:
                break
            b = rng.choice(acts)
            yield cur, b, edges[cur][b]
            cur = edges[cur][b]


def rebuild(lay, t):
    cls = {'Stream': eprem.Stream, 'Point': eprem.Point}[t['kind']]
    tag, s = core.outcome(cls, t['n'], source=None if t['src'] == 'none' else lay.root / t['src'], config=f'{t["conf"][0]}.ini' if len(t['conf']) == 1 else None)
    return s if tag == 'ok' and len(t['conf']) < 2 else None
