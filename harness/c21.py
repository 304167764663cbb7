"""C21: views of data files, and read-only paths."""
import gc
import hashlib
import json
import os
import pathlib
import re
import shutil
import tempfile

import netCDF4
import numpy

import core
from goats import eprem
from goats.core import aliased, datafile, iotools, variable


def make_file(path, vars_, axes):
    """Write a data file: vars_ are (name, unit or None, attr, dims, values)."""
    with netCDF4.Dataset(str(path), 'w') as d:
        for name, size, unlimited in axes:
            d.createDimension(name, None if unlimited else size)
        for name, unit, attr, dims, values in vars_:
            v = d.createVariable(name, values.dtype.str[1:], dims)
            if unit is not None:
                setattr(v, attr, unit)
            v[...] = values


def fingerprint(root):
    out = []
    for p in sorted(root.rglob('*')):
        if p.is_file():
            out.append((str(p.relative_to(root)), hashlib.sha1(p.read_bytes()).hexdigest()))
        else:
            out.append((str(p.relative_to(root)), 'dir'))
    return out


class FirstVariables(datafile.NetCDFVariables):
    def get_members(self, path):
        m = super().get_members(path)
        return {k: m[k] for k in list(m)[:1]}


class LastVariables(datafile.NetCDFVariables):
    def get_members(self, path):
        m = super().get_members(path)
        return {k: m[k] for k in list(m)[-1:]}


class FirstAxes(datafile.NetCDFAxes):
    def get_members(self, path):
        m = super().get_members(path)
        return {k: m[k] for k in list(m)[:1]}


VIEWERS = {'variables': {'plain': datafile.NetCDFVariables, 'first': FirstVariables, 'last': LastVariables},
           'axes': {'plain': datafile.NetCDFAxes, 'first': FirstAxes}}

# contents of the three files of the model
CONTENT = {
    'd1/x.nc': ([('Rho', 'cm^-3', 'units', ('time', 'shell'), 1), ('R', 'au', 'units', ('time', 'shell'), 2), ('time', 'day', 'units', ('time',), 3), ('foo', None, '', ('shell',), 4)],
                [('time', 2, True), ('shell', 3, False), ('species', 1, False)]),
    'd2/x.nc': ([('Rho', 'm^-3', 'unit', ('time',), 5), ('time', 's', 'units', ('time',), 6), ('bar', 'km', 'units', ('time', 'energy'), 7)],
                [('time', 4, False), ('energy', 2, False)]),
    'd1/y.nc': ([('Vr', 'km/s', 'units', ('shell',), 8), ('T', 'rad', 'units', ('shell',), 9), ('mass', 'nucleon', 'units', (), 10)],
                [('shell', 5, False), ('mu', 2, False)]),
}


def values(spec, axes, k):
    shape = [next(s for n, s, _ in axes if n == d) for d in spec]
    n = int(numpy.prod(shape)) if shape else 1
    return numpy.arange(1.0, n + 1).reshape(shape) + 100.0 * k


class Views:
    """The real thing: a scratch tree with views opened in it."""

    def __init__(self, check, state):
        self.check = check
        self.root = pathlib.Path(tempfile.mkdtemp(dir=check.tmp)).resolve()
        for d in ('d1', 'd2'):
            (self.root / d).mkdir()
        self.content = {}
        for key, (vs, axes) in CONTENT.items():
            vs = [(n, u, a, dims, values(dims, axes, k)) for n, u, a, dims, k in vs]
            make_file(self.root / key, vs, axes)
            self.content[key] = (vs, axes)
        (self.root / 'd1' / 't.dat').write_text('not a data file\n')
        (self.root / 'd2' / 'l.nc').symlink_to(self.root / 'd1' / 'x.nc')
        self.print = fingerprint(self.root)
        self.handles = {}
        os.chdir(self.root / 'd1')
        self.steps = 0

    def close(self):
        os.chdir(self.check.tmp)
        shutil.rmtree(self.root, ignore_errors=True)

    def spelled(self, sp):
        k = sp['k']
        if k == 'absolute':
            s = f"{self.root}/{sp['dir']}/{sp['name']}"
        elif k == 'relative':
            s = sp['name']
        elif k == 'over':
            s = f"../{sp['dir']}/{sp['name']}"
        else:
            s = f"{self.root}/{sp['dir']}/./{sp['name']}"
        return s if self.check.rng.random() < 0.5 else pathlib.Path(s)

    def apply(self, o):
        self.steps += 1
        if self.steps % 50 == 0:
            gc.collect()
        k = o['o']
        if k == 'chdir':
            os.chdir(self.root / o['dir'])
            return 'ok', None
        if k == 'open':
            return core.outcome(datafile.Interface, self.spelled(o['sp']))
        if k == 'use':
            h = self.handles[o['file']]
            if self.check.rng.random() < 0.5:
                core.outcome(lambda: (h.variables, h.axes, h.units))
            return core.outcome(h.use, **{o['group']: VIEWERS[o['group']][o['v']]})
        return core.outcome(self.write, o['file'], o['w'])

    def write(self, file, w):
        path = iotools.ReadOnlyPath(self.root / file)
        if w.startswith('open '):
            with path.open(w[5:]) as fp:
                fp.write(b'' if 'b' in w[5:] else '')
        elif w == 'mode=w':
            with path.open(mode='w') as fp:
                fp.write('')
        elif w == 'write_text':
            path.write_text('text')
        elif w == 'write_bytes':
            path.write_bytes(b'bytes')
        elif w.startswith('new '):
            # a file that is not there yet, reached from a read-only folder
            new = iotools.ReadOnlyPath(path.parent) / 'new.nc'
            if w == 'new text':
                new.write_text('text')
            else:
                new.open(w[4:]).close()
        elif w == 'sibling':
            path.with_suffix('.new').open('w').close()
        elif w == 'derived':
            with (self.handles[file].path if file in self.handles else path).open('w') as fp:
                fp.write('')
        else:
            h = self.handles[file]
            v = h.variables[next(iter(h.variables))].data
            if w == 'data':
                v[...] = -1.0
                v.group().sync()
            else:
                v.units = 'changed'
                v.group().sync()
        return 'written'

    def agrees(self, o, want, tag, val):
        if o['o'] == 'open' and tag == 'ok':
            h = self.handles.get(want['file'])
            if h is not None and h is not val:
                return 'opening the same file again gave another view'
            if any(f != want['file'] and g is val for f, g in self.handles.items()):
                return 'opening another file gave the view of this one'
            self.handles[want['file']] = val
        if o['o'] == 'open' and tag == 'err' and want['tag'] == 'missing' and val != 'NonExistentPathError':
            return f'raised {val} for a path that does not exist'
        if o['o'] == 'use' and val is not self.handles[o['file']]:
            return 'use() returned another view'
        return None

    def state(self):
        view = {f: {'v': 'none', 'a': 'none'} for f in CONTENT}
        for f, h in self.handles.items():
            vs, axes = self.content[f]
            view[f] = {'v': self.classify(f, h, vs), 'a': self.axes(f, h, axes)}
        same = fingerprint(self.root) == self.print
        return {'cwd': pathlib.Path.cwd().name, 'view': view, 'disk': 'original' if same else 'changed'}

    def classify(self, f, h, vs):
        names = [v[0] for v in vs]
        got = list(h.available('variables').canonical)
        kind = {tuple(names): 'plain', (names[0],): 'first', (names[-1],): 'last'}.get(tuple(got), str(got))
        if kind not in ('plain', 'first', 'last'):
            return kind
        seen = vs if kind == 'plain' else vs[:1] if kind == 'first' else vs[-1:]
        if len(h.variables) != len(h.available('variables').full) or \
                {v.name for v in h.variables.values()} != {v[0] for v in seen}:
            return f'{kind}, but variables are {list(h.variables)}'
        for n, u, _, dims, x in seen:
            v = h.variables[n]
            if (v.name, v.unit, tuple(v.dimensions)) != (n, u, dims) or h.units[n] != u or \
                    not numpy.array_equal(numpy.asarray(v.data[...]), x):
                return f'{kind}, but {n} is {v} {v.data[...]}'
        if len(h.units) != len(h.variables):
            return f'{kind}, but units are {list(h.units)}'
        return kind

    def axes(self, f, h, axes):
        names = [a[0] for a in axes]
        got = list(h.available('axes').canonical)
        kind = {tuple(names): 'plain', (names[0],): 'first'}.get(tuple(got), str(got))
        if kind not in ('plain', 'first'):
            return kind
        seen = axes if kind == 'plain' else axes[:1]
        if {(a.name, a.size) for a in h.axes.values()} != {(n, s) for n, s, _ in seen}:
            return f'{kind}, but axes are {list(h.axes.values())}'
        return kind


def histories(check):
    cfg = check.pick('ViewModel.cfg', 'ViewModelThorough.cfg')
    raw = check.graph('ViewModel', cfg)
    edges = {s: {a: t for a, t in acts.items() if possible(s, a)} for s, acts in raw.items()}
    start = {'cwd': 'd1', 'disk': 'original', 'view': {f: {'v': 'none', 'a': 'none'} for f in CONTENT}}
    subjects = []

    def make(state):
        for s in subjects:
            s.close()
        gc.collect()
        subjects[:] = [Views(check, state)]
        return subjects[0]
    n = core.replay(check, edges, core.canon(start), make, limit=check.pick(1100, 12000))
    for s in subjects:
        s.close()
    check.validated += n
    check.count('history_steps', n)


def possible(s, a):
    o = json.loads(a)['o']
    if o['o'] == 'write' and o['w'] in ('data', 'attribute'):
        return json.loads(s)['view'][o['file']]['v'] == 'plain'
    return True


UNITS = [None, 'm', 'km/s', 'cm^-3', '1', 's^3/km^6', 'julian date', 'g', 'MHz']
DTYPES = ['f8', 'f4', 'i4', 'i2']


def legal(name):
    """Can this be a name in a data file?"""
    return re.fullmatch(r'\w[-\w ().]*', name)


def random_file(check, known):
    rng = check.rng
    free = ['foo', 'a', 'k2', 'Phi0', 'q_x', 'lat', 'preEruption', 'TT', 'species']
    groups = rng.sample(known, rng.randint(0, 6))
    names = [rng.choice(g) for g in groups] + rng.sample(free, rng.randint(0, 3))
    names = [n for n in names if legal(n)]
    rng.shuffle(names)
    axgroups = rng.sample(known, rng.randint(1, 4))
    axnames = [rng.choice(g) for g in axgroups] + rng.sample(free, rng.randint(0, 2))
    axnames = [n for n in axnames if legal(n)] or ['time']
    axes = [(n, rng.choice([1, 2, 3, 5]), rng.random() < 0.2) for n in axnames]
    vs = []
    for n in names:
        dims = tuple(rng.sample(axnames, rng.randint(0, min(3, len(axnames)))))
        shape = [next(s for a, s, _ in axes if a == d) for d in dims]
        x = numpy.array([rng.randrange(-1000, 1000) for _ in range(int(numpy.prod(shape)) if shape else 1)],
                        dtype=rng.choice(DTYPES)).reshape(shape)
        if x.dtype.kind == 'f':
            x = x / numpy.array(8, dtype=x.dtype)
        vs.append((n, rng.choice(UNITS), rng.choice(['unit', 'units']), dims, x))
    return vs, axes


def files(check, folder):
    rng = check.rng
    known = check.evaluate('ViewCases', [{'k': 'known'}])[0]['known']
    known = [sorted(g) for g in known]
    everything = sorted({n for g in known for n in g})
    worlds, cases = [], []
    for _ in range(check.pick(60, 900)):
        vs, axes = random_file(check, known)
        own = sorted({n for v in vs for g in known if v[0] in g for n in g} | {v[0] for v in vs})
        probe = own + sorted({n for a in axes for g in known if a[0] in g for n in g} | {a[0] for a in axes})
        probe += rng.sample(everything, 12) + ['', 'FOO', 'nope']
        probe = list(dict.fromkeys(probe))
        worlds.append((vs, axes, probe))
        cases.append({'k': 'file', 'vars': [{'name': v[0], 'unit': v[1] or '', 'dims': list(v[3])} for v in vs],
                      'axes': [{'name': n, 'size': s} for n, s, _ in axes], 'probe': probe})
    verdicts = check.evaluate('ViewCases', cases)
    for j, ((vs, axes, probe), case, want) in enumerate(zip(worlds, cases, verdicts)):
        if not want['plain']:
            continue
        path = folder / f'file{j}.nc'
        make_file(path, vs, axes)
        axes = [(n, 0 if u and not any(n in v[3] for v in vs) else s, u) for n, s, u in axes]
        h = datafile.Interface(path)
        shows(check, h, vs, axes, probe, case, want)
        quantities(check, h, vs, probe, case, want)
        if j % 10 == 0:
            gc.collect()
        path.unlink()
        check.validated += 1
        check.count('files')


def shows(check, h, vs, axes, probe, case, want):
    clause = 'a view shows the file by every alias and nothing else'
    small = json.dumps(case)[:400]
    for n, k in zip(probe, want['vars']):
        tag, v = core.outcome(lambda: h.variables[n])
        if (n in h.variables) != (k > 0) or (tag == 'ok') != (k > 0):
            check.violation(clause, f'variable {n!r}: {tag} {v} in {small}', case=case)
            continue
        if k == 0:
            if v != 'KeyError':
                check.violation(clause, f'variable {n!r}: raised {v}', case=case)
            continue
        name, unit, _, dims, x = vs[k - 1]
        got = numpy.asarray(v.data[...])
        if v.name != name or v.unit != unit or tuple(v.dimensions) != dims:
            check.violation(clause, f'variable {n!r} is {v!r}, expected {name} {unit} {dims} in {small}', case=case)
        elif got.shape != x.shape or got.dtype != x.dtype or not numpy.array_equal(got, x):
            check.violation(clause, f'variable {n!r} has values {got}, expected {x}', case=case)
        tag, u = core.outcome(lambda: h.units[n])
        if tag != 'ok' or u != unit:
            check.violation(clause, f'unit of {n!r} is {u!r}, expected {unit!r} in {small}', case=case)
    for n, k in zip(probe, want['axes']):
        tag, a = core.outcome(lambda: h.axes[n])
        if (n in h.axes) != (k > 0) or (tag == 'ok') != (k > 0):
            check.violation(clause, f'axis {n!r}: {tag} {a} in {small}', case=case)
        elif k and (a.name, a.size) != axes[k - 1][:2]:
            check.violation(clause, f'axis {n!r} is {a}, expected {axes[k - 1]} in {small}', case=case)
    for key, groups, items in ((('variable', 'variables'), want['groups'], vs),
                               (('axis', 'axes', 'dimension', 'dimensions'), want['axisgroups'], axes)):
        a = h.available(check.rng.choice(key))
        if sorted(a.canonical) != sorted(i[0] for i in items):
            check.violation(clause, f'{key[0]} names {a.canonical} in {small}', case=case)
        if sorted(a.full) != sorted(n for g in groups for n in g):
            check.violation(clause, f'{key[0]} names and aliases {a.full} in {small}', case=case)
        if sorted(sorted(g) for g in a.grouped) != sorted(sorted(g) for g in groups):
            check.violation(clause, f'{key[0]} groups {a.grouped} in {small}', case=case)


SYSTEM_UNITS = {'m': ('m', 'cm'), 'km/s': ('m/s', 'cm/s'), 'cm^-3': ('m^-3', 'cm^-3'), '1': ('1', '1'), None: ('1', '1'),
                's^3/km^6': ('s^3/m^6', 's^3/cm^6'), 'g': ('kg', 'g'), 'MHz': ('Hz', 'Hz')}


def quantities(check, h, vs, probe, case, want):
    """The variables of a view as array quantities."""
    clause = 'variables are available as quantities with the values, unit and axes of the file'
    rng = check.rng
    for system in (None, 'mks', 'cgs'):
        kind = rng.choice([variable.Interface, eprem.Variables])
        tag, q = core.outcome(kind, h, **({} if system is None else {'system': system}))
        if tag != 'ok':
            check.violation(clause, f'{kind.__name__}(view, {system}) raised {q}', case=case)
            continue
        for n, k in zip(probe, want['vars']):
            if k and want['tens'][k - 1]['mks'] == 'none' or rng.random() < 0.5:
                continue
            tag, v = core.outcome(lambda: q[n])
            if k == 0:
                if tag == 'ok' or n in q:
                    check.violation(clause, f'{n!r} is not in the file but gives {v!r}', case=case)
                continue
            name, unit, _, dims, x = vs[k - 1]
            if kind is eprem.Variables and name in ('mass', 'm') and unit != 'g':
                continue  # a simulation gives masses in a unit of mass
            if tag != 'ok' or n not in q:
                check.violation(clause, f'{n!r} raised {v} in {json.dumps(case)[:300]}', case=case)
                continue
            factor = 10.0 ** want['tens'][k - 1][system] if system else 1.0
            expected = unit or '1' if system is None else SYSTEM_UNITS[unit][system == 'cgs']
            got = numpy.array(v)
            if list(v.dimensions) != list(dims) or not (v.unit == expected):
                check.violation(clause, f'{n!r} [{kind.__name__}, {system}] has axes {v.dimensions} and unit {v.unit}, expected {dims} {expected}', case=case)
            elif got.shape != x.shape or not numpy.allclose(got, factor * x.astype(float), rtol=2e-6 if x.dtype.itemsize == 4 and x.dtype.kind == 'f' else 1e-9, atol=0):
                check.violation(clause, f'{n!r} [{kind.__name__}, {system}] has values {got}, expected {factor * x}', case=case)
            check.count('quantities')


def searches(check, folder):
    rng = check.rng
    names = ['a.txt', 'b.txt', 'obs0.nc', 'c']
    cases, trees = [], []
    for j in range(check.pick(60, 600)):
        root = folder / f's{j}'
        root.mkdir()
        dirs = []
        for k in range(rng.randint(1, 4)):
            d = root / f'd{k}'
            have = rng.sample(names, rng.randint(0, 3))
            if rng.random() < 0.15:
                d.write_text('a file, not a directory')
                have = []
            else:
                d.mkdir()
                for n in have:
                    (d / n).write_text(n)
            dirs.append((d, have))
        order = [rng.choice(dirs) for _ in range(rng.randint(1, 4))]
        if rng.random() < 0.6:
            name = rng.choice(names)
            cases.append({'k': 'search', 'dirs': [h for _, h in order], 'name': name})
            trees.append((root, order, name))
        else:
            stem = rng.choice(['a', 'b', 'c', 'obs0'])
            temps = rng.sample(['{}.txt', '{}.nc', '{}', 'x{}'], rng.randint(1, 4))
            d, have = order[0]
            if d.is_file():
                continue
            cases.append({'k': 'template', 'names': [t.format(stem) for t in temps], 'have': have})
            trees.append((root, (d, temps), stem))
    verdicts = check.evaluate('ViewCases', cases)
    clause = 'a file is found in the first place that has it'
    for (root, where, name), case, want in zip(trees, cases, verdicts):
        if case['k'] == 'search':
            paths = [str(d) if rng.random() < 0.5 else d for d, _ in where]
            tag, got = core.outcome(iotools.search, paths, name)
            expected = where[want['at'] - 1][0] / name if want['at'] else None
        else:
            d, temps = where
            tag, got = core.outcome(iotools.find_file_by_template, [t.format for t in temps], name, directory=d)
            expected = d / case['names'][want['at'] - 1] if want['at'] else None
        if tag != 'ok' or (got is None) != (expected is None) or (got is not None and str(got) != str(expected)):
            check.violation(clause, f'{case}: {tag} {got}, expected {expected}', case=case)
        check.count('searches')
    check.validated += len(cases)


def run(check):
    check.assumptions += [
        'No two variables (or axes) of one file have names that are aliases of each other.',
        'Removing, renaming or changing permissions of a path is not writing and is not judged.',
        'Each file is opened while its content does not change.',
    ]
    folder = pathlib.Path(tempfile.mkdtemp(dir=check.tmp)).resolve()
    histories(check)
    files(check, folder)
    searches(check, folder)
