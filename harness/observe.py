"""Observations of generated simulation output, compared with the terms that
the specification (Observe.tla, Formulas.tla) gives for them."""
import fractions
import math
import re

import numpy

import core
import streams
from goats import eprem
from goats.core import physical

# the names of every quantity of the specification (AliasTable.tla lists them)
ALIASES = {
    'time': ['t', 'time', 'times'], 'shell': ['shell', 'shells'],
    'mu': ['mu', 'mus', 'pitch angle', 'pitch-angle', 'pitch-angle cosines'],
    'mass': ['m', 'mass'], 'charge': ['charge', 'q'],
    'egrid': ['E', 'egrid', 'energies', 'energy'], 'vgrid': ['speed', 'vgrid', 'vparticle'],
    'R': ['R', 'r', 'radius'], 'T': ['T', 'theta'], 'P': ['P', 'phi'],
    'Br': ['Br', 'br'], 'Bt': ['Bt', 'Btheta', 'bt', 'btheta'], 'Bp': ['Bp', 'Bphi', 'bp', 'bphi'],
    'Vr': ['Vr', 'vr'], 'Vt': ['Vt', 'Vtheta', 'vt', 'vtheta'], 'Vp': ['Vp', 'Vphi', 'vp', 'vphi'],
    'Rho': ['Rho', 'rho'], 'Dist': ['Dist', 'dist', 'f'],
    'x': ['X', 'x'], 'y': ['Y', 'y'], 'z': ['Z', 'z'],
    'bmag': ['B', 'b mag', 'b_mag', 'bmag', '|B|'], 'vmag': ['V', 'v', 'v mag', 'v_mag', 'vmag', '|V|', '|v|'],
    'bv': ['BV', 'bv', 'bv_mag', '|BV|', '|bv|'], 'angle': ['angle', 'flow angle', 'flow_angle'],
    'vpara': ['Vpara', 'v_para', 'vpara'], 'vperp': ['Vperp', 'v_perp', 'vperp'],
    'divv': ['div V', 'div v', 'div(V)', 'div(v)', 'divV', 'div_v', 'divv'],
    'ratio': ['density ratio', 'density_ratio', 'n2/n1', 'n_2/n_1'], 'rigidity': ['R_g', 'Rg', 'rigidity'],
    'mfp': ['mean free path', 'mean_free_path', 'mfp'], 'rate': ['acceleration rate', 'acceleration_rate'],
    'edensity': ['energy density', 'energy_density'], 'eaverage': ['average energy', 'average_energy'],
    'isodist': ['isodist', 'isotropic distribution', 'isotropic_distribution'],
    'flux': ['Flux', 'J', 'J(E)', 'flux', 'j', 'j(E)'], 'fluence': ['fluence'],
    'intflux': ['integral flux', 'integral_flux'],
}
STORED = ['time', 'shell', 'mu', 'mass', 'charge', 'egrid', 'vgrid', 'R', 'T', 'P', 'Br', 'Bt', 'Bp',
          'Vr', 'Vt', 'Vp', 'Rho', 'Dist']
DERIVED = [q for q in ALIASES if q not in STORED]
AXIS = {'time': 'time', 'shell': 'shell', 'species': 'species', 'energy': 'egrid', 'mu': 'mu', 'radius': 'R'}
AXIS_KEYS = {'species': ['species']}
# parameter: (aliases, unit factor, unit, default)
PARAMS = {
    'lambda0': (['lamo', 'lam0', 'lambda0'], 'au', 1.0),
    'mfp_radial_power': (['mfpRadialPower', 'mfp_radial_power'], '1', 2.0),
    'rigidity_power': (['rigidityPower', 'rigidity_power'], '1', 1 / 3),
    'kper_kpar': (['kperxkpar', 'kper_kpar'], '1', 0.01),
    'minimum_energy': (['minimum_energy', 'minimum energy', 'Emin'], 'MeV', 0.0),
}
FILE_KEY = {'lambda0': 'lamo', 'mfp_radial_power': 'mfpRadialPower', 'rigidity_power': 'rigidityPower', 'kper_kpar': 'kperxkpar'}


def convert(a, b):
    return float(physical.Scalar(1.0, unit=a)[b])


class SI:
    """SI values and dimensions of the unit symbols that may appear."""

    def __init__(self):
        self.au = convert('au', 'm')
        self.MeV = convert('MeV', 'J')
        self.e = convert('e', 'C')
        self.nuc = convert('nucleon', 'kg')
        self.statC = convert('statC', 'C')
        D = lambda l=0, m=0, t=0, q=0, r=0, s=0: {'l': l, 'm': m, 't': t, 'q': q, 'r': r, 's': s}
        self.table = {
            '1': (1.0, D()), 'm': (1.0, D(l=1)), 'cm': (1e-2, D(l=1)), 'km': (1e3, D(l=1)), 'au': (self.au, D(l=1)),
            'kg': (1.0, D(m=1)), 'g': (1e-3, D(m=1)), 'nuc': (self.nuc, D(m=1)), 'nucleon': (self.nuc, D(m=1)),
            's': (1.0, D(t=1)), 'min': (60.0, D(t=1)), 'h': (3600.0, D(t=1)), 'hour': (3600.0, D(t=1)), 'd': (86400.0, D(t=1)), 'day': (86400.0, D(t=1)),
            'J': (1.0, D(2, 1, -2)), 'erg': (1e-7, D(2, 1, -2)), 'MeV': (self.MeV, D(2, 1, -2)), 'eV': (self.MeV * 1e-6, D(2, 1, -2)),
            'keV': (self.MeV * 1e-3, D(2, 1, -2)), 'GeV': (self.MeV * 1e3, D(2, 1, -2)), 'MJ': (1e6, D(2, 1, -2)),
            'T': (1.0, D(0, 1, -1, -1)), 'nT': (1e-9, D(0, 1, -1, -1)), 'uT': (1e-6, D(0, 1, -1, -1)), 'G': (1e-4, D(0, 1, -1, -1)),
            'C': (1.0, D(q=1)), 'e': (self.e, D(q=1)), 'statC': (self.statC, D(q=1)), 'A': (1.0, D(t=-1, q=1)),
            'rad': (1.0, D(r=1)), 'deg': (math.pi / 180, D(r=1)), 'sr': (1.0, D(s=1)),
        }

    def parse(self, text):
        """(factor, dimensions) of a unit written as a product of powers."""
        factor, dims = 1.0, {k: fractions.Fraction(0) for k in 'lmtqrs'}
        for part in str(text).split():
            m = re.fullmatch(r'([A-Za-z1]+)(?:\^(-?\d+(?:/\d+)?))?', part)
            if not m or m.group(1) not in self.table:
                raise KeyError(part)
            e = fractions.Fraction(m.group(2) or 1)
            f, d = self.table[m.group(1)]
            factor *= f ** float(e)
            for k in dims:
                dims[k] += e * d[k]
        return factor, dims


class Data:
    """One generated dataset: coordinates on integer grids, random values."""

    STEP = {'time': 0.01, 'mu': 0.001, 'energy': 0.01, 'radius': 0.001}   # day, 1, MeV, au

    def __init__(self, rng, sizes, species, si, grids=None, origin=0):
        self.sizes = dict(sizes, species=len(species))
        self.symbols = [streams.SPECIES[k][2] for k in species]
        self.values = streams.make_values(rng, self.sizes, species)
        N = self.sizes

        def grid(lo, hi, n):
            return sorted(rng.sample(range(lo, hi), n))
        self.time = grid(5, 900, N['time'])
        self.mu = grid(-999, 1000, N['mu'])
        self.energy = [grid(20, 9000, N['energy']) for _ in species]
        if rng.random() < 0.3:
            self.energy = [list(self.energy[0]) for _ in species]
        base = grid(100, 1300, N['shell'])
        self.radius = []
        for _ in range(N['time']):
            shift = rng.randrange(-60, 60)
            row = sorted(set(max(1, b + shift + rng.randrange(-9, 10)) for b in base))
            while len(row) < N['shell']:
                row.append(row[-1] + rng.randrange(3, 50))
            self.radius.append(row)
        if grids:
            self.time, self.mu, self.energy, self.radius = (grids[k] for k in ('time', 'mu', 'energy', 'radius'))
        v = self.values
        for t in range(N['time']):           # flow along the field, either way, here and there
            for i in range(N['shell']):
                if rng.random() < 0.1:
                    f = rng.choice([-40.0, 7.5, 33.3])
                    for b, c in zip(('Br', 'Bt', 'Bp'), ('Vr', 'Vt', 'Vp')):
                        v[c][t, i] = f * v[b][t, i]
        # times may count from long ago, as Julian dates do: the numbers of the
        # model count from the origin, which makes no difference to it
        self.origin = {'time': origin}
        self.slack = 1e-6 if origin else 0.0
        v['time'] = (numpy.array(self.time) + origin) * self.STEP['time']
        v['mu'] = numpy.array(self.mu) * self.STEP['mu']
        v['egrid'] = numpy.array(self.energy) * self.STEP['energy']
        v['R'] = numpy.array(self.radius) * self.STEP['radius']
        file_si = {'time': 86400.0, 'shell': 1.0, 'mu': 1.0, 'mass': si.nuc, 'charge': si.e, 'egrid': si.MeV, 'vgrid': 1e3,
                   'R': si.au, 'T': 1.0, 'P': 1.0, 'Br': 1e-9, 'Bt': 1e-9, 'Bp': 1e-9, 'Vr': 1e3, 'Vt': 1e3, 'Vp': 1e3,
                   'Rho': 1e6, 'Dist': 1e-18}
        self.si = {k: v[k] * f for k, f in file_si.items()}
        self.step_si = {'time': 864.0, 'mu': 0.001, 'energy': 0.01 * si.MeV, 'radius': 0.001 * si.au}

    def coordinate(self, axis, t):
        """The SI value of an integer coordinate of the model."""
        return (t + self.origin.get(axis, 0)) * self.step_si[axis]

    def spec(self):
        return {'N': {a: self.sizes[a] for a in streams.AXES}, 'time': self.time, 'mu': self.mu,
                'energy': self.energy, 'radius': self.radius}

    def grid(self, axis, species=0):
        return {'time': self.time, 'mu': self.mu, 'energy': self.energy[species]}[axis]


class Evaluator:
    """Numbers for the specification's terms, with error bounds."""
    U = 3e-13

    def __init__(self, data, params, constants):
        self.data, self.params, self.constants = data, params, constants

    def __call__(self, t):
        U = self.U
        k = t[0]
        if k == 'a':
            x = float(self.data.si[t[1]][tuple(i - 1 for i in t[2])])
            return x, abs(x) * U
        if k == 'n':
            return t[1] / t[2], 0.0
        if k == 'p':
            x = self.params[t[1]]
            return x, abs(x) * U
        if k == 'k':
            x = self.constants[t[1]]
            return x, abs(x) * U
        if k == '+':
            vs = [self(i) for i in t[1]]
            x = math.fsum(v for v, _ in vs)
            return x, sum(e for _, e in vs) + U * sum(abs(v) for v, _ in vs)
        if k == '*':
            x, r = 1.0, 0.0
            for i in t[1]:
                v, e = self(i)
                x, r = x * v, r * abs(v) + e * abs(x) + e * r
            return x, r + abs(x) * U
        if k == '/':
            (a, ea), (b, eb) = self(t[1]), self(t[2])
            if not eb < 0.01 * abs(b):
                return math.nan, math.inf       # the divisor may be zero
            x = a / b
            return x, (ea + abs(x) * eb) / abs(b) + abs(x) * U
        if k == '^':
            (a, ea), (b, eb) = self(t[1]), self(t[2])
            x = float(numpy.power(a, b)) if (a >= 0 or float(b).is_integer()) else float('nan')
            if not ea < 0.01 * abs(a) and ea > 0:
                return math.nan, math.inf
            if a == 0:
                return x, ea
            return x, abs(x) * (abs(b) * ea / abs(a) + abs(math.log(abs(a))) * eb + U)
        if k == 'f':
            a, e = self(t[2])
            f = t[1]
            if f == 'sqrt':
                if a <= 0:
                    return 0.0, math.sqrt(abs(a) + e)
                x = math.sqrt(a)
                return x, min(e / x, math.sqrt(e)) + x * U
            if f == 'sin':
                return math.sin(a), e + U
            if f == 'cos':
                return math.cos(a), e + U
            if f == 'abs':
                return abs(a), e
            if f == 'log':
                return math.log(a), e / abs(a) + U
            if f == 'arccos':
                a = max(-1.0, min(1.0, a))
                d = math.sqrt(max(1 - a * a, 0.0))
                return math.acos(a), (e + U) / max(d, math.sqrt(e + U))
        raise core.MachineryError(f'unknown term {t!r}')


ALL = {'k': 'all'}


class Maker:
    """Random requests, in the specification's terms and as real arguments."""

    UNITS = {'time': [('s', 1.0), ('day', 86400.0), ('hour', 3600.0), ('min', 60.0)],
             'energy': None, 'radius': None, 'mu': [('1', 1.0)]}

    def __init__(self, rng, si):
        self.rng, self.si = rng, si
        self.UNITS = dict(self.UNITS)
        self.UNITS['energy'] = [('MeV', si.MeV), ('J', 1.0), ('keV', si.MeV * 1e-3), ('erg', 1e-7), ('GeV', si.MeV * 1e3)]
        self.UNITS['radius'] = [('au', si.au), ('m', 1.0), ('km', 1e3), ('cm', 1e-2)]

    def key(self, axis):
        return self.rng.choice(AXIS_KEYS.get(axis) or ALIASES[AXIS[axis]])

    def positions(self, axis, data):
        """An 'at' constraint and an equivalent argument."""
        rng, n = self.rng, data.sizes[axis]
        form = rng.choice(['int', 'list', 'tuple', 'range', 'slice', 'array', 'negative', 'numpy'])
        if form == 'int':
            i = rng.randrange(n)
            return [i], i
        if form == 'numpy':
            i = rng.randrange(n)
            return [i], numpy.int64(i)
        if form == 'negative':
            at = [rng.randrange(-n, 0)] if rng.random() < 0.5 else [rng.randrange(-n, n) for _ in range(2)]
            return at, at[0] if len(at) == 1 else list(at)
        if form in ('range', 'slice'):
            a = rng.randrange(n)
            b = rng.randrange(a, n) + 1
            if form == 'range':
                return list(range(a, b)), range(a, b)
            return list(range(a, b)), slice(a, b) if rng.random() < 0.7 else slice(a, b, 1)
        at = [rng.randrange(n) for _ in range(rng.choice([1, 2, 3]))]
        return at, {'list': list, 'tuple': tuple, 'array': numpy.array}[form](at)

    def targets(self, axis, data, count=None, species=None):
        """A 'val' constraint and an equivalent argument."""
        rng = self.rng
        if axis == 'radius':
            lo, hi = max(r[0] for r in data.radius), min(r[-1] for r in data.radius)
            grids = data.radius
        elif axis == 'energy':
            grids = data.energy
            lo, hi = max(g[0] for g in grids), min(g[-1] for g in grids)
        else:
            grids = [data.grid(axis)]
            lo, hi = grids[0][0], grids[0][-1]
        if hi <= lo:
            return None
        ts = []
        for _ in range(count or rng.choice([1, 1, 2, 3])):
            if rng.random() < 0.3:
                inside = [x for g in grids for x in g if lo <= x <= hi]
                ts.append(rng.choice(inside) if inside else rng.randrange(lo, hi + 1))
            else:
                ts.append(rng.randrange(lo, hi + 1))
        # a rounding error may put a converted end point outside the grid, which
        # only matters where something is interpolated
        alone = len(ts) == 1 and len(grids) == 1
        ts = [t for t in ts if t != 0 and (alone or lo < t < hi)]
        if not ts:
            return None
        unit, f = rng.choice(self.UNITS[axis])
        vs = [data.coordinate(axis, t) / f for t in ts]
        if axis == 'mu':
            vs = [t * data.STEP['mu'] for t in ts]
        return ts, self.dress(vs, unit, axis)

    def dress(self, vs, unit, axis):
        rng = self.rng
        if axis == 'mu' and rng.random() < 0.6:
            if len(vs) == 1 and rng.random() < 0.5:
                return vs[0]
            return rng.choice([list, tuple, numpy.array])(vs)
        if len(vs) == 1:
            return rng.choice([lambda: (vs[0], unit), lambda: [vs[0], unit], lambda: physical.Scalar(vs[0], unit=unit)])()
        forms = [lambda: [*vs, unit], lambda: (*vs, unit), lambda: [(v, unit) for v in vs]]
        if axis != 'radius':
            forms += [lambda: physical.Vector(vs, unit=unit), lambda: physical.Array(vs, unit=unit)]
        return rng.choice(forms)()

    def species(self, data):
        rng, n = self.rng, data.sizes['species']
        at = [rng.randrange(n)] if rng.random() < 0.6 else [rng.randrange(n) for _ in range(2)]
        args = [data.symbols[i] if rng.random() < 0.5 and data.symbols.index(data.symbols[i]) == i else i for i in at]
        return at, args[0] if len(args) == 1 and rng.random() < 0.7 else args

    def realize(self, r, data):
        """Keyword arguments for a request of the specification."""
        rng, kw = self.rng, {}
        for a in ('time', 'shell', 'species', 'energy', 'mu', 'radius'):
            c = r[a]
            if c['k'] == 'at':
                at = c['at']
                if a == 'species':
                    arg = [data.symbols[i] if rng.random() < 0.5 and i >= 0 else i for i in at]
                else:
                    arg = rng.choice([list, tuple, numpy.array])(at)
                if len(at) == 1 and rng.random() < 0.5:
                    arg = arg[0]
                kw[self.key(a)] = arg
            elif c['k'] == 'val':
                unit, f = rng.choice(self.UNITS[a])
                kw[self.key(a)] = self.dress([data.coordinate(a, t) / f for t in c['ts']], unit, a)
        if r['m']:
            unit, f = rng.choice(self.UNITS['energy'])
            kw[rng.choice(PARAMS['minimum_energy'][0])] = (r['m'] * data.step_si['energy'] / f, unit)
        return kw

    def request(self, data, what, axes=None, density=0.5, radial=0.25):
        """(request record, keyword arguments)."""
        rng = self.rng
        r = {a: dict(ALL) for a in ('time', 'shell', 'species', 'energy', 'mu', 'radius')}
        kw = {}
        for a in ('time', 'shell', 'species', 'energy', 'mu'):
            if rng.random() >= density:
                continue
            if a == 'species':
                at, arg = self.species(data)
                r[a] = {'k': 'at', 'at': at}
            elif a != 'shell' and rng.random() < 0.55:
                got = self.targets(a, data)
                if got is None:
                    continue
                r[a], arg = {'k': 'val', 'ts': got[0]}, got[1]
            else:
                at, arg = self.positions(a, data)
                r[a] = {'k': 'at', 'at': at}
            kw[self.key(a)] = arg
        if r['shell']['k'] == 'all' and rng.random() < radial:
            got = self.targets('radius', data, count=1)
            if got is not None:
                r['radius'] = {'k': 'val', 'ts': got[0]}
                kw[self.key('radius')] = got[1]
        r['what'] = [{'q': q, 'e': list(e)} for q, e in what]
        r['m'] = 0
        return r, kw

    def parameters(self, base, want, data, density=0.4):
        """Constrain run parameters: (SI values in force, keyword arguments)."""
        rng = self.rng
        values, kw = dict(base), {}
        for p in sorted(want):
            if rng.random() >= density:
                continue
            key = rng.choice(PARAMS[p][0])
            if p == 'lambda0':
                x = rng.uniform(0.02, 3.0)
                unit, f = rng.choice(self.UNITS['radius'])
                kw[key] = (x * self.si.au / f, unit)
                values[p] = x * self.si.au
            elif p == 'minimum_energy':
                hi = min(g[-1] for g in data.energy) - 1
                lo = max(1, min(g[0] for g in data.energy) - 30)
                if hi <= lo:
                    continue
                m = rng.randrange(lo, hi)
                unit, f = rng.choice(self.UNITS['energy'])
                kw[key] = (m * data.step_si['energy'] / f, unit)
                values[p] = m * data.step_si['energy']
                values['_m'] = m
            else:
                x = round(rng.uniform(0.0, 2.5), 3)
                kw[key] = rng.choice([x, (x, '1'), physical.Scalar(x)])
                values[p] = x
        return values, kw


def positions(rng, n):
    return [{a: rng.randrange(10000) for a in (*streams.AXES, 'minimum energy')} for _ in range(n)]


class World:
    """Datasets on disk, observers, and the comparison."""

    def __init__(self, check):
        self.check = check
        self.rng = check.rng
        self.si = SI()
        self.maker = Maker(check.rng, self.si)
        self.bags = {}
        mks = physical.Constants('mks')
        self.constants = {'c': float(mks['c']), 'mp': float(mks['mp']), 'au': self.si.au, 'MeV': self.si.MeV}
        self.n = 0

    def draw(self, name, menu):
        """Each entry of the menu in turn, in random order."""
        bag = self.bags.setdefault(name, [])
        if not bag:
            bag.extend(menu)
            self.rng.shuffle(bag)
        return bag.pop()

    def dataset(self, sizes=None, species=None, config=None, template='obs{:06}.nc', where=None, grids=None, origin=0):
        rng = self.rng
        if species is None:
            species = rng.sample(range(len(streams.SPECIES)), self.draw('species', [1, 1, 2, 3, 5]))
        if sizes is None:
            sizes = {a: self.draw(a, n) for a, n in
                     (('time', [1, 2, 3, 4, 5, 12]), ('shell', [1, 2, 3, 5, 13]), ('energy', [1, 2, 3, 4, 6, 11]), ('mu', [1, 2, 3, 4, 8]))}
        data = Data(rng, sizes, species, self.si, grids, origin)
        if where is None:
            where = self.check.tmp / f'data{self.n}'
            where.mkdir()
            self.n += 1
        streams.write(where / template.format(0), data.sizes, data.values)
        data.path = where
        if config is None:
            config = self.config()
        data.config = config
        (where / 'eprem_input_file').write_text(self.config_text(config))
        return data

    def config(self, density=0.6):
        rng = self.rng
        out = {}
        for p in FILE_KEY:
            if rng.random() < density:
                out[p] = round(rng.uniform(0.05, 2.5), 4)
        return out

    def config_text(self, config):
        return ''.join(f'{FILE_KEY[p]} = {v}\n' for p, v in config.items()) or 'warningsFile = warnings.xxx\n'

    def params(self, config):
        """Parameter values in force with this configuration, in SI."""
        f = {'au': self.si.au, '1': 1.0, 'MeV': self.si.MeV}
        return {p: config.get(p, d) * f[u] for p, (_, u, d) in PARAMS.items()}

    # -- comparison -------------------------------------------------------
    def compare(self, label, what, data, verdict, params, got, system, exact_order=True, judge_unit=True):
        """Compare a real observation with the specification's."""
        check = self.check
        q = got.data
        dims = list(q.dimensions)
        case = {'request': label}

        def bad(clause, text):
            check.violation(clause, f'{label}: {text}', case=case)
            return False
        if (dims != verdict['axes']) if exact_order else (sorted(dims) != sorted(verdict['axes'])):
            return bad('axes of an observation', f'axes {dims}, expected {verdict["axes"]}')
        extent = dict(zip(verdict['axes'], verdict['shape']))
        arr = numpy.array(q)
        if list(arr.shape) != [extent[a] for a in dims]:
            return bad('shape of an observation', f'shape {list(arr.shape)} over {dims}, expected {extent}')
        try:
            factor, found = self.si.parse(q.unit)
        except KeyError as err:
            return bad('unit of an observation', f'unexpected unit {str(q.unit)!r} ({err})')
        want = {k: fractions.Fraction(*v) for k, v in verdict['dims'].items()}
        if judge_unit and found != want:
            return bad('unit of an observation', f'unit {str(q.unit)!r} has dimensions {found}, expected {want}')
        # a distant origin costs digits of the coordinates
        slack = data.slack * factor * float(numpy.nanmax(numpy.abs(arr))) if data.slack else 0.0
        ev = Evaluator(data, params, self.constants)
        for o, term in zip(verdict['at'], verdict['terms']):
            x, e = ev(term)
            if not math.isfinite(x) or not (x == 0 or 1e-200 < abs(x) < 1e200):
                continue
            y = float(arr[tuple(o[a] - 1 for a in dims)]) * factor
            if not abs(x - y) <= e * 3 + 1e-9 * abs(x) + slack:
                return bad('observed values', f'at {({a: o[a] - 1 for a in dims})} observed {y!r} (SI; unit {q.unit}), the stored data give {x!r}')
            check.count('values')
        return True

    def check_array(self, label, got):
        arr = numpy.array(got.data).squeeze()
        if numpy.shape(got.array) != arr.shape or not numpy.array_equal(got.array, arr, equal_nan=True):
            self.check.violation('the array of an observation is its data without axes of length 1',
                                 f'{label}: shape {numpy.shape(got.array)}')

    def check_reports(self, label, data, verdict, request, got):
        """Reported axis values."""
        check = self.check
        single = verdict['report'].get('species', {'at': [1]})['at'] if 'species' in verdict['report'] else None
        for a, rep in verdict['report'].items():
            if a == 'shell' and request['radius']['k'] == 'val':
                continue
            if rep['k'] == 'at' and a == 'shell' and any(i < 0 for i in request['shell'].get('at', [])):
                continue
            key = a
            tag, x = core.outcome(lambda: got[key])
            if tag == 'err':
                check.violation('an observation reports its axes', f'{label}: [{key!r}] raised {x}')
                continue
            if a == 'species':
                tag, names = core.outcome(lambda: [str(i) for i in numpy.array(x).ravel()])
                want = [data.symbols[i - 1] for i in rep['at']]
                if names != want:
                    check.violation('reported species', f'{label}: {names}, expected {want}')
                continue
            if a == 'energy' and rep['k'] == 'at' and single is not None and len(set(single)) > 1:
                continue     # one grid per species
            p = (single[0] if single else 1) - 1
            if rep['k'] == 'val':
                want = [data.coordinate(a, t) for t in rep['at']]
            elif a == 'shell':
                want = [i - 1 for i in rep['at']]
            else:
                name = {'time': 'time', 'mu': 'mu', 'energy': 'egrid'}[a]
                grid = data.si[name] if a != 'energy' else data.si[name][p]
                want = [grid[i - 1] for i in rep['at']]
            tag, f = core.outcome(lambda: self.si.parse(x.unit)[0])
            if tag == 'err':
                check.violation('reported axis values', f'{label}: [{key!r}] has unit {x.unit}')
                continue
            vals = numpy.array(x, dtype=float).ravel() * f
            if len(vals) != len(want) or not numpy.allclose(vals, want, rtol=1e-9, atol=0):
                check.violation('reported axis values', f'{label}: [{key!r}] = {vals.tolist()} (SI), expected {want}')
            check.count('axis reports')

    def check_params(self, label, verdict, params, got):
        check = self.check
        names = sorted(got.parameters)
        if names != sorted(verdict['params']):
            check.violation('reported parameters', f'{label}: {names}, expected {sorted(verdict["params"])}')
            return
        for p in names:
            x = got[p]
            tag, v = core.outcome(lambda: float(x) * self.si.parse(x.unit)[0])
            if tag == 'err' or not math.isclose(v, params[p], rel_tol=1e-9, abs_tol=1e-300):
                check.violation('reported parameter values', f'{label}: {p} = {x}, expected {params[p]} (SI)')


def describe(name, kw, system):
    return f'{system} observer[{name!r}].observe({", ".join(f"{k!r}={v!r}" for k, v in kw.items())})'


SWAPS = {'m': ['m', 'km', 'cm', 'au'], 'cm': ['m', 'km', 'cm', 'au'], 's': ['s', 'min', 'hour', 'day'],
         'J': ['J', 'MeV', 'erg', 'keV'], 'erg': ['J', 'MeV', 'erg', 'keV'], 'T': ['T', 'nT', 'uT'], 'G': ['G'],
         'kg': ['kg', 'g'], 'g': ['kg', 'g'], 'rad': ['rad', 'deg']}


def other_unit(rng, text):
    """Another unit of the same dimensions."""
    parts = []
    for part in str(text).split():
        m = re.fullmatch(r'([A-Za-z1]+)(\^.*)?', part)
        parts.append(rng.choice(SWAPS.get(m.group(1), [m.group(1)])) + (m.group(2) or ''))
    return ' '.join(parts)


def same_unit(si, a, b):
    try:
        (fa, da), (fb, db) = si.parse(a), si.parse(b)
    except KeyError:
        return False
    return da == db and math.isclose(fa, fb, rel_tol=1e-9)


def check_units(w, s, name, kw, got, label, electric=False):
    """The unit of an observable is that of its observations, and asking for
    another unit before or after observing has the same outcome."""
    check, rng, si = w.check, w.rng, w.si
    o = s[name]
    if not same_unit(si, o.unit, got.unit):
        check.violation('an observable announces the unit of its observations', f'{label}: announced {str(o.unit)!r}, observed {str(got.unit)!r}')
        return
    unit = other_unit(rng, got.unit)
    base = numpy.array(got.data).copy()
    if not 1e-200 < si.parse(unit)[0] < 1e200:
        return
    factor = si.parse(got.unit)[0] / si.parse(unit)[0]
    order = ['before', 'after'] if electric else ['before', 'after', 'system']
    rng.shuffle(order)
    for how in order[:2]:
        if how == 'system':
            system = rng.choice(['mks', 'cgs'])
            tag, new = core.outcome(lambda: s[name][system].observe(**kw))
            f = None
        else:
            if how == 'after':
                got.array, got.unit, repr(got)      # looking first changes nothing
                ask = lambda: got[unit]
            elif rng.random() < 0.5:
                o.observe(**kw)
                ask = lambda: o[unit].observe(**kw)
            else:
                ask = lambda: s[name][unit].observe(**kw)
            tag, new = core.outcome(ask)
            f = factor
        if tag == 'err':
            check.violation('asking for another unit', f'{label}: {unit!r} ({how}) raised {new}')
            continue
        if f is None:
            tag, f = core.outcome(lambda: si.parse(got.unit)[0] / si.parse(new.unit)[0])
            if tag == 'err' or si.parse(got.unit)[1] != si.parse(new.unit)[1]:
                check.violation('asking for the unit of a metric system', f'{label}: {system}: {str(new.unit)!r}')
                continue
        elif not same_unit(si, new.unit, unit):
            check.violation('asking for another unit', f'{label}: asked {unit!r} ({how}), got {str(new.unit)!r}')
            continue
        if not numpy.allclose(numpy.array(new.data), base * f, rtol=1e-9, atol=0, equal_nan=True):
            check.violation('values in another unit', f'{label}: {unit!r} ({how}): {numpy.array(new.data).ravel()[:3]} instead of {(base * f).ravel()[:3]}')
        if list(new.dimensions) != list(got.dimensions):
            check.violation('axes in another unit', f'{label}: {unit!r} ({how}): {list(new.dimensions)}')
        w.check_array(f'{label}: {unit!r} ({how})', new)
        check.count('unit requests')
    if not same_unit(si, o.unit, got.unit):
        check.violation('an observable announces the unit of its observations', f'{label}: announced {str(o.unit)!r} after requests')
    if not numpy.array_equal(base, numpy.array(got.data), equal_nan=True):
        check.violation('asking for another unit leaves an observation alone', label)


GRIDS = {'time': [10, 25, 60], 'mu': [-800, 100, 950], 'energy': [[30, 100, 400, 900], [50, 220, 430, 1200]],
         'radius': [[100, 300, 700], [120, 310, 650], [90, 280, 800]]}     # as in ObserveModel.tla


def table(check, w, cfg, limit=None, name_of=None, exact_order=True, judge_system=None):
    """Replay every request of the exhaustive model on real observers."""
    rng = check.rng
    out = check.tlc('ObserveModel', cfg, heap='8g', timeout=3000)
    seen = {}
    for v in check.emitted(out):
        seen[core.canon(v['r'])] = v
    rows = [seen[k] for k in sorted(seen) if seen[k]['ok']]
    check.count('model requests', len(rows))
    if limit and len(rows) > limit:
        # keep every quantity: sample evenly
        rng.shuffle(rows)
        rows = rows[:limit]
    sizes = {'time': 3, 'shell': 3, 'energy': 4, 'mu': 3}
    worlds = []
    for species, system in (((0, 1), 'mks'), ((3, 2), 'cgs')):
        data = w.dataset(sizes=sizes, species=list(species), grids=GRIDS)
        worlds.append((data, system, eprem.Stream(0, source=data.path, config='eprem_input_file', system=system)))
    for v in rows:
        r = v['r']
        data, system, s = rng.choice(worlds if judge_system is None else [x for x in worlds if x[1] in judge_system(r)])
        kw = w.maker.realize(r, data)
        name = name_of(r) if name_of else rng.choice(ALIASES[r['what'][0]['q']])
        params = dict(w.params(data.config))
        if r['m']:
            params['minimum_energy'] = r['m'] * data.step_si['energy']
        label = describe(name, kw, system)
        tag, got = core.outcome(lambda: s[name].observe(**kw))
        if tag == 'err':
            check.violation('an observation gives an answer', f'{label} raised {got}', case=label)
            continue
        if w.compare(label, None, data, v, params, got, system, exact_order=exact_order):
            w.check_array(label, got)
            w.check_reports(label, data, v, r, got)
            w.check_params(label, v, params, got)
        check.validated += 1
