"""Simulation output for EPREM observers: generated datasets and observers."""
import pathlib

import netCDF4
import numpy

AXES = ('time', 'shell', 'species', 'energy', 'mu')
# name in the file: (axes, unit in the file)
STORED = {
    'preEruption': ((), 'julian date'),
    'phiOffset': (('time',), 'julian date'),
    'time': (('time',), 'julian date'),
    'shell': (('shell',), 'shell'),
    'mu': (('mu',), 'cos(mu)'),
    'mass': (('species',), 'nucleon'),
    'charge': (('species',), 'e-'),
    'egrid': (('species', 'energy'), 'MeV'),
    'vgrid': (('species', 'energy'), 'km/s'),
    'R': (('time', 'shell'), 'au'),
    'T': (('time', 'shell'), 'rad'),
    'P': (('time', 'shell'), 'rad'),
    'Br': (('time', 'shell'), 'nT'),
    'Bt': (('time', 'shell'), 'nT'),
    'Bp': (('time', 'shell'), 'nT'),
    'Vr': (('time', 'shell'), 'km/s'),
    'Vt': (('time', 'shell'), 'km/s'),
    'Vp': (('time', 'shell'), 'km/s'),
    'Rho': (('time', 'shell'), 'cm^-3'),
    'Dist': (('time', 'shell', 'species', 'energy', 'mu'), 's^3/km^6'),
}
SPECIES = [(1.0, 1.0, 'H+'), (4.0, 2.0, 'He++'), (4.0, 1.0, 'He+'), (16.0, 6.0, 'O++++++'), (12.0, 5.0, 'C+++++')]


def make_values(rng, sizes, species):
    """Numbers for every stored variable, in the units of the file."""
    n = numpy.random.RandomState(rng.randrange(2**31))
    T, S, P, E, M = (sizes[a] for a in AXES)

    def grid(lo, hi, size):
        steps = n.uniform(0.5, 1.5, size)
        x = numpy.cumsum(steps)
        return lo + (hi - lo) * (x - x[0]) / max(x[-1] - x[0], 1.0)
    out = {}
    out['preEruption'] = numpy.array(n.uniform(0, 1))
    out['phiOffset'] = n.uniform(0, 1, T)
    out['time'] = grid(0.1, 2.5, T)
    out['shell'] = numpy.arange(S, dtype=float)
    out['mu'] = numpy.linspace(-1.0, 1.0, M) if M > 1 else numpy.array([0.25])
    out['mass'] = numpy.array([SPECIES[k][0] for k in species])
    out['charge'] = numpy.array([SPECIES[k][1] for k in species])
    out['egrid'] = numpy.array([grid(0.1 * f, 100.0 * f, E) for f in n.uniform(0.8, 1.6, P)])
    out['vgrid'] = numpy.array([grid(4e3, 1.2e5, E) for _ in range(P)]) * n.uniform(0.9, 1.1, (P, 1))
    out['R'] = numpy.array([grid(0.05, 1.2, S) for _ in range(T)]) * n.uniform(0.9, 1.1, (T, 1))
    out['T'] = n.uniform(0.3, 2.8, (T, S))
    out['P'] = n.uniform(0.1, 6.0, (T, S))
    for k in ('Br', 'Bt', 'Bp'):
        out[k] = n.uniform(-8, 8, (T, S))
    for k in ('Vr', 'Vt', 'Vp'):
        out[k] = n.uniform(-400, 700, (T, S))
    out['Rho'] = n.uniform(1, 900, (T, S))
    out['Dist'] = n.uniform(1, 9, (T, S, P, E, M)) * 1e-2
    return {k: numpy.asarray(v, dtype='f8') for k, v in out.items()}


def write(path, sizes, data, dtype='f8'):
    with netCDF4.Dataset(str(path), 'w') as d:
        for a in AXES:
            d.createDimension(a, None if a == 'time' else sizes[a])
        for name, (axes, unit) in STORED.items():
            v = d.createVariable(name, dtype, axes)
            setattr(v, 'unit' if name in ('Vr', 'flux', 'mass') else 'units', unit)
            v[...] = data[name]
