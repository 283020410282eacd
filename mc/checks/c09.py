"""C09: propagation constants follow the dispersion data in every format."""
import itertools
import os
import shutil
import tempfile

import numpy as np
from pynlo.media.fibers.fiber import FiberInstance

from mc import fibers as F
from mc.core import Machine, same, true
from mc.pulses import observe, unchanged
from mc.ref import C_NMPS, Grid

LEVEL = 'model_checking'
BOUNDS = ('9 ways to describe a fiber (generated in 2 units, database GVD in 2 units and D, file, function of position in 3 formats) x '
          'every single Taylor order 2..6 with both signs and 4 combinations x 3 expansion centers x 8 grids of 4 to 8192 points x 3 positions; '
          'all sequences of length <=3 (thorough: 4) of queries and replacements of the data on constant and position dependent fibers')
SCRATCH = None
GRIDS = [(4, 1.0, 1550.0), (8, 2.0, 1300.0), (16, 1.5, 1550.0), (64, 3.0, 1064.0), (64, 4.0, 835.0), (128, 10.0, 1600.0),
         (30, 2.0, 1480.0), (8192, 220.0, 1550.0)]
ORD = [1e-2, 1e-4, 1e-6, 2e-9, 3e-12]
PATTERNS = [[s * ORD[k] if i == k else 0.0 for i in range(k + 1)] for k in range(5) for s in (1, -1)]
PATTERNS += [[-0.02, 1e-4, -1e-7], [0.03], [0.0, 0.0], [-0.012, 8e-5, -9e-8, 2e-10, -5e-13]]
WAYS = ['m', 'km', 'db_m', 'db_km', 'db_d', 'file', 'fun_gvd', 'fun_d', 'fun_n']


def setup():
    global SCRATCH
    SCRATCH = tempfile.mkdtemp(prefix='verif-c09-')
    F.write_db(SCRATCH)


def teardown():
    if SCRATCH:
        shutil.rmtree(SCRATCH, ignore_errors=True)


def build(way, betas, wl):
    """-> fiber, spec, relative tolerance."""
    f = FiberInstance('mydb', SCRATCH)
    spec = dict(fmt='GVD', wl=wl, betas=betas)
    if way == 'm':
        f.generate_fiber(1.0, wl, betas, 0.01)
    elif way == 'km':
        f.generate_fiber(1.0, wl, [b * 1e3 for b in betas], 0.01, gvd_units='ps^n/km')
    elif way in ('db_m', 'db_km'):
        name = {'db_m': 'gvd_m', 'db_km': 'gvd_km'}[way]
        k = 1e3 if way == 'db_km' else 1.0
        f.fiberloader.fibers[name]['dispersion_data'] = [b * k for b in betas]
        f.fiberloader.fibers[name]['dispersion_gvd_center_wavelength'] = wl
        f.load_from_db(1.0, name)
    elif way == 'db_d':
        f.fiberloader.fibers['dtab']['dispersion_y_data'] = F.d_table(betas, wl, F.WLS).tolist()
        f.load_from_db(1.0, 'dtab', poly_order=max(len(betas) - 1, 1))
        spec['fmt'] = 'D'
    elif way == 'file':
        path = os.path.join(SCRATCH, 'd%d.csv' % os.getpid())
        F.write_dfile(path, betas, wl)
        f.load_from_file(path, length=1.0, gamma_W_m=0.01, poly_order=max(len(betas) - 1, 1))
        spec['fmt'] = 'D'
    else:
        f.generate_fiber(1.0, wl, [0.5], 0.01)
        scale = (lambda z: [b * (1 + z) for b in betas])
        spec['betas'] = scale
        if way == 'fun_gvd':
            f.set_dispersion_function(scale)
        elif way == 'fun_d':
            f.poly_order = max(len(betas) - 1, 1)
            f.set_dispersion_function(lambda z: (F.WLS, F.d_table(scale(z), wl, F.WLS)), dispersion_format='D')
            spec['fmt'] = 'D'
        else:
            w = np.linspace(600.0, 2600.0, 400)
            f.set_dispersion_function(lambda z: (w, F.n_table(scale(z), wl, w)), dispersion_format='n')
    return f, spec


def tol(way, full, spec, g):
    """Rounding of the index and table formats, relative to the curve."""
    s = max(np.abs(full).max(), 1e-12)
    if way == 'fun_n':
        return 1e-8, max(s, 1e-9 * 6e6 / 1e-8 * 1e-2)
    if way in ('fun_d', 'file', 'db_d'):
        # conditioning of the polynomial fit
        return 1e-5, max(s, 1e-9)
    # value and slope at the center are differences of the full expansion
    return 1e-9, max(s, 1e-12)


def scenarios(tier):
    for way in WAYS:
        for i in range(len(PATTERNS)):
            for wl in (1550.0, 1310.0, 1000.0):
                yield [way, i, wl]
    yield ['dudley']


def run(sc, rec):
    if sc[0] == 'dudley':
        b = [-11.83e-3, 8.1038e-5, -9.5205e-8, 2.0737e-10, -5.3943e-13, 1.3486e-15, -2.5495e-18, 3.0524e-21, -1.714e-24]
        for G in GRIDS:
            f = FiberInstance()
            f.load_from_db(0.15, 'dudley')
            p, g = F.pulse(*G)
            F.check_betas('dudley', f.get_betas(p), F.taylor(b, 835.0, g.W), g, 1e-9)
            same('gamma', f.get_gamma(0.1), 0.11, rtol=1e-12)
            same('length', f.length, 0.15, rtol=1e-12)
            rec.state(f, p)
            rec.step()
        return
    way, i, wl = sc
    betas = PATTERNS[i]
    if way == 'fun_n' and len(betas) > 2:
        # only a cubic beta(omega) is reproduced exactly by the cubic spline of the index format
        return
    for G in GRIDS:
        f, spec = build(way, betas, wl)
        p, g = F.pulse(*G)
        b = observe(p)
        for z in (0.0, 0.37, 1.0):
            full = F.curve(spec, g, z)
            rt, s = tol(way, full, spec, g)
            B = f.get_betas(p, z)
            F.check_betas('beta', B, full, g, rt, s)
            if z == 0:
                F.check_betas('beta at the default position', f.get_betas(p), full, g, rt, s)
                derived(f, p, g, spec, way, rt, s)
            same('again', f.get_betas(p, z=z), B, rtol=1e-12, scale=s)
            unchanged('the pulse', b, p)
            rec.state(f, p, z)
            rec.step()


def derived(f, p, g, spec, way, rt, s):
    betas = spec['betas'](0) if callable(spec['betas']) else spec['betas']
    b2 = F.taylor_d(betas, spec['wl'], g.W, 2)
    dV = g.V[1] - g.V[0]
    b4 = np.abs(F.taylor_d(betas, spec['wl'], g.W, 4)).max()
    got = f.Beta2(p)
    t = rt * np.abs(b2).max() + 0.1 * b4 * dV ** 2 + 8e-16 * s / dV ** 2 * 8
    if way == 'fun_n':
        t = 4e-14 * 1.5e7 / dV ** 2 * 20 + 0.1 * b4 * dV ** 2
    true('Beta2 shape', np.shape(got) == (g.N,))
    same('Beta2', got[1:-1], b2[1:-1], rtol=0, atol=t)
    # the ends have no second difference of their own: nearest one
    b3 = np.abs(F.taylor_d(betas, spec['wl'], g.W, 3)).max()
    same('Beta2 ends', got[[0, -1]], b2[[0, -1]], rtol=0, atol=t + b3 * dV * 1.01)
    same('D', f.Beta2_to_D(p), -2 * np.pi * C_NMPS / g.wl ** 2 * got * 1000, rtol=1e-9)


class M(Machine):
    """Order of queries on one fiber never matters."""
    def __init__(self, init):
        self.way = init
        self.f, self.spec = build(init, [-0.02, 1e-4], 1550.0)
        self.p = [F.pulse(*GRIDS[2]), F.pulse(*GRIDS[6])]

    def ops(self):
        o = [['betas', i, z] for i in (0, 1) for z in (0.0, 0.5, 1.0)]
        return o + [['beta2', 0, 0], ['D', 1, 0], ['gain', 0, 0], ['scribble', 0, 0.5], ['gamma', 0, 0.5], ['regrid', 0, 0], ['nudge', 0, 0], ['widen', 0, 0],
                    ['replace', 0, 1], ['replace', 0, -0.5]]

    def apply(self, op):
        n, i, z = op
        p, g = self.p[i]
        if n == 'betas':
            full = F.curve(self.spec, g, z)
            F.check_betas('beta', self.f.get_betas(p, z), full, g, *tol(self.way, full, self.spec, g))
        elif n == 'beta2':
            self.f.Beta2(p)
        elif n == 'D':
            self.f.Beta2_to_D(p)
        elif n == 'gain':
            same('gain', self.f.get_gain(p), np.zeros(g.N), rtol=1e-12)
        elif n == 'scribble':
            self.f.get_betas(p, z)[:] = 3.5
        elif n == 'gamma':
            same('gamma', self.f.get_gamma(z), {'dtab': 0.002}.get(self.way, 0.01), rtol=1e-12)
        elif n == 'regrid':
            p.set_center_wavelength_nm(1500.0)
            g.f0 = C_NMPS / 1500.0
        elif n == 'nudge':          # hardly another grid
            p.set_center_wavelength_nm(p.center_wavelength_nm + 0.02)
            g.f0 = C_NMPS / p.center_wavelength_nm
        elif n == 'widen':
            g.T *= 1.01
            p.set_time_window_ps(g.T)
        elif n == 'replace':
            # other data for the same fiber
            b = [-0.02 * z, 3e-4 * z]
            scale = lambda x: [v * (1 + 2 * x) for v in b]
            if self.way == 'm':
                self.f.generate_fiber(1.0, 1550.0, b, 0.01)
                scale = b
            elif self.way == 'file':
                path = os.path.join(SCRATCH, 'd%d.csv' % os.getpid())
                F.write_dfile(path, b, 1550.0)
                self.f.load_from_file(path, length=1.0, gamma_W_m=0.01, poly_order=1)
                scale = b
            elif self.way == 'fun_gvd':
                self.f.set_dispersion_function(scale)
            elif self.way == 'fun_d':
                self.f.set_dispersion_function(lambda x: (F.WLS, F.d_table(scale(x), 1550.0, F.WLS)), dispersion_format='D')
            else:
                w = np.linspace(600.0, 2600.0, 400)
                self.f.set_dispersion_function(lambda x: (w, F.n_table(scale(x), 1550.0, w)), dispersion_format='n')
            self.spec['betas'] = scale

    def probe(self):
        for p, g in self.p:
            for z in (0.0, 0.8):
                full = F.curve(self.spec, g, z)
                F.check_betas('beta', self.f.get_betas(p, z), full, g, *tol(self.way, full, self.spec, g))


MACHINES = {'queries': M}


def machines(tier):
    for way in ('m', 'file', 'fun_gvd', 'fun_d', 'fun_n'):
        yield 'queries', way, 3 if tier == 'quick' else 4
