"""C17: propagation is repeatable and leaves its inputs alone."""
import os
import shutil
import tempfile

import numpy as np
from pynlo.media.fibers.fiber import FiberInstance

from mc import fibers as F
from mc import ssfm as S
from mc.core import same, true, Machine, Violation
from mc.pulses import observe, unchanged
from mc.ref import at_of

LEVEL = 'model_checking'
BOUNDS = ('all sequences of <=3 (thorough: 4) operations from 14 (6 kinds of propagation on each of two simulator objects, switch and method changes, back end change) '
          'and all sequences of <=3 (thorough: 4) changes of an amplifying fiber, the pulse and the output power between runs; with every result compared with an independent solution and every earlier result and input compared bitwise afterwards')

# name: (pulse kind, N, T, wl, P, betas, gamma, gain, L, n, reload)
SPEC = {
    'a': ('sech', 64, 2.5, 1550.0, 15.0, [-0.01, 5e-5], 0.04, 0, 0.5, 1, False),
    'b': ('two', 64, 3.0, 1550.0, 10.0, [0.006], 0.03, 0.8, 0.4, 2, False),
    'c': ('gauss', 32, 3.0, 1300.0, 3.0, [0.02], 0.0, 0, 1.3, 2, False),
    'd': ('sech', 64, 2.5, 1550.0, 15.0, [0.003], 0.06, 0, 0.5, 1, True),
    'e': ('mod', 64, 2.5, 1100.0, 8.0, [-0.01], 0.04, 0, 1e-3, 3, False),
    'f': ('cw', 64, 3.0, 1550.0, 3.0, [-0.01], 0.04, -0.5, 0.6, 1, False),
}
LE = 1e-6
REFS = {}


def reference(name, ram, ss, method):
    key = (name, ram, ss)
    if key not in REFS:
        kind, N, T, wl, P, b, gam, G, L, n, rl = SPEC[name]
        p, g = S.pulse(kind, N, T, wl=wl, P=P)
        beta = np.array(S.fiber(L, b, gam, G, wl).get_betas(p))
        R = S.raman_response(g, 'none' if ram else 'three')
        REFS[key] = S.gnlse(g, S.shape(kind, g, P), L, beta, gam, G, R, not ss, [L * (i + 1) / n for i in range(n)], rtol=1e-8)
    return REFS[key]


class M(Machine):
    def __init__(self, init):
        self.sims = [S.sim(local_error=LE, dz=1e-3), S.sim(local_error=LE, dz=0.1, disable_Raman=True, disable_self_steepening=True)]
        self.conf = [[False, False, 'rk'], [True, True, 'rk']]
        self.kept = []
        self.pulses = {}
        self.fibers = {}

    def ops(self):
        return ([['run', i, k] for i in (0, 1) for k in ('abcdef' if i == 0 else 'abe')]
                + [['raman', 0], ['steep', 0], ['method', 0], ['raman', 1], ['back', 0]])

    def apply(self, op):
        k, i = op[:2]
        s, c = self.sims[i], self.conf[i]
        if k == 'raman':
            c[0] = s.disable_Raman = not c[0]
        elif k == 'steep':
            c[1] = s.disable_self_steepening = not c[1]
        elif k == 'method':
            c[2] = 'ssfm' if c[2] == 'rk' else 'rk'
            s.method = S.SSFM.METHOD_SSFM if c[2] == 'ssfm' else S.SSFM.METHOD_RK4IP
        elif k == 'back':
            if S.HAVE_FFTW:
                S.MOD.PYFFTW_AVAILABLE = not S.MOD.PYFFTW_AVAILABLE
        else:
            self.run(s, c, op[2])

    def run(self, s, c, name):
        kind, N, T, wl, P, b, gam, G, L, n, rl = SPEC[name]
        if name not in self.pulses:
            self.pulses[name] = S.pulse(kind, N, T, wl=wl, P=P)[0]
            self.fibers[name] = S.fiber(L, b, gam, G, wl)
        p, f = self.pulses[name], self.fibers[name]
        ob, fb = observe(p), (f.length, f.gamma, f.get_gamma(), np.array(f.get_betas(p)), np.array(f.get_gain(p)))
        r = s.propagate(p, f, n, reload_fiber_each_step=rl)
        unchanged('input pulse', ob, p)
        fa = (f.length, f.gamma, f.get_gamma(), np.array(f.get_betas(p)), np.array(f.get_gain(p)))
        true('fiber unchanged', all(np.array_equal(x, y) for x, y in zip(fb, fa)))
        want = reference(name, c[0], c[1], c[2])
        tol = 1e-4 if c[2] == 'rk' else 5e-4 if c[0] and c[1] else 3e-3
        for i in range(n):
            same('run %s, output %d' % (name, i), r[2][:, i], want[i], rtol=tol)
        same('run %s, pulse' % name, r[3].AT, want[-1], rtol=tol)
        self.kept.append((r, [np.array(x) for x in r[:3]], observe(r[3])))

    def probe(self):
        for j, (r, arr, ob) in enumerate(self.kept):
            for x, y in zip(r[:3], arr):
                true('result %d still as returned' % j, np.array_equal(x, y))
            unchanged('result %d' % j, ob, r[3])
        # writing into a result disturbs neither simulator nor input
        if self.kept:
            r = self.kept[-1][0]
            for x in r[:3]:
                x[...] = 7.0
            r[3].set_AT(np.zeros(r[3].NPTS, complex) + 3.0)
            # the next run starts from a clean slate whatever came before
            self.kept = self.kept[:-1]
            self.run(self.sims[0], self.conf[0], 'a')
            self.run(self.sims[1], self.conf[1], 'b')


class Amp(Machine):
    """Amplifying fibers, pulses and simulators which are changed between propagations; the same with new objects is the reference."""
    def __init__(self, init):
        self.s = S.sim(local_error=1e-5, dz=1e-2)
        self.conf = {'kind': 'gain', 'L': 0.6, 'gamma': 0.01, 'flat': 0.5, 'W': 5e-11, 'T': 8.0, 'wl': 1548.0, 'frep': 10.0, 'spec': 0, 'P': 0.004}
        self.f = FiberInstance('mydb', SCRATCH)
        self.p = F.pulse(32, 8.0, 1548.0, frep=10.0)[0]
        self.fiber(self.f)
        self.pulse(self.p)

    def fiber(self, f):
        c = self.conf
        if c['kind'] == 'flat':
            f.generate_fiber(c['L'], 1550.0, [-0.01], c['gamma'], gain=c['flat'])
        else:
            f.load_from_db(c['L'], c['kind'])
            f.gamma = c['gamma']

    def pulse(self, p):
        c = self.conf
        p.set_center_wavelength_nm(c['wl'])
        p.set_time_window_ps(c['T'])
        p.set_frep_MHz(c['frep'])
        k = np.arange(32) - 16
        p.set_AW(np.exp(-((k - 2 * c['spec']) / 4.0) ** 2) * np.exp(0.3j * c['spec'] * k))
        p.set_epp(c['W'])

    def ops(self):
        return [['run'], ['kind', 'flat'], ['kind', 'gain_d'], ['L', 1.1], ['flat', -0.4], ['gamma', 0.03], ['W', 9e-11], ['T', 5.0], ['wl', 1540.0], ['frep', 20.0], ['spec', 1], ['P', 0.009]]

    def apply(self, op):
        c = self.conf
        if op[0] == 'run':
            return self.compare()
        c[op[0]] = op[1]
        if op[0] in ('W', 'T', 'wl', 'frep', 'spec'):
            self.pulse(self.p)
        elif op[0] == 'L':
            self.f.length = op[1]
        elif op[0] == 'gamma':
            self.f.gamma = op[1]
        elif op[0] != 'P':
            self.fiber(self.f)

    def compare(self):
        c = self.conf
        f = FiberInstance('mydb', SCRATCH)
        self.fiber(f)
        p = F.pulse(32, 8.0, 1548.0, frep=10.0)[0]
        self.pulse(p)
        want = S.sim(local_error=1e-5, dz=1e-2).propagate(p, f, 1, output_power=c['P'])[3]
        got = self.s.propagate(self.p, self.f, 1, output_power=c['P'])[3]
        same('with new objects', got.AW, want.AW, rtol=1e-3)

    def probe(self):
        self.compare()


SCRATCH = None


def setup():
    global SCRATCH
    SCRATCH = tempfile.mkdtemp(prefix='verif-c17-')
    F.write_db(SCRATCH)


def teardown():
    if SCRATCH:
        shutil.rmtree(SCRATCH, ignore_errors=True)


MACHINES = {'reuse': M, 'amp': Amp}


def machines(tier):
    yield 'reuse', 0, 3 if tier == 'quick' else 4
    yield 'amp', 0, 3 if tier == 'quick' else 4
