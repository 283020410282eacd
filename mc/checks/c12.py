"""C12: fiber gain is what was specified."""
import itertools
import os
import shutil
import tempfile

import numpy as np
from pynlo.media.fibers.fiber import FiberInstance

from mc import fibers as F
from mc.core import same, true, Machine
from mc.pulses import observe, unchanged
from mc.ref import C, at_of, epp

LEVEL = 'model_checking'
BOUNDS = ('no gain, 5 flat gains (generated and from file) and 2 gain spectra x 6 grids x 3 repetition rates x 3 lengths x 10 output powers (also below the input), tiny and huge pulses; '
          'all sequences of <=3 (thorough: 4) gain queries and reconfigurations of one fiber')
SCRATCH = None
GRIDS = [(16, 1.5, 1550.0), (64, 3.0, 1550.0), (128, 10.0, 1545.0), (64, 20.0, 1555.0), (32, 2.0, 1600.0), (8, 1.0, 1540.0)]


def setup():
    global SCRATCH
    SCRATCH = tempfile.mkdtemp(prefix='verif-c12-')
    F.write_db(SCRATCH)
    F.write_dfile(os.path.join(SCRATCH, 'disp.csv'), [-0.008, 7e-5], 1500.0)


def teardown():
    if SCRATCH:
        shutil.rmtree(SCRATCH, ignore_errors=True)


def shape(name, g):
    wl = g.wl
    if name == 'gain':
        y = np.exp(-((wl - 1548.0) / 18.0) ** 2) + 0.3 * np.exp(-((wl - 1530.0) / 6.0) ** 2)
        return np.where((wl >= 1500) & (wl <= 1600), y, 0), wl, (1500, 1600)
    return np.where((wl >= 1510) & (wl <= 1590), 1.0, 0.0), wl, (1510, 1590)


def check_spectrum(name, G, p, g, L, P):
    G = np.asarray(G)
    true('gain shape', G.shape == (g.N,))
    y, wl, (a, b) = shape(name, g)
    k = G @ y / (y @ y)
    edge = (np.abs(wl - a) < 1e-6) | (np.abs(wl - b) < 1e-6)
    same('tabulated shape', G[~edge], (k * y)[~edge], rtol=0.004, scale=abs(k) * y.max())
    weak = ~edge & (y > 0) & (np.abs(wl - a) > 1.5) & (np.abs(wl - b) > 1.5)
    true('tabulated shape where the gain is small', bool(np.all(np.abs(G - k * y)[weak] <= 0.05 * np.abs(k * y)[weak] + 2e-5 * abs(k) * y.max())))
    true('no gain outside the table', not np.any(np.abs(G[(y == 0) & ~edge]) > 1e-12 * abs(k) * y.max()))
    AT = at_of(g, p.AW * np.exp(G * L / 2))
    same('output power', epp(g, AT) * g.frep * 1e6, P, rtol=2e-3)


def scenarios(tier):
    for gi in range(len(GRIDS)):
        for frep in (100.0, 10.0, 1000.0):
            for L in (0.5, 1.0, 4.0):
                for k in ('none', 'flat', 'file', 'gain', 'gain_d'):
                    yield [k, gi, frep, L, 0.01]
        for W in (1e-10, 1e4):
            for k in ('flat', 'gain', 'gain_d'):
                yield [k, gi, 100.0, 1.0, W]


def mkpulse(gi, frep, W=0.01):
    p, g = F.pulse(*GRIDS[gi], frep=frep)
    p.set_epp(W / (frep * 1e6))      # by default 10 mW
    return p, g


def run(sc, rec):
    kind, gi, frep, L, W = sc
    p, g = mkpulse(gi, frep, W)
    b = observe(p)
    f = FiberInstance('mydb', SCRATCH)
    if kind in ('flat', 'file', 'none'):
        gains = (0, 0.0) if kind == 'none' else (0.3, -0.7, 1, 5.0, 1e-9)
        for G in gains:
            if kind == 'file':
                f.load_from_file(os.path.join(SCRATCH, 'disp.csv'), length=L, gamma_W_m=0.006, gain=G)
            elif kind == 'flat' or G == 0:
                f.generate_fiber(L, 1550.0, [-0.01], 0.01, gain=G)
            for a in ((), (3.0,)):
                r = f.get_gain(p, *a)
                same('gain', r, np.full(g.N, float(G)), rtol=1e-12)
                true('an array the caller may use', isinstance(r, np.ndarray))
                r[:] = 17.0
            same('gain', f.get_gain(p, output_power=0.1), np.full(g.N, float(G)), rtol=1e-12)
            rec.state(f, p)
            rec.step(3)
        if kind == 'none':
            for n in ('gvd_km', 'dtab', 'gvd_m'):
                f.load_from_db(L, n)
                same('gain', f.get_gain(p), np.zeros(g.N), rtol=1e-12)
                rec.state(f, p)
                rec.step()
        unchanged('the pulse', b, p)
        return
    y = shape(kind, g)[0]
    # the share of the pulse outside the gain band cannot be amplified
    S = np.abs(p.AW) ** 2
    lost = S[y == 0].sum() / S.sum()
    for r in (0.1, 0.4, 0.9, 1.0, 1.2, 1.5, 10.0, 100.0, 1000.0, 1e5):
        if r <= lost + 0.05:
            continue
        f.load_from_db(L, kind)
        P = W * r
        check_spectrum(kind, f.get_gain(p, P), p, g, L, P)
        check_spectrum(kind, f.get_gain(p, output_power=P), p, g, L, P)
        unchanged('the pulse', b, p)
        rec.state(f, p, r)
        rec.step(2)
    # tables in other units of gain: the scale is set by the output power
    for s in (1e-6, 30.0, 1e4):
        f.load_from_db(L, kind)
        f.fiberspecs['gain_y_data'] = [v * s for v in f.fiberspecs['gain_y_data']]
        for r in (1.5, 10.0):
            if r > lost + 0.05:
                check_spectrum(kind, f.get_gain(p, W * r), p, g, L, W * r)
                rec.step()
    f.load_from_db(L, kind)
    if W > 1.0:
        return
    check_spectrum(kind, f.get_gain(p), p, g, L, 1.0)
    rec.step()


class M(Machine):
    def __init__(self, init):
        self.f = FiberInstance('mydb', SCRATCH)
        self.pg = [mkpulse(0, 100.0), mkpulse(3, 10.0)]
        self.apply(['gen', 0.0])

    def ops(self):
        return [['gen', 0.0], ['gen', 0.8], ['db', 'gvd_m'], ['db', 'gain'], ['db', 'gain_d'], ['file', 0.0], ['file', 2.0],
                ['q', 0], ['q', 1], ['length', 2.0], ['dispfun', 0]]

    def apply(self, op):
        k, a = op
        f = self.f
        if k == 'gen':
            f.generate_fiber(1.0, 1550.0, [-0.01], 0.01, gain=a)
            self.g, self.L = a, 1.0
        elif k == 'db':
            f.load_from_db(0.7, a)
            self.g, self.L = {'gvd_m': 0.0}.get(a, a), 0.7
        elif k == 'file':
            f.load_from_file(os.path.join(SCRATCH, 'disp.csv'), length=1.5, gamma_W_m=0.006, gain=a)
            self.g, self.L = a, 1.5
        elif k == 'length':
            f.length = self.L = a
        elif k == 'dispfun':
            f.set_dispersion_function(lambda z: [0.01 * z])
        else:
            self.query(a)

    def query(self, i):
        p, g = self.pg[i]
        r = self.f.get_gain(p, 0.05)
        if isinstance(self.g, str):
            check_spectrum(self.g, r, p, g, self.L, 0.05)
        else:
            same('gain', r, np.full(g.N, self.g), rtol=1e-12)

    def probe(self):
        self.query(0)
        self.query(1)


MACHINES = {'gain': M}


def machines(tier):
    yield 'gain', 0, 3 if tier == 'quick' else 4
