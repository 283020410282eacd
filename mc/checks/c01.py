"""C01: every grid a pulse reports is the one its current settings define."""
import itertools

import numpy as np
from pynlo.light.PulseBase import Pulse
from pynlo.light.DerivedPulses import SechPulse, GaussianPulse, SincPulse, CWPulse, NoisePulse

from mc.core import Machine, Violation, same, true
from mc.ref import ACCESSORS, C_NMPS, Grid, field

LEVEL = 'model_checking'
BOUNDS = ('two pulses; all sequences (quick: length<=3, thorough: length<=4) of 17 setters/grid-changing calls '
          'and 24 reads on the first, 8 operations on the second; 6 ways of construction; '
          '49 pairs of sizes from 2 to 32768 points x 16 pairs of windows and centers with one setting changed at a time; after every sequence all 23 accessors of both pulses against the reference grid')

SETTERS = {
    'set_NPTS': lambda g, v: setattr(g, 'N', int(v)),
    'set_center_wavelength_nm': lambda g, v: setattr(g, 'f0', C_NMPS / v),
    'set_center_wavelength_m': lambda g, v: setattr(g, 'f0', C_NMPS / (v * 1e9)),
    'set_time_window_ps': lambda g, v: setattr(g, 'T', v),
    'set_time_window_s': lambda g, v: setattr(g, 'T', v * 1e12),
    'set_frequency_window_THz': lambda g, v: setattr(g, 'T', g.N / v),
    'set_frequency_window_mks': lambda g, v: setattr(g, 'T', g.N / v * 1e12),
    'set_frep_MHz': lambda g, v: setattr(g, 'frep', v),
}

A_OPS = [['set_NPTS', 4], ['set_NPTS', 10], ['set_NPTS', 8.0],
         ['set_center_wavelength_nm', 800.0], ['set_center_wavelength_nm', 1550],
         ['set_center_wavelength_m', 1.0612345678912e-6],
         ['set_time_window_ps', 2.5123456789123], ['set_time_window_ps', 20],
         ['set_time_window_s', 7.512345678912e-12],
         ['set_frequency_window_THz', 4.0123456789123], ['set_frequency_window_mks', 3.2e12 / 1.0234567891],
         ['set_frep_MHz', 250.0], ['set_frep_MHz', 1.2345e-6], ['nudge', 1e-7], ['nudge', -2e-5],
         ['expand_time_window', 1], ['clone_pulse', 'b'], ['load_pulse_dict', 'b'], ['set_AW', 0], ['set_AT', 1]]
B_OPS = [['set_time_window_ps', 3.0], ['set_center_wavelength_nm', 1030.0], ['set_NPTS', 6],
         ['read', 'wl_nm'], ['read', 'W_mks'], ['read', 'F_mks'], ['read', 'wl_mks'], ['read', 'dF_mks']]

INITS = ['blank', 'blank_mks', 'sech', 'gauss', 'sinc', 'cw', 'cw_offset', 'noise']


def build(init):
    if init == 'blank':
        p = Pulse(frep_MHz=80.0, n=8)
        p.set_center_wavelength_nm(1550.0)
        p.set_time_window_ps(10.0)
        return p, Grid(8, C_NMPS / 1550.0, 10.0, 80.0)
    if init == 'blank_mks':
        p = Pulse()
        p.set_NPTS(8)
        p.set_time_window_s(10e-12)
        p.set_center_wavelength_m(1.55e-6)
        return p, Grid(8, C_NMPS / 1550.0, 10.0, 100.0)
    if init in ('sech', 'gauss', 'sinc'):
        cls = {'sech': SechPulse, 'gauss': GaussianPulse, 'sinc': SincPulse}[init]
        p = cls(10.0, 1.0, 1550.0, time_window_ps=10.0, frep_MHz=80.0, NPTS=8)
        return p, Grid(8, C_NMPS / 1550.0, 10.0, 80.0)
    if init == 'cw':
        p = CWPulse(1.0, 1550.0, time_window_ps=10.0, NPTS=8)
        return p, Grid(8, C_NMPS / 1550.0, 10.0, 100.0)
    if init == 'cw_offset':
        p = CWPulse(1.0, 1550.0, time_window_ps=10.0, NPTS=8, offset_from_center_THz=-0.2)
        return p, Grid(8, C_NMPS / 1550.0 + 0.2, 10.0, 100.0)
    if init == 'noise':
        p = NoisePulse(1550.0, time_window_ps=10.0, NPTS=8, frep_MHz=80.0)
        return p, Grid(8, C_NMPS / 1550.0, 10.0, 80.0)


_WANT = {}


def check_read(who, p, g, name):
    got = getattr(p, name)
    key = (name, g.N, g.f0, g.T, g.frep)
    if key not in _WANT:
        _WANT[key] = ACCESSORS[name](g)
    want = _WANT[key]
    same('%s.%s' % (who, name), got, want, rtol=2e-10)


class M(Machine):
    def __init__(self, init):
        self.p, self.g = {}, {}
        self.p['a'], self.g['a'] = build(init)
        self.p['b'], self.g['b'] = build('blank')
        self.p['b'].set_frep_MHz(33.0)
        self.g['b'].frep = 33.0
        self.p['b'].set_AW(field(8))
        self.field = {'a': init not in ('blank', 'blank_mks'), 'b': True}
        self.flen = {'a': 8, 'b': 8}

    def ops(self):
        o = [['a'] + x for x in A_OPS if self.enabled(x)]
        o += [['a', 'read', n] for n in ACCESSORS] + [['a', 'read', '*']]
        o += [['b'] + x for x in B_OPS]
        return o

    def enabled(self, x):
        if x[0] == 'expand_time_window':
            return self.field['a'] and self.flen['a'] == self.g['a'].N
        if x[0] in ('clone_pulse', 'load_pulse_dict'):
            return self.flen['b'] == self.g['b'].N
        return True

    def apply(self, op):
        who, name, arg = op
        p, g = self.p[who], self.g[who]
        if name == 'read':
            for n in (ACCESSORS if arg == '*' else [arg]):
                check_read(who, p, g, n)
        elif name == 'expand_time_window':
            p.expand_time_window(arg)
            g.N, g.T = g.N * 2 ** arg, g.T * 2 ** arg
            self.flen[who] = g.N
        elif name == 'clone_pulse':
            p.clone_pulse(self.p[arg])
            self.g[who] = self.g[arg].copy()
            self.flen[who], self.field[who] = self.g[arg].N, True
        elif name == 'load_pulse_dict':
            p.load_pulse_dict(self.p[arg].get_pulse_dict())
            self.g[who] = self.g[arg].copy()
            self.flen[who], self.field[who] = self.g[arg].N, True
        elif name == 'nudge':
            # all settings moved by a hair, by the setters
            p.set_center_wavelength_nm(C_NMPS / (g.f0 * (1 + arg)))
            p.set_time_window_ps(g.T * (1 + arg))
            g.f0, g.T = g.f0 * (1 + arg), g.T * (1 + arg)
        elif name == 'set_AW':
            p.set_AW(field(g.N))
            self.flen[who], self.field[who] = g.N, True
        elif name == 'set_AT':
            p.set_AT(field(g.N, 1))
            self.flen[who], self.field[who] = g.N, True
        else:
            getattr(p, name)(arg)
            SETTERS[name](g, float(arg))

    def probe(self):
        for who in ('a', 'b'):
            for n in ACCESSORS:
                check_read(who, self.p[who], self.g[who], n)
        true('NPTS is an integer', isinstance(self.p['a'].NPTS, (int, np.integer)))


SIZES = (2, 8, 100, 1022, 1024, 4096, 32768)
PLACES = ((1550.0, 10.0), (1550.0, 11.0), (400.0, 10.0), (5000.0, 400.0))


def scenarios(tier):
    for n1 in SIZES:
        for n2 in SIZES:
            yield ['sizes', n1, n2]


def run(sc, rec):
    """Grids of every magnitude: all settings changed one by one and together, after everything was read."""
    _, n1, n2 = sc
    for (wl1, T1), (wl2, T2) in itertools.product(PLACES, repeat=2):
        if min(C_NMPS / wl1 - n1 / (2 * T1), C_NMPS / wl2 - n2 / (2 * T2), C_NMPS / wl1 - n2 / (2 * T1), C_NMPS / wl2 - n2 / (2 * T1)) <= 0:
            T1, T2 = T1 * 1e3, T2 * 1e3
        p = Pulse(frep_MHz=80.0, n=n1)
        p.set_center_wavelength_nm(wl1)
        p.set_time_window_ps(T1)
        g = Grid(n1, C_NMPS / wl1, T1, 80.0)
        for change in (None, 'N', 'wl', 'T'):
            if change == 'N':
                p.set_NPTS(n2)
                g.N = n2
            elif change == 'wl':
                p.set_center_wavelength_nm(wl2)
                g.f0 = C_NMPS / wl2
            elif change == 'T':
                p.set_time_window_ps(T2)
                g.T = T2
            for n in ACCESSORS:
                # a spacing is a difference of absolute frequencies, with their rounding
                a = 2e-15 * g.f0 * (1e12 if n == 'dF_mks' else 1.0) if n.startswith('dF') else 0.0
                same('p.%s for %s' % (n, (g.N, g.f0, g.T)), getattr(p, n), ACCESSORS[n](g), rtol=2e-10, atol=a)
            rec.step()
        rec.state(n1, n2, wl1, wl2, T1, T2)


MACHINES = {'pulse': M}


def machines(tier):
    for i, init in enumerate(INITS):
        deep = 3 if init in ('blank', 'gauss') else 2
        yield 'pulse', init, deep + (1 if tier == 'thorough' else 0)
