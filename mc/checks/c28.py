"""C28: crystal index caching is invisible and crystals are independent."""
import copy
import math

import numpy as np

from mc import dfg as D
from mc import xtal as X
from mc.core import Machine, exact, same, true
from mc.ref import C_NMPS, Grid
from mc.state import fingerprint

LEVEL = 'model_checking'
BOUNDS = ('all histories of <=2 (thorough 3) operations, of <=3 (4) in a reduced alphabet, of <=3 (4) and <=4 (5) on one crystal, on two crystals (equal, different, or a copy made on the way; PPLN, AgGaSe2, AgGaS2 in 7 pairings, caching on or off at first) and two pulses: index and wavevector queries per axis, '
          'overwriting what was returned, temperature, data source, angle, poling, damage data, nonlinearity, caching switches, grid changes of the pulses')
KINDS = {'pp': ('PPLN', 'PPLN'), 'pa': ('PPLN', 'AgGaSe2'), 'aa': ('AgGaSe2', 'AgGaSe2'), 'ss': ('AgGaS2', 'AgGaSe2'), 'p1': ('PPLN', None), 'a1': ('AgGaSe2', None), 's1': ('AgGaS2', None)}
L = 0.005


def axes(kind):
    return (None,) if kind == 'PPLN' else (None, 'o', 'e', 'mix')


class Crystals(Machine):
    def __init__(self, init):
        Machine.__init__(self, init)
        kinds, cache, self.full = init
        self.kinds = [k for k in KINDS[kinds] if k]
        self.m = [X.Model(k) for k in self.kinds]
        self.c = [X.make(k, m, L, caching=cache) for k, m in zip(self.kinds, self.m)]
        self.pp = [30.49e-6 if k == 'PPLN' else None for k in self.kinds]
        self.damage = [4.0e13 if k == 'PPLN' else 1.0e13 for k in self.kinds]
        self.deff = [c.deff for c in self.c]
        self.g = [Grid(4, C_NMPS / 1500.0, 1.5), Grid(6, C_NMPS / 2600.0, 2.0)]
        self.p = [D.blank(g.N, g.T, C_NMPS / g.f0) for g in self.g]
        self.copied = False
        self.held = []

    def ops(self):
        out = []
        for j, k in enumerate(self.kinds):
            for i in (0, 1):
                out += [['n', j, i, a] for a in (axes(k) if k == 'PPLN' else ('o', 'mix'))]
            out += [['cache', j, v] for v in (True, False)]
            if k == 'PPLN':
                out += [['T', j, 90.0], ['T', j, -15.0], ['load', j, 'Deng'], ['load', j, 'Gayer_5pctMg'], ['pp', j]]
            else:
                out += [['theta', j, 0.5], ['theta', j, 0.8]]
            out += [['damage', j], ['deff', j]]
        out += [['k', 0, 0], ['wl', 0], ['window', 1], ['npts', 0], ['field', 0]]
        if self.held:
            out.append(['scribble'])
        if not self.copied:
            out.append(['copy'])
        if not self.full:       # one change of each sort
            out = [o for o in out if o[0] in ('scribble', 'copy', 'wl', 'k') or (o[0] == 'n' and o[2] == 0) or (o[0] == 'cache' and o[1] == 0)
                   or o[:1] + o[2:] in (['T', 90.0], ['load', 'Deng'], ['theta', 0.5])]
        return out

    def query(self, j, i, a):
        args = () if a is None else (a,)
        n = self.c[j].get_pulse_n(self.p[i], *args)
        same('index of crystal %d on pulse %d, axis %s' % (j, i, a), n, self.m[j].n(self.g[i].wl, a), rtol=1e-10)
        return n

    def wavevector(self, j, i, a):
        args = () if a is None else (a,)
        k = self.c[j].get_pulse_k(self.p[i], *args)
        same('wavevector of crystal %d on pulse %d, axis %s' % (j, i, a), k, 2 * math.pi * self.m[j].n(self.g[i].wl, a) / (self.g[i].wl * 1e-9), rtol=1e-10)
        return k

    def apply(self, op):
        o = op[0]
        if o == 'n':
            self.held.append(self.query(*op[1:]))
        elif o == 'k':
            self.held.append(self.wavevector(op[1], op[2], None))
        elif o == 'scribble':
            for a in self.held:
                a[:] = -3.0
            self.held = []
        elif o == 'cache':
            self.c[op[1]].set_caching(op[2])
        elif o == 'T':
            self.c[op[1]].set_T(op[2])
            self.m[op[1]].T = op[2]
        elif o == 'load':
            self.c[op[1]].load(70.0, data_source=op[2])
            self.m[op[1]].T, self.m[op[1]].source = 70.0, op[2]
            self.pp[op[1]] = 30.49e-6
            self.damage[op[1]] = 4.0e13
            self.deff[op[1]] = self.c[op[1]].deff
        elif o == 'pp':
            self.c[op[1]].set_pp((17e-6,))
            self.pp[op[1]] = 17e-6
        elif o == 'theta':
            self.c[op[1]].set_theta(op[2])
            self.m[op[1]].theta = op[2]
        elif o == 'damage':
            data = getattr(self.c[op[1]], '_crystal_properties', None)
            if isinstance(data, dict) and 'damage_threshold_GW_per_sqcm' in data:   # the table behind the threshold, where there is one
                data['damage_threshold_GW_per_sqcm'] = 0.25
                self.damage[op[1]] = 0.25e13
        elif o == 'deff':
            self.c[op[1]].deff *= -2
            self.deff[op[1]] *= -2
        elif o == 'copy':
            self.copied = True
            self.kinds.append(self.kinds[0])
            self.c.append(copy.deepcopy(self.c[0]))
            self.m.append(copy.copy(self.m[0]))
            for l in (self.pp, self.damage, self.deff):
                l.append(l[0])
        elif o == 'wl':
            self.p[op[1]].set_center_wavelength_nm(1800.0)
            self.g[op[1]].f0 = C_NMPS / 1800.0
        elif o == 'window':
            self.p[op[1]].set_time_window_ps(3.0)
            self.g[op[1]].T = 3.0
        elif o == 'npts':
            self.p[op[1]].set_NPTS(8)
            self.g[op[1]].N = 8
        elif o == 'field':
            self.p[op[1]].set_AW(np.ones(self.g[op[1]].N) * 2.0)

    def probe(self):
        for _ in (0, 1):
            for j, k in enumerate(self.kinds):
                for i in (0, 1):
                    for a in axes(k):
                        self.query(j, i, a)[:] = 99.0       # ours to change
                        self.wavevector(j, i, a)
                w = np.array([1300.0, 2100.0, 3500.0])
                same('index curve of crystal %d' % j, self.c[j].n(w) if k == 'PPLN' else self.c[j].n(w, 'o'), self.m[j].n(w, None if k == 'PPLN' else 'o'), rtol=1e-10)
                exact('nonlinearity of crystal %d' % j, self.c[j].deff, self.deff[j])
                same('damage threshold of crystal %d' % j, self.c[j].damage_threshold_mks, self.damage[j], rtol=1e-12)
                same('length of crystal %d' % j, self.c[j].length_mks, L, rtol=1e-12)
                same('length of crystal %d in nm' % j, self.c[j].length_nm, L * 1e9, rtol=1e-12)
                if k == 'PPLN':
                    same('poling of crystal %d' % j, self.c[j].pp(1e-4), self.pp[j], rtol=1e-12)

    def canon(self):
        return fingerprint([vars(c) for c in self.c], [vars(m) for m in self.m], [vars(p) for p in self.p], self.pp, self.damage, self.deff, self.held, self.copied)


def scenarios(tier):
    for k in sorted(KINDS):
        for N in (64, 1024, 4096):
            yield [k, N]


def run(sc, rec):
    """Long grids, asked alternately and repeatedly."""
    m = Crystals([sc[0], True, True])
    m.g = [Grid(sc[1], C_NMPS / w, 0.02 * sc[1]) for w in (1500.0, 2600.0)]
    m.p = [D.blank(g.N, g.T, C_NMPS / g.f0) for g in m.g]
    for r in range(3):
        m.probe()
        rec.state(sc, r)
        rec.step()


MACHINES = {'Crystals': Crystals}


def machines(tier):
    q = tier == 'quick'
    for k in KINDS:
        for cache in (True, False):
            if k.endswith('1'):
                yield 'Crystals', [k, cache, True], 3 if q else 4
                if cache:
                    yield 'Crystals', [k, cache, False], 4 if q else 5
            else:
                yield 'Crystals', [k, cache, True], 2 if q else 3
                yield 'Crystals', [k, cache, False], (3 if cache else 2) if q else 4
