"""C31: beam geometry follows Gaussian optics and beams are independent."""
import itertools
import math

import numpy as np
from pynlo.light.beam import OneDBeam
from pynlo.light.high_V_waveguide import OneDBeam_highV_WG

from mc import dfg as D
from mc import pulses as P
from mc import xtal as X
from mc.core import Machine, Violation, exact, same, true
from mc.ref import C_NMPS, Grid
from mc.state import fingerprint

LEVEL = 'model_checking'
BOUNDS = ('product of 5 waists (and a chromatic one) x 4 grids x 8 indices (scalar and per color) x 13 positions for the formulas; all pairs of beams out of 3 crystals x axes x 2 grids x 3 waists x 9 positions for overlaps, '
          'matching and conversion; waveguides of 4 areas; all histories of <=4 (thorough 5) waist changes, matchings and queries on three beams, two pulses and a crystal')
CHUNK = 4
EPS0, C = 8.8541878128e-12, 299792458.0
GR = [(4, 1.6, 1064.0), (8, 1.0, 1550.0), (6, 2.0, 2600.0), (2, 5.0, 3400.0)]
WAISTS = [3e-6, 15e-6, 40e-6, 1e-4, 1.3e-3]
POS = [-0.3, -5e-3, -1e-4, -1e-7, 1e-9, 2e-6, 1e-4, 1.1e-3, 4e-3, 0.02, 0.5, 7.0]
AXES = {'PPLN': (None,), 'AgGaSe2': ('o', 'e', 'mix'), 'AgGaS2': ('o', 'mix')}


def grid(i):
    N, T, wl = GR[i]
    return Grid(N, C_NMPS / wl, T)


def pulse(i):
    N, T, wl = GR[i]
    return D.blank(N, T, wl, AW=np.ones(N))


class Ref:
    """Gaussian beam of waist w0 for every color lam (m)."""
    def __init__(self, w0, lam):
        self.w0, self.lam = w0, np.asarray(lam)

    def b(self, n):
        return 2 * math.pi * self.w0 ** 2 * n / self.lam

    def zr(self, n):
        return math.pi * self.w0 ** 2 * n / self.lam

    def w(self, z, n):
        return self.w0 * np.sqrt(1 + (z / self.zr(n)) ** 2)

    def R(self, z, n):
        return z + self.zr(n) ** 2 / z

    def gouy(self, z, n):
        q = self.zr(n) + 1j * z
        return q / np.abs(q)

    def conv(self, n, w=None):
        w = self.w0 if w is None else w
        return 1 / np.sqrt(math.pi * w ** 2 * n * EPS0 * C)


def overlap(r1, n1, r2, n2, z):
    """Power coupling of two Gaussian modes exp(-i k r^2 / 2 q)."""
    A = []
    for r, n in ((r1, n1), (r2, n2)):
        k = 2 * math.pi * n / r.lam
        A.append(1j * k / (2 * (z + 1j * r.zr(n))))
    return 4 * A[0].real * A[1].real / np.abs(A[0] + np.conj(A[1])) ** 2


def scenarios(tier):
    for g in range(len(GR)):
        for w in range(len(WAISTS) + 1):
            yield ['formulas', g, w]
    for kind in AXES:
        for a1, a2 in itertools.product(AXES[kind], repeat=2):
            for g1, g2 in itertools.product((0, 1, 2) if tier != 'quick' else (0, 1), repeat=2):
                yield ['pair', kind, a1, a2, g1, g2]
    for area in (0.5, 10.0, 33.0, 1e4):
        for g in range(len(GR)):
            yield ['guide', area, g]
    yield ['optimal']


def run(sc, rec):
    globals()['do_' + sc[0]](sc, rec)


def do_formulas(sc, rec):
    _, gi, wi = sc
    g = grid(gi)
    lam = g.wl * 1e-9
    w0 = WAISTS[wi] if wi < len(WAISTS) else 1e-5 * (1 + np.arange(g.N))
    p = pulse(gi)
    b = OneDBeam(w0, this_pulse=p)
    r = Ref(w0, lam)
    same('waist', b.waist, w0, rtol=1e-14)
    ns = [1.0, 1.5, 2.2, 3.3] + [np.full(g.N, 1.7), 2 + 0.1 * np.arange(g.N), 1 + lam / lam.max(), np.linspace(3, 2, g.N)]
    same('confocal parameter in vacuum', b.calc_confocal(), r.b(1.0), rtol=1e-12)
    same('Rayleigh range in vacuum', b.calculate_zR(), r.zr(1.0), rtol=1e-12)
    for n in ns:
        n0 = np.array(n, copy=True)
        same('confocal parameter', b.calc_confocal(n), r.b(n), rtol=1e-12)
        same('Rayleigh range', b.calculate_zR(n), r.zr(n), rtol=1e-12)
        for z in POS + [0.0]:
            w = 'at %g' % z
            same('radius ' + w, b.calculate_waist(z, n), r.w(z, n) * np.ones(g.N), rtol=1e-12)
            if z:
                same('curvature ' + w, b.calculate_R(z, n), r.R(z, n), rtol=1e-12)
            same('Gouy phase ' + w, b.calculate_gouy_phase(z, n), r.gouy(z, n), rtol=1e-12)
            same('conversion ' + w, b.rtP_to_a(n, z), r.conv(n), rtol=1e-9)
            rec.step(4)
        zr = r.zr(n)
        same('radius one Rayleigh range away', b.calculate_waist(zr, n), math.sqrt(2) * w0 * np.ones(g.N), rtol=1e-12)
        same('curvature one Rayleigh range away', b.calculate_R(zr, n), 2 * zr, rtol=1e-12)
        same('Gouy phase one Rayleigh range away', b.calculate_gouy_phase(zr, n), np.exp(0.25j * math.pi) * np.ones(g.N), rtol=1e-12)
        exact('index passed in', np.asarray(n), n0)
        same('conversion without position', b.rtP_to_a(n), r.conv(n), rtol=1e-9)
        rec.state(gi, wi, n)
    rec.outcome(gi, wi)


def do_pair(sc, rec):
    _, kind, a1, a2, g1, g2 = sc
    m = X.Model(kind, theta=0.7)
    c = X.make(kind, m, 0.01)
    G = [grid(g1), grid(g2)]
    if G[0].N != G[1].N:      # pairs of grids of the same length
        G[1] = Grid(G[0].N, G[1].f0, G[1].T)
    ps = [D.blank(g.N, g.T, C_NMPS / g.f0, AW=np.ones(g.N)) for g in G]
    lam = [g.wl * 1e-9 for g in G]
    n = [m.n(g.wl, a) for g, a in zip(G, (a1, a2))]
    for w1, w2 in itertools.product((8e-6, 30e-6, 2e-4), repeat=2):
        b = [OneDBeam(w1, this_pulse=ps[0], axis=a1), OneDBeam(w2, this_pulse=ps[1], axis=a2)]
        r = [Ref(w1, lam[0]), Ref(w2, lam[1])]
        for j in (0, 1):
            same('index', b[j].get_n_in_crystal(ps[j], c), n[j], rtol=1e-9)
            same('wavevector', b[j].get_k_in_crystal(ps[j], c), 2 * math.pi * n[j] / lam[j], rtol=1e-9)
        for z in POS[::2] + [0.0, 1e-3]:
            w = 'waists %g, %g at %g' % (w1, w2, z)
            want = overlap(r[0], n[0], r[1], n[1], z)
            o = b[0].calc_overlap_integral(z, ps[0], ps[1], b[1], c)
            same(w + ': overlap', o, want, rtol=1e-7)
            same(w + ': overlap the other way round', b[1].calc_overlap_integral(z, ps[1], ps[0], b[0], c), o, rtol=1e-9)
            true(w + ': overlap in (0, 1]', bool(np.all((o > 0) & (o <= 1 + 1e-9))))
            for j in (0, 1):
                same(w + ': overlap with itself', b[j].calc_overlap_integral(z, ps[j], ps[j], b[j], c), np.ones(G[j].N), rtol=1e-9)
                same(w + ': conversion', b[j].rtP_to_a_2(ps[j], c, z), r[j].conv(n[j], r[j].w(z, n[j])), rtol=1e-9)
                same(w + ': conversion with a given radius', b[j].rtP_to_a_2(ps[j], c, None, 17e-6), r[j].conv(n[j], 17e-6), rtol=1e-9)
                # power through the area is the squared field
                same(w + ': field and power', b[j].rtP_to_a_2(ps[j], c, z) ** 2 * math.pi * b[j].calculate_waist(z, n[j]) ** 2 * n[j] * EPS0 * C, np.ones(G[j].N), rtol=1e-9)
            rec.step(3)
        b[0].set_waist_to_match_central_waist(ps[0], w1, c)
        cf = b[0].calc_confocal(n[0])
        same('central waist', b[0].waist[G[0].N // 2], w1, rtol=1e-12)
        same('equal confocal parameters', cf, np.full(G[0].N, cf[G[0].N // 2]), rtol=1e-12)
        same('confocal parameter of the center', cf[G[0].N // 2], 2 * math.pi * w1 ** 2 * n[0][G[0].N // 2] / lam[0][G[0].N // 2], rtol=1e-9)
        b[1].set_waist_to_match_confocal(ps[1], ps[0], b[0], c)
        same('matched confocal parameters', b[1].calc_confocal(n[1]), cf, rtol=1e-9)
        same('the other beam', b[0].calc_confocal(n[0]), cf, rtol=0)
        rec.state(kind, a1, a2, g1, g2, w1, w2)
    rec.outcome(kind, a1, a2)


def do_guide(sc, rec):
    _, area, gi = sc
    g = grid(gi)
    p = pulse(gi)
    for kind in AXES:
        m = X.Model(kind, theta=0.7)
        c = X.make(kind, m, 0.01)
        for a in AXES[kind]:
            b = OneDBeam_highV_WG(Aeff_squm=area, this_pulse=p, axis=a)
            o = OneDBeam_highV_WG(Aeff_squm=2 * area, this_pulse=p, axis=a)
            n = m.n(g.wl, a)
            same('area', b.Aeff, area * 1e-12, rtol=1e-12)
            want = 1 / np.sqrt(area * 1e-12 * n * EPS0 * C)
            for z in (None, 0.0, 1e-3, -0.2):
                same('conversion at %s' % z, b.rtP_to_a(n, z), want, rtol=1e-9)
                same('conversion in the crystal at %s' % z, b.rtP_to_a_2(p, c, z), want, rtol=1e-9)
                same('Gouy phase at %s' % z, b.calculate_gouy_phase(z, n), 1.0, rtol=0)
                same('overlap at %s' % z, b.calc_overlap_integral(z, p, p, o, c), 1.0, rtol=0)
            same('index', b.get_n_in_crystal(p, c), n, rtol=1e-9)
            same('wavevector', b.get_k_in_crystal(p, c), 2 * math.pi * n / (g.wl * 1e-9), rtol=1e-9)
            b.set_Aeff(7e-12)
            same('changed area', b.Aeff, 7e-12, rtol=1e-14)
            same('conversion after it', b.rtP_to_a(n), 1 / np.sqrt(7e-12 * n * EPS0 * C), rtol=1e-9)
            same('other area', o.Aeff, 2 * area * 1e-12, rtol=1e-12)
            rec.step(9)
            rec.state(area, gi, kind, a)
    rec.outcome(area, gi)


def do_optimal(sc, rec):
    """The waist proposed for best overlap does not lose against others."""
    for kind, w2, L in itertools.product(('PPLN', 'AgGaSe2'), (2e-5, 6e-5), (None, 2e-3)):
        a = None if kind == 'PPLN' else 'o'
        m = X.Model(kind)
        c = X.make(kind, m, 0.01)
        g1, g2 = Grid(2, C_NMPS / 1550.0, 5.0), Grid(2, C_NMPS / 2600.0, 5.0)
        p1, p2 = [D.blank(2, 5.0, C_NMPS / g.f0, AW=np.ones(2)) for g in (g1, g2)]
        b1, b2 = OneDBeam(3e-5, this_pulse=p1, axis=a), OneDBeam(w2, this_pulse=p2, axis=a)
        w = np.asarray(b1.calc_optimal_beam_overlap_in_crystal(p1, p2, b2, c, L))
        true('a waist per color', w.shape == (2,) and bool(np.all(np.isfinite(w)) and np.all(w > 0)))
        n1, n2 = m.n(g1.wl, a), m.n(g2.wl, a)
        LL = 0.01 if L is None else L

        def loses(z):
            def total(ws):
                r1, r2 = Ref(ws, g1.wl * 1e-9), Ref(w2, g2.wl * 1e-9)
                return np.mean([overlap(r1, n1, r2, n2, x) for x in z], axis=0)
            best = total(w)
            return [f for f in (0.7, 0.9, 1.1, 1.4) if not np.all(total(w * f) <= best + 1e-5)]
        # the focus is in the middle or at the end of the path
        true('%s: better waists than %s exist' % (kind, w), not loses(np.linspace(-LL / 2, LL / 2, 201)) or not loses(np.linspace(0, LL, 201)))
        exact('its own waist', b1.waist, 3e-5)
        rec.step()
        rec.state(kind, w2, L)


class Beams(Machine):
    """Three beams (two of one pulse, one of another), changed in any order."""
    def __init__(self, init):
        Machine.__init__(self, init)
        self.kind = init
        self.m = X.Model(init, theta=0.7)
        self.c = X.make(init, self.m, 0.01)
        ax = {'PPLN': (None, None, None), 'AgGaSe2': ('mix', 'o', 'o')}[init]
        self.ax = ax
        self.g = [grid(0), Grid(4, C_NMPS / 1550.0, 2.0)]
        self.p = [D.blank(g.N, g.T, C_NMPS / g.f0, AW=np.ones(g.N)) for g in self.g]
        self.of = (0, 0, 1)
        w = (1e-5, 2e-5, 4e-5)
        self.b = [OneDBeam(w[j], this_pulse=self.p[self.of[j]], axis=ax[j]) for j in range(3)]
        self.r = [Ref(w[j], self.g[self.of[j]].wl * 1e-9) for j in range(3)]
        self.n = [self.m.n(self.g[self.of[j]].wl, ax[j]) for j in range(3)]
        self.obs = [P.observe(p) for p in self.p]
        self.moved = [False, False]

    def ops(self):
        out = [['w0', j, v] for j in range(3) for v in (7e-6,)]
        out += [['match', i, j] for i in range(3) for j in range(3) if i != j]
        out += [['central', 0, 3e-5], ['central', 2, 5e-5], ['overlap', 0, 2], ['overlap', 2, 1], ['conv', 1], ['new']]
        out += [['ask', j] for j in range(3)]
        out += [['crystal', 140.0 if self.kind == 'PPLN' else 0.5], ['elsewhere', 0]]
        out += [['retune', k] for k in (0, 1) if not self.moved[k]]
        return out

    def tuned(self, *js):
        return not any(self.moved[self.of[j]] for j in js)

    def apply(self, op):
        o = op[0]
        if o == 'w0':
            self.b[op[1]].set_w0(op[2])
            self.r[op[1]].w0 = op[2]
        elif o == 'match' and self.tuned(op[1], op[2]):
            i, j = op[1:]
            self.b[i].set_waist_to_match_confocal(self.p[self.of[i]], self.p[self.of[j]], self.b[j], self.c)
            self.r[i].w0 = np.sqrt(self.r[j].b(self.n[j]) * self.r[i].lam / (2 * math.pi * self.n[i]))
        elif o == 'central' and self.tuned(op[1]):
            j, w = op[1:]
            self.b[j].set_waist_to_match_central_waist(self.p[self.of[j]], w, self.c)
            k = 2
            self.r[j].w0 = w * np.sqrt(self.n[j][k] / self.r[j].lam[k] * self.r[j].lam / self.n[j])
        elif o == 'overlap' and self.tuned(op[1], op[2]):
            self.both(op[1], op[2], 2e-3)
        elif o == 'conv' and self.tuned(op[1]):
            self.b[op[1]].rtP_to_a_2(self.p[self.of[op[1]]], self.c, 1e-3)
        elif o == 'ask':
            self.ask(op[1])
        elif o == 'new':
            OneDBeam(9e-4, this_pulse=self.p[0], axis=self.ax[0]).set_w0(1.0)
        elif o == 'crystal':
            if self.kind == 'PPLN':
                self.c.set_T(op[1])
                self.m.T = op[1]
            else:
                self.c.set_theta(op[1])
                self.m.theta = op[1]
            self.n = [self.m.n(self.g[self.of[j]].wl, self.ax[j]) for j in range(3)]
        elif o == 'elsewhere':      # another crystal, other pulses on the same beams
            m = X.Model(self.kind, theta=0.3)
            m.T = 77.0
            c = X.make(self.kind, m, 0.02)
            for j in range(3):
                q = D.blank(4, 1.7, 1200.0, AW=np.ones(4))
                n = m.n(Grid(4, C_NMPS / 1200.0, 1.7).wl, self.ax[j])
                same('index elsewhere', self.b[j].get_n_in_crystal(q, c), n, rtol=1e-9)
        elif o == 'retune':
            k = op[1]
            self.p[k].set_center_wavelength_nm(1300.0)
            self.moved[k] = True
            self.obs[k] = P.observe(self.p[k])

    def ask(self, j):
        n, r, b = self.n[j], self.r[j], self.b[j]
        for what, n in (('', n), (' for one index', 1.7)):
            same('confocal parameter of beam %d%s' % (j, what), b.calc_confocal(n), r.b(n), rtol=1e-9)
            same('Rayleigh range of beam %d%s' % (j, what), b.calculate_zR(n), r.zr(n), rtol=1e-9)
            same('field of beam %d%s' % (j, what), b.rtP_to_a(n), r.conv(n), rtol=1e-9)
            for z in (3e-3, -2e-3, 1e-3):
                same('radius of beam %d%s' % (j, what), b.calculate_waist(z, n), r.w(z, n), rtol=1e-9)
                same('curvature of beam %d%s' % (j, what), b.calculate_R(z, n), r.R(z, n), rtol=1e-9)
                same('Gouy phase of beam %d%s' % (j, what), b.calculate_gouy_phase(z, n), r.gouy(z, n), rtol=1e-9)

    def both(self, i, j, z):
        same('overlap of beams %d, %d at %g' % (i, j, z), self.b[i].calc_overlap_integral(z, self.p[self.of[i]], self.p[self.of[j]], self.b[j], self.c),
             overlap(self.r[i], self.n[i], self.r[j], self.n[j], z), rtol=1e-7)

    def probe(self):
        for j in range(3):
            self.ask(j)
            n, r, b = self.n[j], self.r[j], self.b[j]
            same('waist of beam %d' % j, b.waist, r.w0, rtol=1e-9)
            if self.tuned(j):
                same('index of beam %d' % j, b.get_n_in_crystal(self.p[self.of[j]], self.c), n, rtol=1e-9)
                same('conversion of beam %d' % j, b.rtP_to_a_2(self.p[self.of[j]], self.c, 1e-3), r.conv(n, r.w(1e-3, n)), rtol=1e-9)
        for i, j in itertools.permutations(range(3), 2):
            if self.tuned(i, j):
                self.both(i, j, 1e-3)
        for k in (0, 1):
            P.unchanged('pulse %d' % k, self.obs[k], self.p[k])

    def canon(self):
        return fingerprint([vars(b) for b in self.b], [r.w0 for r in self.r], self.moved, [vars(p) for p in self.p], vars(self.c))


MACHINES = {'Beams': Beams}


def machines(tier):
    for kind in ('PPLN', 'AgGaSe2'):
        yield 'Beams', kind, 3 if tier == 'quick' else 5
