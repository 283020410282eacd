"""C34: three-wave mixing in a bulk crystal follows the focused Gaussian beams."""
import itertools
import math

import numpy as np
from pynlo.util.ode_solve.steppers import ODEint, Output
from pynlo.util.ode_solve.dopr853 import StepperDopr853

from mc import dfg as D
from mc import xtal as X
from mc.core import exact, same, true

LEVEL = 'model_checking'
BOUNDS = ('all pairs of basis fields for 4 (thorough also 8) points and 4 dense field triples, x 7 positions (both ends, focus, outside), 3 waists (3-80 um), Gouy phase on and off, both FFT back ends, 6 crystals (two PPLN, two '
          'birefringent x 2 angles, one unpoled), 1-3 wavelength pairs each, 2 crystal lengths; 36 (thorough 108) full integrations against an independent solution')
CHUNK = 2
CRY = {'ppln': [(1064.0, 1550.0), (1030.0, 1700.0), (780.0, 1300.0)], 'deng': [(1064.0, 1550.0)], 'se': [(1900.0, 3000.0), (1500.0, 2400.0)], 'se2': [(1900.0, 3000.0)],
       's': [(1064.0, 1550.0)], 's2': [(1200.0, 1900.0)], 'simple': [(1064.0, 1550.0), (780.0, 1300.0)]}
WAISTS = (3e-6, 15e-6, 80e-6)
AT = (0.0, 0.21, 0.4999, 0.77, 1.0, -0.3, 1.6)
SPAN = 0.8


def crystal(kind, L):
    """The crystal, its index by (vacuum wavelength, wave) from published data, and its poling period."""
    if kind == 'ppln':
        m = X.Model('PPLN', T=45.0)
        return D.PPLN(45.0, length=L), (lambda w, x: m.n(w)), 30.49e-6
    if kind == 'deng':
        m = X.Model('PPLN', T=100.0, source='Deng')
        c = D.PPLN(30.0, length=L)
        c.load(100.0, data_source='Deng')
        c.set_pp((18.3e-6,))
        return c, (lambda w, x: m.n(w)), 18.3e-6
    if kind == 'simple':
        c = D.Simple(L)
        return c, (lambda w, x: 2.0 + 0.1 * (1000.0 / np.asarray(w)) ** 2), None
    fam = 'AgGaSe2' if kind.startswith('se') else 'AgGaS2'
    th = 0.55 if kind.endswith('2') else 0.9
    m = X.Model(fam, theta=th)
    return X.make(fam, m, L), (lambda w, x: m.n(w, 'mix' if x == 'p' else 'o')), None


_COUPLING = []


def coupling():
    """The factor of the coupled equations (about 2i), taken from a waveguide: the geometries differ in the area only."""
    if not _COUPLING:
        N, area = 4, 20e-12
        p, s = D.blank(N, SPAN, 1064.0), D.blank(N, SPAN, 1550.0)
        c, n, _ = crystal('simple', 1e-3)
        q = D.dfg_problem(p, s, c, disable_SPM=True, wg_mode=True, Aeff_squm=area * 1e12)
        y = np.zeros(3 * N, complex)
        y[N // 2] = y[N + N // 2] = 1.0
        li = 1 / (1 / 1064.0 - 1 / 1550.0)
        nn = n(1064.0, 'p') * n(1550.0, 's') * n(li, 'i')
        _COUPLING.append(ask(q, 0.0, y)[2 * N + N // 2] * math.sqrt(area * nn * D.EPS0 * D.C) * D.C / (c.deff * 2 * math.pi * D.C / (li * 1e-9)))
    return _COUPLING[0]


class Model:
    def __init__(self, n, period, deff, L, N, T, wl, waist, gouy):
        lp, ls = wl
        li = 1 / (1 / lp - 1 / ls)
        k = np.arange(N) - N // 2
        self.W = {x: 2 * math.pi * (D.C / (l * 1e-9) + k / (T * 1e-12)) for x, l in (('p', lp), ('s', ls), ('i', li))}
        lam = {x: 2 * math.pi * D.C / w for x, w in self.W.items()}
        self.n = {x: np.asarray(n(lam[x] * 1e9, x), float) for x in 'psi'}
        self.k = {x: self.n[x] * self.W[x] / D.C for x in 'psi'}
        # one confocal parameter for every colour of every beam, that of the pump centre at the given waist
        self.zr = math.pi * waist ** 2 * self.n['p'][N // 2] / lam['p'][N // 2]
        self.w02 = self.zr * lam['p'] / (math.pi * self.n['p'])
        self.N, self.L, self.period, self.deff, self.gouy = N, L, period, deff, gouy

    def sign(self, z):
        return 1.0 if not self.period or (z / self.period) % 1.0 < 0.5 or z < 0 else -1.0

    def d(self, z, y, sign=None):
        N = self.N
        x = z - self.L / 2
        area = math.pi * self.w02 * (1 + (x / self.zr) ** 2)
        g = np.exp(1j * math.atan2(x, self.zr)) if self.gouy else 1.0
        ph = {q: np.exp(1j * self.k[q] * z) * g for q in 'psi'}
        conv = {q: 1 / np.sqrt(area * self.n[q] * D.EPS0 * D.C) for q in 'psi'}
        a = {q: y[i * N:(i + 1) * N] * conv[q] * ph[q] for i, q in enumerate('psi')}
        mix = {'p': D.conv_ref(a['s'], a['i']), 's': D.corr_ref(a['p'], a['i']), 'i': D.corr_ref(a['p'], a['s'])}
        s = self.sign(z) if sign is None else sign
        return np.concatenate([coupling() * mix[q] / ph[q] * self.W[q] * self.deff * s / (D.C * self.n[q]) / conv[q] for q in 'psi'])

    def strength(self, z):
        x = z - self.L / 2
        area = math.pi * self.w02.min() * (1 + (x / self.zr) ** 2)
        return abs(coupling()) * self.W['p'].max() * abs(self.deff) / (D.C ** 1.5 * math.sqrt(area * D.EPS0)) / min(v.min() for v in self.n.values()) ** 1.5


def problem(kind, L, N, wl, waist, gouy, fftw, fields=None):
    c, n, period = crystal(kind, L)
    p = D.blank(N, SPAN, wl[0], AW=None if fields is None else fields[0])
    s = D.blank(N, SPAN, wl[1], AW=None if fields is None else fields[1])
    with D.fftw(fftw):
        q = D.dfg_problem(p, s, c, disable_SPM=True, pump_waist=waist, apply_gouy_phase=gouy)
    return q, Model(n, period, c.deff, L, N, SPAN, wl, waist, gouy)


def scenarios(tier):
    q = tier == 'quick'
    for kind in CRY:
        for wl, waist, gouy, L in itertools.product(range(len(CRY[kind])), WAISTS, (0, 1), (1e-3, 1.2e-2)):
            for fftw in (1, 0):
                if not fftw and (wl or L == 1e-3):
                    continue
                yield ['pairs', kind, wl, waist, gouy, L, fftw, 4]
                if not q:
                    yield ['pairs', kind, wl, waist, gouy, L, fftw, 8]
            yield ['dense', kind, wl, waist, gouy, L]
    for kind in ('ppln', 'se', 'simple'):
        for waist, gouy in itertools.product(WAISTS, (0, 1)):
            for init in (0, 1) if q else range(6):
                yield ['integrate', kind, waist, gouy, init]


def run(sc, rec):
    globals()['do_' + sc[0]](sc, rec)


def positions(m):
    return AT[:5] if m.period else AT       # the poling outside of the crystal is nobody's business


def ask(q, z, y):
    d = np.full(len(y), np.nan, complex)
    y0 = y.copy()
    q.deriv(z, y, d)
    exact('state vector', y, y0)
    return d


def do_pairs(sc, rec):
    _, kind, wl, waist, gouy, L, fftw, N = sc
    q, m = problem(kind, L, N, CRY[kind][wl], waist, bool(gouy), bool(fftw))
    for f in positions(m):
        z = f * L
        for x, yy in ((0, 1), (0, 2), (1, 2)):
            for a, b in itertools.product(range(N), repeat=2):
                y = np.zeros(3 * N, complex)
                y[x * N + a] = 2.0 * np.exp(0.7j * a)
                y[yy * N + b] = 0.5 * np.exp(-1.1j * b)
                same('%s[%d] and %s[%d] at %g' % ('psi'[x], a, 'psi'[yy], b, z), ask(q, z, y), m.d(z, y), rtol=1e-8, scale=m.strength(z))
                rec.step()
        rec.state(sc, f)
    rec.outcome(sc)


def dense(N):
    k = np.arange(3 * N)
    x = (k % N - N / 2.0) / N
    return [np.exp(1j * k ** 2 / 3.0), np.exp(-20 * x ** 2) * (1 + 2j) * np.exp(0.2j * k), np.where(k < N, 1e3, 1e-3) * np.exp(1j * np.sin(k * 3.0)), (-1.0) ** k * (1 + k) + 0j]


def do_dense(sc, rec):
    _, kind, wl, waist, gouy, L = sc
    for N in (8, 32):
        q, m = problem(kind, L, N, CRY[kind][wl], waist, bool(gouy), True)
        for rep in (0, 1):          # forwards and backwards through the positions
            for f in positions(m)[::-1 if rep else 1]:
                for i, y in enumerate(dense(N)):
                    z = f * L
                    n = [np.linalg.norm(y[j * N:(j + 1) * N]) for j in range(3)]
                    same('fields %d at %g' % (i, z), ask(q, z, y.copy()), m.d(z, y), rtol=1e-8, scale=m.strength(z) * max(n[0] * n[1], n[0] * n[2], n[1] * n[2]))
                    rec.step()
                rec.state(sc, N, f)
    rec.outcome(sc)


def start(N, init):
    k = np.arange(N) - N // 2
    g = np.exp(-(k / 1.5) ** 2).astype(complex)
    return [(g * np.exp(0.4j * k), 0.2 * g), (g * np.exp(0.2j * k * k), 0.8 * np.roll(g, 1)), (0.1 * g, np.ones(N) * 0.5j), (np.where(k == 0, 1, 0) + 0j, np.where(k == 1, 0.3j, 0)),
            (g + 0.5 * np.roll(g, 1), 1j * g), (0.3 * g, 2 * g * np.exp(0.1j * k))][init]


def solve(m, y, L, n):
    """Fourth order with a domain boundary never inside a step; returns the field at L."""
    edges = [0.0]
    if m.period:
        i = 1
        while i * m.period / 2 < L * (1 - 1e-12):
            edges.append(i * m.period / 2)
            i += 1
    edges.append(L)
    for a, b in zip(edges[:-1], edges[1:]):
        s = m.sign(0.5 * (a + b))
        h = (b - a) / n
        for i in range(n):
            z = a + i * h
            k1 = m.d(z, y, s)
            k2 = m.d(z + h / 2, y + h / 2 * k1, s)
            k3 = m.d(z + h / 2, y + h / 2 * k2, s)
            k4 = m.d(z + h, y + h * k3, s)
            y = y + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
    return y


def do_integrate(sc, rec):
    _, kind, waist, gouy, init = sc
    N = 4
    L = {'ppln': 1.2e-4, 'se': 4e-4, 'simple': 2e-5}[kind]      # not phase matched in the last
    wl = CRY[kind][0]
    p, s = start(N, init)
    q, m = problem(kind, L, N, wl, waist, bool(gouy), True, (p, s))
    # powers that convert a good part within the crystal
    f = 0.7 / (m.strength(L / 2) * L)
    y = np.array(q.ystart, complex)
    y[2 * N:] = 0.0 if init else 1e-2
    y *= f
    y0 = y.copy()
    o = ODEint(y, 0.0, L, 1e-9, 1e-9, 1e-6, 0.0, Output(4), StepperDopr853, q)
    o.integrate()
    want = [solve(m, y0, L, n) for n in ((30, 60) if kind == 'ppln' else (150, 300))]
    err = np.abs(want[0] - want[1]).max()
    true('reference solution converged (%g)' % err, err < 1e-6 * np.abs(y0).max())
    true('something happened', float(np.abs(want[1] - y0).max()) > 1e-3 * np.abs(y0).max())
    same('fields behind the crystal', y, want[1], rtol=5e-6, scale=np.abs(y0).max())
    rec.step(o.nok + o.nbad)
    rec.state(np.round(y / f, 6), sc)
    rec.outcome(sc)
