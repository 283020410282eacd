"""C24: three-wave mixing conserves energy and photons (waveguide geometry)."""
import itertools
import math

import numpy as np
from pynlo.util.ode_solve.steppers import ODEint, Output
from pynlo.util.ode_solve.dopr853 import StepperDopr853

from mc import dfg as D
from mc.core import Violation, exact, same, true

LEVEL = 'model_checking'
BOUNDS = ('all pairs and all triples of basis fields (pump, signal, idler) with 3 phases for 4 and 8 points (thorough: 16), x 5 positions (both poling signs), 3 mode areas, 3 nonlinearities, 4 crystals (two PPLN temperatures/periods, '
          'two without poling), 3 wavelength sets, Gouy flag on and off, both FFT back ends; 8 dense fields and 8 scalings of each; 48 (thorough 216) full integrations')
CHUNK = 2
WLS = [(1064.0, 1550.0), (1030.0, 1700.0), (780.0, 1300.0)]
POSITIONS = [0.0, 7.1e-6, 22.7e-6, 1.3e-3, 4.9e-3]
CRY = ['ppln', 'deng', 'simple', 'steep']
STRENGTH = 1e-7    # about 2 n^-3/2 c^-3/2 eps0^-1/2
PAIRS = [('p', 's', 'i'), ('p', 'i', 's'), ('s', 'i', 'p')]


def crystal(kind, deff=None):
    if kind == 'ppln':
        c = D.PPLN(45.0, length=0.005)
    elif kind == 'deng':
        c = D.PPLN(30.0, length=0.005)
        c.load(100.0, data_source='Deng')
        c.set_pp((18.3e-6,))
    elif kind == 'simple':
        c = D.Simple(0.005)
    else:
        c = D.Simple(0.005, slope=0.3)
    if deff is not None:
        c.deff = deff
    return c


def problem(kind='ppln', N=8, T=1.6, wl=0, aeff=20.0, deff=None, fftw=True, gouy=False, fields=None, cry=None):
    p = D.blank(N, T, WLS[wl][0], AW=None if fields is None else fields[0])
    s = D.blank(N, T, WLS[wl][1], AW=None if fields is None else fields[1])
    c = cry if cry is not None else crystal(kind, deff)
    with D.fftw(fftw):
        q = D.dfg_problem(p, s, c, disable_SPM=True, wg_mode=True, Aeff_squm=aeff, apply_gouy_phase=gouy)
    return q, c


class Model:
    """What the documented equations say, from public quantities only."""
    def __init__(self, q, c, N, T, wl, aeff):
        lp, ls = WLS[wl]
        li = 1 / (1 / lp - 1 / ls)
        dw = 2 * math.pi / (T * 1e-12)
        k = np.arange(N) - N // 2
        self.W = {x: 2 * math.pi * D.C / (l * 1e-9) + k * dw for x, l in (('p', lp), ('s', ls), ('i', li))}
        self.n = {x: np.asarray(c.n(2 * math.pi * D.C / w * 1e9)) for x, w in self.W.items()}
        self.k = {x: self.n[x] * self.W[x] / D.C for x in 'psi'}
        self.N, self.c, self.aeff = N, c, aeff * 1e-12
        self.off = {'p': 0, 's': N, 'i': 2 * N}

    def sign(self, z):
        if self.c.mode != 'PP':
            return 1.0
        L = self.c.pp(0)
        return 1.0 if (z / L) % 1.0 < 0.5 else -1.0

    def pair(self, x, a, y, b, t, z):
        """Index k and coefficient of field t driven by x[a], y[b]."""
        N = self.N
        if t == 'p':
            k = a + b - N // 2
        else:
            k = a - b + N // 2
        if not 0 <= k < N:
            return None
        W, n = self.W[t][k], self.n
        nn = n[x][a] * n[y][b] * n[t][k]
        coef = W * self.c.deff * self.sign(z) / math.sqrt(self.aeff * nn)
        if t == 'p':
            dk = self.k[x][a] + self.k[y][b] - self.k[t][k]
        else:
            dk = self.k[x][a] - self.k[y][b] - self.k[t][k]
        return k, coef * np.exp(1j * dk * z)


_KAPPA = {}


def kappa():
    """The one constant of proportionality, calibrated on one pair."""
    if 'k' not in _KAPPA:
        q, c = problem('simple', 4, 1.6, 0, 20.0)
        m = Model(q, c, 4, 1.6, 0, 20.0)
        y = np.zeros(12, complex)
        y[2] = 1
        y[6] = 1
        d = np.zeros(12, complex)
        q.deriv(0.0, y, d)
        k, co = m.pair('p', 2, 's', 2, 'i', 0.0)
        _KAPPA['k'] = d[8 + k] / co
    return _KAPPA['k']


def rates(q, m, y, d, N):
    """Power and photon rates from the returned derivative."""
    pw = sum(2 * np.real(np.vdot(y[o:o + N], d[o:o + N])) for o in m.off.values())
    ph = {x: float(np.sum(2 * np.real(np.conj(y[o:o + N]) * d[o:o + N]) / m.W[x])) for x, o in m.off.items()}
    # rounding of a fast convolution is relative to the norms of its factors
    scale = 2 * np.sum(np.abs(y) * np.abs(d)) + 6 * STRENGTH * np.max(m.W['p']) * abs(m.c.deff) / math.sqrt(m.aeff) * np.prod([np.linalg.norm(y[o:o + N]) for o in m.off.values()])
    return pw, ph, scale


def conserved(what, q, m, y, z, N, dead=False):
    d = np.zeros(3 * N, complex)
    y0 = y.copy()
    q.deriv(z, y, d)
    exact(what + ': state vector', y, y0)
    pw, ph, sc = rates(q, m, y, d, N)
    true(what + ': finite', bool(np.all(np.isfinite(d))))
    same(what + ': change of total power', pw, 0.0, rtol=0, atol=1e-11 * sc)
    psc = sc / np.min(m.W['i'])
    same(what + ': signal photons gained per pump photon lost', ph['s'], -ph['p'], rtol=0, atol=1e-11 * psc)
    same(what + ': idler photons gained per pump photon lost', ph['i'], -ph['p'], rtol=0, atol=1e-11 * psc)
    return d


def configs(tier):
    for kind in CRY:
        for wl in range(len(WLS)):
            for aeff in (5.0, 20.0, 300.0):
                yield kind, wl, aeff


def scenarios(tier):
    q = tier == 'quick'
    for N in (4, 8) if q else (4, 8, 16):
        for kind, wl, aeff in configs(tier):
            if N == 16 and (aeff != 20.0 or wl):
                continue
            for fftw in (True, False):
                yield ['pairs', N, kind, wl, aeff, fftw]
                if N == 4 or aeff == 20.0:
                    yield ['triples', N, kind, wl, aeff, fftw]
            yield ['dense', N, kind, wl, aeff]
    for kind in ('ppln', 'simple', 'steep') if q else CRY:
        for wl in (0, 1) if q else range(len(WLS)):
            for level in (0.0, 30.0, 3e3) if q else (0.0, 1.0, 30.0, 3e3, 2e4):
                for init in (0, 1, 2, 3):
                    yield ['integrate', kind, wl, level, init]
    for kind in CRY:
        for N in (4, 8, 16):
            yield ['still', kind, N]


def run(sc, rec):
    globals()['do_' + sc[0]](sc, rec)


def do_pairs(sc, rec):
    _, N, kind, wl, aeff, fftw = sc
    kap = kappa()
    base = crystal(kind).deff
    for deff, gouy in ((None, False), (-base / 3, False), (1e-14, True)):
        q, c = problem(kind, N, 1.6, wl, aeff, deff, fftw, gouy)
        m = Model(q, c, N, 1.6, wl, aeff)
        for z in POSITIONS:
            for x, yy, t in PAIRS:
                for a, b in itertools.product(range(N), repeat=2):
                    y = np.zeros(3 * N, complex)
                    va, vb = 2.0 * np.exp(0.7j * a), 0.5 * np.exp(-1.1j * b)
                    y[m.off[x] + a] = va
                    y[m.off[yy] + b] = vb
                    d = conserved('fields %s[%d], %s[%d] at %g' % (x, a, yy, b, z), q, m, y, z, N)
                    want = np.zeros(3 * N, complex)
                    r = m.pair(x, a, yy, b, t, z)
                    s = abs(kap) * np.max(m.W['p']) * abs(c.deff) / math.sqrt(m.aeff)
                    if r is not None:
                        want[m.off[t] + r[0]] = kap * r[1] * va * (vb if t == 'p' else np.conj(vb))
                    same('fields %s[%d], %s[%d] at %g' % (x, a, yy, b, z), d, want, rtol=1e-8, scale=s)
                    rec.step()
            rec.state(N, kind, wl, aeff, z, deff)
    rec.outcome(N, kind, wl, aeff)


def do_triples(sc, rec):
    _, N, kind, wl, aeff, fftw = sc
    q, c = problem(kind, N, 1.6, wl, aeff, None, fftw)
    m = Model(q, c, N, 1.6, wl, aeff)
    for a, b, e in itertools.product(range(N), repeat=3):
        for ph, z in ((1.0, 0.0), (1j, POSITIONS[2]), (np.exp(2.5j), POSITIONS[3]), (0.3 - 0.1j, POSITIONS[4])):
            y = np.zeros(3 * N, complex)
            y[a], y[N + b], y[2 * N + e] = 1.5, 0.7j, ph
            d = conserved('pump[%d] signal[%d] idler[%d] at %g' % (a, b, e, z), q, m, y, z, N)
            rec.step()
            if ph == 1j and a + 0 == b + e - N // 2:
                true('the triple is coupled', float(np.abs(d).max()) > 0)
        rec.state(N, kind, wl, a, b, e)
    rec.outcome(N, kind, wl, aeff)


def fields(N):
    k = np.arange(3 * N)
    x = (k % N - N / 2.0) / N
    z0 = np.zeros(3 * N, complex)
    one = np.ones(3 * N, complex)
    noi = np.where(k < 2 * N, np.exp(-20 * x * x + 1j * k), 0)
    return [one, np.exp(1j * k ** 2 / 3.0), np.exp(-20 * x ** 2) * (1 + 2j), noi, 1e-6 * np.exp(2j * k) + one * 1e3,
            np.where(k < N, 1e3, 1e-3) * np.exp(1j * np.sin(k * 3.0)), (-1.0) ** k * (1 + k) + 0j, z0]


def do_dense(sc, rec):
    _, N, kind, wl, aeff = sc
    q, c = problem(kind, N, 1.6, wl, aeff)
    m = Model(q, c, N, 1.6, wl, aeff)
    q2, c2 = problem(kind, N, 1.6, wl, 4 * aeff)
    q3, c3 = problem(kind, N, 1.6, wl, aeff, 3 * c.deff)
    q4, c4 = problem(kind, N, 1.6, wl, 4 * aeff, -6 * c.deff)
    for iv, v in enumerate(fields(N)):
        for z in POSITIONS:
            w = 'field %d at %g' % (iv, z)
            d = conserved(w, q, m, v.copy(), z, N)
            s = np.abs(d).max()
            same(w + ': four times the area, twice the field', conserved(w, q2, m, 2 * v, z, N), 2 * d, rtol=1e-10, scale=s)
            same(w + ': three times the nonlinearity', conserved(w, q3, m, v.copy(), z, N), 3 * d, rtol=1e-10, scale=s)
            same(w + ': area and nonlinearity', conserved(w, q4, m, v.copy(), z, N), -3 * d, rtol=1e-10, scale=s)
            for lam in (0.5, -2.0, 1e-5, 1e4, 1e-17, 1e11):
                same(w + ': scaled by %g' % lam, conserved(w, q, m, lam * v, z, N), lam * lam * d, rtol=1e-10, scale=s * lam * lam)
            # constant phases with phi_p = phi_s + phi_i leave the physics alone
            ph = np.repeat(np.exp(1j * np.array([0.9, 0.4, 0.5])), N)
            same(w + ': rotated phases', conserved(w, q, m, ph * v, z, N), ph * d, rtol=1e-10, scale=s)
            rec.step(9)
            rec.state(d)
    rec.outcome(N, kind, wl)


def initial(N, kind):
    k = np.arange(N) - N // 2
    g = np.exp(-(k / 1.5) ** 2).astype(complex)
    if kind == 0:
        p, s = np.where(k == 0, 1.0, 0) + 0j, np.where(k == 0, 0.3j, 0)
    elif kind == 1:
        p, s = g * np.exp(0.4j * k), 0.2 * g
    elif kind == 2:
        p, s = g * np.exp(0.2j * k * k), 0.8 * np.roll(g, 1)
    else:
        p, s = 0.01 * g, np.ones(N) * 0.5j
    return p * (1 + 0j), s * (1 + 0j)


def integrate(q, y, L, n=6, tol=1e-9, h1=1e-6):
    out = Output(n)
    o = ODEint(y, 0.0, L, tol, tol, h1, 0.0, out, StepperDopr853, q)
    o.integrate()
    return o, out


def do_integrate(sc, rec):
    _, kind, wl, level, init = sc
    N, T = 8, 1.6
    L = 1.2e-4 if kind in ('ppln', 'deng') else 1.2e-3
    if kind in ('ppln', 'deng'):
        c = D.PPLN(45.0, length=L)
        c.set_pp((c.calculate_poling_period(WLS[wl][0], WLS[wl][1], None, delta_k_L=0, silent=True)[0],))
    else:
        c = D.Simple(L, slope=0.3 if kind == 'steep' else 0.0)
    p, s = initial(N, init)
    f = math.sqrt(level)
    q, c = problem(kind, N, T, wl, 10.0, fields=(p * f, s * f), cry=c)
    m = Model(q, c, N, T, wl, 10.0)
    y = np.array(q.ystart, complex)
    y[2 * N:] = 0.0 if init else 1e-3 * f
    y0 = y.copy()
    tol = 1e-9
    o, out = integrate(q, y, L, tol=tol)
    E0 = np.sum(np.abs(y0) ** 2)
    rows = [np.asarray(out.ysave[i]) for i in range(out.count)] + [y]
    for i, r in enumerate(rows):
        w = 'record %d' % i
        same(w + ': total power', np.sum(np.abs(r) ** 2), E0, rtol=1e-6, atol=1e-6 * tol)
        dn = {x: float(np.sum((np.abs(r[k:k + N]) ** 2 - np.abs(y0[k:k + N]) ** 2) / m.W[x])) for x, k in m.off.items()}
        s = E0 / np.min(m.W['i'])
        same(w + ': signal photons', dn['s'], -dn['p'], rtol=0, atol=1e-6 * s)
        same(w + ': idler photons', dn['i'], -dn['p'], rtol=0, atol=1e-6 * s)
        rec.step()
    if level == 0:
        exact('nothing in, nothing out', y, y0)
    rec.state(np.round(y, 6), kind)
    rec.notes['steps'] += o.nok + o.nbad
    rec.outcome(kind, wl, level, init)


def do_still(sc, rec):
    """No partner field or no nonlinearity: nothing changes."""
    _, kind, N = sc
    g = fields(N)[1]
    for deff in (None, 0.0):
        q, c = problem(kind, N, 1.6, 0, 20.0, deff)
        for z in POSITIONS:
            for keep in ((0,), (1,), (2,)) if deff is None else ((0, 1, 2),):
                y = np.zeros(3 * N, complex)
                for j in keep:
                    y[j * N:(j + 1) * N] = g[j * N:(j + 1) * N]
                d = np.full(3 * N, 9.0, complex)
                q.deriv(z, y, d)
                same('derivative of %s alone, nonlinearity %r' % (keep, deff), d, np.zeros(3 * N), rtol=0, atol=1e-300)
                rec.step()
                rec.state(y, z, deff)
    # and after a full integration
    q, c = problem(kind, N, 1.6, 0, 20.0, 0.0)
    c2 = q.crystal
    y = fields(N)[2].copy()
    y0 = y.copy()
    o, out = integrate(q, y, 1e-3)
    same('without nonlinearity, after %d steps' % (o.nok + o.nbad), y, y0, rtol=1e-15)
    rec.outcome(kind, N)
