"""C30: the grating compressor model is self-consistent."""
import itertools
import math

import numpy as np
from pynlo.devices.grating_compressor import TreacyCompressor
from pynlo.light.DerivedPulses import GaussianPulse, SechPulse

from mc import dfg as D
from mc import pulses as P
from mc.core import Machine, Violation, exact, same, true
from mc.ref import C_NMPS, Grid, PI2, at_of

LEVEL = 'model_checking'
BOUNDS = ('the product of 6 rulings x 9 angles x 9 wavelengths (thorough 10 x 14 x 25), kept where the color is diffracted, x 4 separations for angles, group delay, delay-dispersion and derivatives of orders 3 to 5; '
          'phase on pulses: rulings x angles x wavelengths x 3 separations x 4 grids; all orders of 3 uses of two compressors on two pulses')
CHUNK = 4
C = 299792458.0
SEP = (1e-3, 0.01, 0.115, -0.02)


def grids(tier):
    if tier == 'quick':
        return (300.0, 600.0, 1000.0, 1250.0, 1480.0, 1740.0), (0.02, 5.0, 15.0, 27.5, 35.0, 41.5, 50.0, 60.0, 75.0), (400.0, 532.0, 800.0, 1030.0, 1060.0, 1300.0, 1550.0, 1900.0, 2500.0)
    return (150.0, 300.0, 450.0, 600.0, 830.0, 1000.0, 1250.0, 1480.0, 1740.0, 2400.0), tuple(np.linspace(2.0, 80.0, 14)), tuple(np.linspace(380.0, 2600.0, 25))


class Ref:
    """Treacy's equations, from the class documentation."""
    def __init__(self, lpm, deg):
        self.d, self.g = 1e-3 / lpm, math.radians(deg)

    def sinb(self, w):
        return PI2 * C / (w * self.d) - math.sin(self.g)

    def cosb(self, w):
        return np.sqrt(1 - self.sinb(w) ** 2 + 0j) if np.iscomplexobj(w) else np.sqrt(1 - self.sinb(w) ** 2)

    def tau(self, w, G):
        """Single pass delay b (1 + cos theta)/c, theta = g - beta."""
        cb = self.cosb(w)
        ct = math.cos(self.g) * cb + math.sin(self.g) * self.sinb(w)
        return G / cb * (1 + ct) / C

    def dtau(self, w, G):
        cb = self.cosb(w)
        return -4 * math.pi ** 2 * C * G / cb / (w ** 3 * self.d ** 2 * cb ** 2)

    def ok(self, wl, margin=0.97):
        return abs(self.sinb(PI2 * C / (wl * 1e-9))) < margin


def cauchy(f, w, n, r):
    """n-th derivative of an analytic function."""
    z = np.exp(2j * math.pi * np.arange(256) / 256)
    return float(math.factorial(n) * np.mean(f(w + r * z) / (r * z) ** n).real)


def combos(tier, margin=0.97):
    L, A, W = grids(tier)
    for lpm, a in itertools.product(L, A):
        ws = [w for w in W if Ref(lpm, a).ok(w, margin)]
        if ws:
            yield lpm, a, ws


def scenarios(tier):
    for lpm, a, ws in combos(tier):
        yield ['curve', lpm, a, ws]
    for lpm, a, ws in combos('quick', 0.9):
        for gi in range(len(PULSES)):
            if tier != 'quick' or (gi + int(a)) % 2 == 0:
                yield ['pulse', lpm, a, ws[::2] if tier == 'quick' else ws, gi]
    for lpm, a, wl in ((600.0, 27.5, 1550.0), (1250.0, 35.0, 1030.0), (300.0, 5.0, 800.0)):
        for gi in range(len(BIG)):
            yield ['pulse', lpm, a, [wl], gi + len(PULSES)]
    for seq in itertools.product(range(4), repeat=3 if tier == 'quick' else 5):
        yield ['uses', list(seq)]


PULSES = [(16, 1.0), (32, 4.0), (64, 3.0), (8, 0.4)]
BIG = [(256, 10.0), (1024, 20.0)]


def run(sc, rec):
    globals()['do_' + sc[0]](sc, rec)


def do_curve(sc, rec):
    _, lpm, a, ws = sc
    r = Ref(lpm, a)
    t = TreacyCompressor(lpm, a)
    wl = np.array(ws)
    w0 = wl.copy()
    th = t.calc_theta(wl)
    exact('wavelengths passed in', wl, w0)
    same('grating equation at %s/mm, %s deg' % (lpm, a), np.sin(r.g - th) + math.sin(r.g), wl * 1e-9 / r.d, rtol=0, atol=1e-12)
    true('diffraction angles are within +-90 degrees', bool(np.all(np.abs(r.g - th) <= math.pi / 2)))
    # colors diffracted close to the surface of the grating, on either side
    graze = np.array([v for v in (s * x for s in (1, -1) for x in (0.975, 0.99, 0.9995, 0.99999, 1 - 1e-8)) if (v + math.sin(r.g)) * r.d > 5e-8])
    if len(graze):
        gw = (graze + math.sin(r.g)) * r.d * 1e9
        gt = t.calc_theta(gw.copy())
        same('grating equation close to grazing, %s/mm, %s deg' % (lpm, a), np.sin(r.g - gt), graze, rtol=0, atol=1e-12)
        for x, v, y in zip(gw, graze, gt):
            same('angle of one color close to grazing', t.calc_theta(float(x)), y, rtol=1e-12, atol=1e-7 if abs(v) > 0.9999999 else 1e-10)
        k = np.abs(graze) < 0.9999
        same('delay close to grazing', t.calc_dphi_domega(PI2 * C / (gw[k] * 1e-9), 0.1), r.tau(PI2 * C / (gw[k] * 1e-9), 0.1), rtol=1e-7)
        same('dispersion close to grazing', t.calc_dt_dw_singlepass(gw[k].copy(), 0.1), r.dtau(PI2 * C / (gw[k] * 1e-9), 0.1), rtol=1e-7)
        rec.step(3)
    om = PI2 * C / (wl * 1e-9)
    for G in SEP:
        w = '%s/mm, %s deg, %g m' % (lpm, a, G)
        tau = t.calc_dphi_domega(om, G)
        same(w + ': group delay', tau, r.tau(om, G), rtol=1e-9)
        disp = t.calc_dt_dw_singlepass(wl, G)
        same(w + ': delay-dispersion', disp, r.dtau(om, G), rtol=1e-9)
        for x, o, tt, dd in zip(ws, om, tau, disp):
            w2 = w + ', %g nm' % x
            same(w2 + ': angle of one color', t.calc_theta(x), th[ws.index(x)], rtol=1e-12, atol=1e-14)
            same(w2 + ': delay of one color', t.calc_dphi_domega(float(o), G), tt, rtol=1e-12)
            same(w2 + ': dispersion of one color', t.calc_dt_dw_singlepass(x, G), dd, rtol=1e-12)
            same(w2 + ': dispersion is proportional to separation', dd / G, disp_1(t, x), rtol=1e-11)
            true(w2 + ': dispersion is negative', dd / G < 0)
            # derivative of the delay the code itself reports
            h = o * 1e-4
            f = lambda k: t.calc_dphi_domega(float(o + k * h), G)
            num = (45 * (f(1) - f(-1)) - 9 * (f(2) - f(-2)) + (f(3) - f(-3))) / (60 * h)
            same(w2 + ': dispersion is the derivative of the delay', dd, num, rtol=1e-5)
            g = t.calc_compressor_gdd(x, G)
            same(w2 + ': round trip', g, 2 * dd, rtol=1e-12)
            room = min(abs(o - PI2 * C / (r.d * (math.sin(r.g) + 1))), abs(o - PI2 * C / (r.d * abs(math.sin(r.g) - 1)))) if abs(math.sin(r.g) - 1) > 1e-9 else abs(o - PI2 * C / (r.d * (math.sin(r.g) + 1)))
            if room > 2e13:
                for n, tol in ((3, 1e-6), (4, 1e-5), (5, 1e-3)):
                    s = cauchy(lambda z: 2 * r.dtau(z, G), o, n - 2, 0.5 * min(room, 0.5 * o))
                    nat = abs(g) * math.factorial(n - 2) / min(room, o) ** (n - 2)
                    same(w2 + ': order %d' % n, float(t.calc_compressor_HOD(x, G, n)), s, rtol=tol, atol=tol * 1e-2 * nat)
                n1 = t.calc_compressor_dnphi_domega_n(x, G, 1)
                same(w2 + ': first derivative of the delay in fs^2', float(n1), dd * 1e30, rtol=1e-4)
                for n, tol in ((2, 1e-4), (3, 2e-2)):
                    v = float(t.calc_compressor_dnphi_domega_n(x, G, n))
                    d = cauchy(lambda z: r.dtau(z, G), o, n - 1, 0.5 * min(room, 0.5 * o))
                    nat = abs(dd) * math.factorial(n - 1) / min(room, o) ** (n - 1)
                    u = 1e15 ** (n + 1)
                    same(w2 + ': derivative %d of the delay in fs^%d' % (n, n + 1), v, d * u, rtol=tol, atol=(tol * nat + 1e-14 * abs(tt) / (5e11) ** n) * u)
            rec.step(8)
        rec.state(lpm, a, G)
    for bad in (2, 1, 0, -1):
        try:
            t.calc_compressor_HOD(ws[0], 0.01, bad)
        except ValueError:
            continue
        raise Violation('order %d accepted' % bad)
    for bad in (0, -1):
        try:
            t.calc_compressor_dnphi_domega_n(ws[0], 0.01, bad)
        except ValueError:
            continue
        raise Violation('derivative %d accepted' % bad)
    rec.outcome(lpm, a)


def disp_1(t, x):
    return t.calc_dt_dw_singlepass(x, 1.0)


def phase_matches(what, g, got, old, r, G, order=1.0):
    """got/old is a pure phase with the dispersion of order passes, apart
    from a constant and a pure delay."""
    W = g.W * 1e12
    w0 = PI2 * g.f0 * 1e12
    x, wt = np.polynomial.legendre.leggauss(60)
    half = (W - w0) / 2
    phi = order * np.array([h * np.sum(wt * 2 * r.tau(w0 + h * (1 + x), G)) for h in half])
    phi = phi - np.polyval(np.polyfit(g.V, phi, 1), g.V)
    keep = np.abs(old) > 1e-9 * np.abs(old).max()
    
    same(what + ': amplitudes', np.abs(got), np.abs(old), rtol=1e-11)
    true('test field is non-zero everywhere', bool(np.all(keep)))
    q = got / old * np.exp(-1j * phi)
    c = g.N // 2
    q = q * np.exp(-1j * np.angle(q[c + 1] / q[c]) * np.arange(g.N))
    u = np.unwrap(np.angle(q / q[c]))
    u = u - np.polyval(np.polyfit(g.k, u, 1), g.k)
    s = np.abs(phi).max()
    if not np.abs(u).max() <= 1e-6 * s + 1e-6 + 1e-10 * abs(order * r.tau(w0, G)) * np.ptp(W):
        raise Violation('%s: the phase differs by %g rad (of %g)' % (what, np.abs(u).max(), s))
    return s


def do_pulse(sc, rec):
    _, lpm, a, ws, gi = sc
    N, T = (PULSES + BIG)[gi]
    r = Ref(lpm, a)
    t = TreacyCompressor(lpm, a)
    for wl in ws:
        g = Grid(N, C_NMPS / wl, T)
        if g.W.min() <= 0 or not all(r.ok(x, 0.98) for x in g.wl):
            continue
        for G in (1e-3, 0.02, -0.005):
            A = (1 + 0.3 * np.cos(g.k)) * np.exp(0.2j * g.k - (g.k / (0.6 * N)) ** 2)
            if G == 0.02:       # weak bins next to strong ones
                A = A * 10.0 ** (-7 * (np.abs(g.k) % 4) / 3.0)
            elif G < 0:
                A = A * 1e-15
            p = D.blank(N, T, wl, AW=A)
            b = P.observe(p)
            t.apply_phase_to_pulse(G, p)
            o = P.observe(p)
            for n in b:
                if n not in ('AW', 'AT'):
                    d = P.differs({n: b[n]}, o)
                    true('%s changed' % n, d is None)
            w = '%s/mm, %s deg, %g nm, %g m' % (lpm, a, wl, G)
            s = phase_matches(w, g, p.AW, b['AW'], r, G)
            same(w + ': energy', float(np.sum(np.abs(p.AT) ** 2)), float(np.sum(np.abs(at_of(g, A)) ** 2)), rtol=1e-9)
            same(w + ': time domain', p.AT, at_of(g, np.asarray(p.AW)), rtol=1e-9)
            # the curvature at the center is the advertised round-trip GDD
            rec.step()
            rec.state(lpm, a, wl, G, N)
            rec.outcome(round(math.log10(s + 1e-9)))


def do_uses(sc, rec):
    """Two compressors and two pulses used in any order."""
    _, seq = sc
    spec = [(600.0, 27.5), (1000.0, 31.0)]
    cs = [TreacyCompressor(*s) for s in spec]
    gs = [Grid(16, C_NMPS / 1550.0, 2.0), Grid(32, C_NMPS / 1040.0, 3.0)]
    ps = [D.blank(g.N, g.T, C_NMPS / g.f0, AW=np.exp(-(g.k / g.N) ** 2)) for g in gs]
    first = [np.array(p.AW) for p in ps]
    ops = [(0, 0), (1, 1), (1, 1), (0, 0)]
    done = [0, 0]
    G = 0.01
    for k in seq:
        if k == 2:      # ask for other colors and separations in between
            cs[1].calc_compressor_gdd(1040.0, 0.5)
            cs[0].calc_theta(1550.0, display_angle=True)
            cs[0].calc_compressor_HOD(1550.0, 0.3, 3)
            continue
        ci, pi = ops[k]
        sg = -1 if k == 3 else 1
        cs[ci].apply_phase_to_pulse(sg * G, ps[pi])
        done[pi] += sg
        rec.step()
    for pi in (0, 1):
        phase_matches('after %s, pulse %d' % (seq, pi), gs[pi], np.array(ps[pi].AW), first[pi], Ref(*spec[pi]), G, done[pi])
    for ci in (0, 1):
        same('GDD of compressor %d' % ci, cs[ci].calc_compressor_gdd(1300.0 - 300 * ci, G), 2 * Ref(*spec[ci]).dtau(PI2 * C / ((1300.0 - 300 * ci) * 1e-9), G), rtol=1e-10)
    rec.state(seq)
    rec.outcome(done)


class Uses(Machine):
    """Two compressors asked about two colors and two separations in any order."""
    SPEC = [(600.0, 27.5), (1250.0, 41.0)]
    WL = [(1030.0, 1550.0), (1030.0, 1064.0)]
    G = (0.02, -0.003)

    def __init__(self, init):
        Machine.__init__(self, init)
        self.c = [TreacyCompressor(*s) for s in self.SPEC]
        self.r = [Ref(*s) for s in self.SPEC]
        self.g = Grid(8, C_NMPS / 1030.0, 1.0)
        self.p = D.blank(8, 1.0, 1030.0, AW=np.exp(-(self.g.k / 8.0) ** 2))
        self.first = np.array(self.p.AW)
        self.phi = []
        self.buf = np.array([1030.0, 1064.0])

    def ops(self):
        out = [[k, j, w, s] for k in ('theta', 'tau', 'disp', 'gdd', 'hod', 'slope') for j in (0, 1) for w in (0, 1) for s in (0, 1) if not (k == 'theta' and s)]
        return out + [['put', j, 0, s] for j in (0, 1) for s in (0, 1)] + [['curve', j, 0, s] for j in (0, 1) for s in (0, 1)] + [['refill', 0, 0, 0]]

    def apply(self, op):
        k, j, w, s = op
        c, r, G, wl = self.c[j], self.r[j], self.G[s], self.WL[j][w]
        o = PI2 * C / (wl * 1e-9)
        what = '%s of compressor %d at %g nm, %g m' % (k, j, wl, G)
        if k == 'theta':
            same(what, c.calc_theta(wl), r.g - math.asin(r.sinb(o)), rtol=1e-9)
        elif k == 'tau':
            same(what, c.calc_dphi_domega(o, G), float(r.tau(o, G)), rtol=1e-9)
        elif k == 'disp':
            same(what, c.calc_dt_dw_singlepass(wl, G), float(r.dtau(o, G)), rtol=1e-9)
        elif k == 'gdd':
            same(what, c.calc_compressor_gdd(wl, G), 2 * float(r.dtau(o, G)), rtol=1e-9)
        elif k == 'hod':
            same(what, float(c.calc_compressor_HOD(wl, G, 3)), cauchy(lambda z: 2 * r.dtau(z, G), o, 1, 1e14), rtol=1e-5)
        elif k == 'slope':
            same(what, float(c.calc_compressor_dnphi_domega_n(wl, G, 1)), float(r.dtau(o, G)) * 1e30, rtol=1e-4)
        elif k == 'put':
            c.apply_phase_to_pulse(G, self.p)
            self.phi.append((j, s))
        elif k == 'curve':          # an array the caller may fill again
            o = PI2 * C / (self.buf * 1e-9)
            same(what, c.calc_dphi_domega(o, G), r.tau(o, G), rtol=1e-9)
            same(what, c.calc_dt_dw_singlepass(self.buf, G), r.dtau(o, G), rtol=1e-9)
            same(what, np.sin(r.g - c.calc_theta(self.buf)), r.sinb(o), rtol=1e-9)
        else:
            self.buf[:] = self.buf[::-1] + 7.0

    def probe(self):
        if self.phi:
            class Sum:
                def tau(_, w, G):
                    return sum(self.r[j].tau(w, self.G[s]) for j, s in self.phi)
            phase_matches('phases %s' % self.phi, self.g, np.array(self.p.AW), self.first, Sum(), 1.0)
        else:
            exact('pulse', self.p.AW, self.first)

    def canon(self):
        from mc.state import fingerprint
        return fingerprint([vars(c) for c in self.c], vars(self.p), sorted(self.phi), self.buf)


MACHINES = {'Uses': Uses}


def machines(tier):
    yield 'Uses', 0, 2 if tier == 'quick' else 3
