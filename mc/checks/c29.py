"""C29: crystal dispersion, phase matching and poling agree with the index."""
import itertools
import math

import numpy as np

from mc import dfg as D
from mc import xtal as X
from mc.core import Machine, Violation, exact, raises, same, true
from mc.state import fingerprint

LEVEL = 'model_checking'
BOUNDS = ('the full product of crystal (3) x data source x temperature (7) or angle (7) x axis x 40 (thorough 200) wavelengths for index, velocity, delay and dispersion; all pump x signal pairs of a 9 x 11 (thorough 20 x 30) grid with each of the three wavelengths omitted '
          'for poling periods (x 4 offsets, 3 lengths), bandwidth, inversion and phase-matching angle; 6 poling profiles x 21 positions x all orders of setting two of them; all histories of <=2 (thorough 3) queries and changes on two crystals in 3 (5) pairings')
CHUNK = 2
C = 299792.458           # nm/ps
RANGE = {'PPLN': (700.0, 4500.0), 'AgGaSe2': (1000.0, 12000.0), 'AgGaS2': (700.0, 9000.0)}
TEMPS = (-15.0, 20.0, 24.5, 45.0, 70.0, 150.0, 200.0)
ANGLES = (0.0, 0.2, 0.6, math.pi / 4, 1.0, 1.4, math.pi / 2)


def models(kind):
    if kind == 'PPLN':
        return [X.Model('PPLN', T=T, source=s) for T in TEMPS for s in ('Deng', 'Gayer_5pctMg')]
    return [X.Model(kind, theta=a) for a in ANGLES]


def wavelengths(kind, tier):
    lo, hi = RANGE[kind]
    return np.linspace(lo, hi, 40 if tier == 'quick' else 200)


def slope(m, wl, axis):
    """dn/dlambda and d2n/dlambda2 of the equations by Richardson extrapolation."""
    f = lambda x: m.n(x, axis)

    def d1(h):
        return (f(wl + h) - f(wl - h)) / (2 * h)

    def d2(h):
        return (f(wl + h) - 2 * f(wl) + f(wl - h)) / h ** 2
    a = [(64 * d1(h) - 20 * d1(2 * h) + d1(4 * h)) / 45 for h in (0.5,)][0]
    b = [(64 * d2(h) - 20 * d2(2 * h) + d2(4 * h)) / 45 for h in (4.0,)][0]
    return a, b


def scenarios(tier):
    for kind in RANGE:
        for i in range(len(models(kind))):
            yield ['curve', kind, i, tier]
    for i in range(len(models('PPLN'))):
        yield ['period', i, tier]
        yield ['invert', i, tier]
        yield ['bandwidth', 'PPLN', i, tier]
    for kind in ('AgGaSe2', 'AgGaS2'):
        yield ['angle', kind, tier]
        for i in (1, 3):
            yield ['bandwidth', kind, i, tier]
    yield ['poling']
    yield ['errors']


def run(sc, rec):
    globals()['do_' + sc[0]](sc, rec)


def axes(kind):
    return (None,) if kind == 'PPLN' else ('o', 'e', 'mix')


def do_curve(sc, rec):
    _, kind, i, tier = sc
    m = models(kind)[i]
    wl = wavelengths(kind, tier)
    lengths = (None, 0.001, 0.02)
    for axis in axes(kind):
        c = X.make(kind, m, 0.005)
        w0 = wl.copy()
        n = c.n(wl, axis) if axis else c.n(wl)
        exact('wavelengths passed in', wl, w0)
        same('index, axis %s' % axis, n, m.n(wl, axis), rtol=1e-10)
        for x in wl[::7]:
            same('index at %g' % x, c.n(float(x), axis) if axis else c.n(float(x)), float(m.n(x, axis)), rtol=1e-10)
        dn, d2n = slope(m, wl, axis)
        vg = C / (m.n(wl, axis) - wl * dn)
        same('group velocity, axis %s' % axis, c.calculate_group_velocity_nm_ps(wl, axis), vg, rtol=1e-6)
        Dp = -(wl / C) * d2n * 1e12
        same('dispersion in ps/nm/km, axis %s' % axis, c.calculate_D_ps_nm_km(wl, axis), Dp, rtol=2e-4)
        for a, b in zip(c.calculate_D_ps_nm_km(wl, axis)[::5], Dp[::5]):
            same('dispersion, axis %s' % axis, a, b, rtol=1e-3, atol=1e-2)
        same('dispersion in fs/um/mm, axis %s' % axis, c.calculate_D_fs_um_mm(wl, axis), Dp, rtol=2e-4)
        for Lc in lengths:
            for a, b in itertools.product(range(0, len(wl), max(1, len(wl) // 6)), repeat=2):
                LL = 0.005 if Lc is None else Lc
                want = LL * 1e9 * (1 / vg[a] - 1 / vg[b])
                got = c.calculate_pulse_delay_ps(float(wl[a]), float(wl[b]), Lc, axis) if Lc is not None else c.calculate_pulse_delay_ps(float(wl[a]), float(wl[b]), axis=axis)
                same('delay between %g and %g' % (wl[a], wl[b]), got, want, rtol=1e-6, atol=LL * 1e9 / C * 1e-7)
                rec.step()
        rec.state(kind, i, axis)
        rec.outcome(kind, i, axis, np.round(vg[:3]))
    if kind != 'PPLN':
        c = X.make(kind, m, 0.005)
        o, e, x = c.n(wl, 'o'), c.n(wl, 'e'), c.n(wl, 'mix')
        true('mixed index between ordinary and extraordinary', bool(np.all((x - np.minimum(o, e) > -1e-12) & (np.maximum(o, e) - x > -1e-12))))
        same('default axis', c.n(wl), x, rtol=1e-14)
        if m.theta == 0:
            same('no angle', x, o, rtol=1e-12)
        if m.theta == math.pi / 2:
            same('right angle', x, e, rtol=1e-12)
        # the angle may be changed at any time
        for th in ANGLES:
            c.set_theta(th)
            same('index after set_theta(%g)' % th, c.n(wl, 'mix'), X.n_mix(kind, wl, th), rtol=1e-10)
            rec.step()
    else:
        c = X.make(kind, m, 0.005)
        for T in TEMPS:
            c.set_T(T)
            same('index after set_T(%g)' % T, c.n(wl), X.n_ppln(m.source, T, wl), rtol=1e-10)
            exact('temperature', c.T, T)
            rec.step()


def triples(tier, kind='PPLN'):
    ps, ss = (9, 11) if tier == 'quick' else (20, 30)
    lo, hi = RANGE[kind]
    for p in np.linspace(lo * 1.05, lo * 2.4, ps):
        for r in np.linspace(1.08, 1.92, ss):
            s = p * r
            i = 1 / (1 / p - 1 / s)
            if s < hi and i < hi:
                yield float(p), float(s), float(i)


def do_period(sc, rec):
    _, i, tier = sc
    m = models('PPLN')[i]
    for L in (0.001, 0.02, 1.0):
        c = X.make('PPLN', m, L)
        for p, s, d in triples(tier):
            w = [p, s, d]
            mis = sum(sg * m.n(x) * 2 * math.pi / (x * 1e-9) for sg, x in zip((1, -1, -1), w))
            for off in (3.2, 0.0, -1.0, 40.0):
                den = mis - off / L
                if abs(den) < 1e-6 * abs(mis) or abs(den) < 100.0:
                    continue
                want = 2 * math.pi / den
                name = 'pump %.4g, signal %.4g, offset %g, length %g' % (p, s, off, L)
                kw = {} if off == 3.2 else {'delta_k_L': off}
                got = c.calculate_poling_period(p, s, d, **kw)
                same(name, got, want, rtol=1e-7)
                for miss in range(3):
                    a = list(w)
                    a[miss] = None
                    r = c.calculate_poling_period(*a, silent=bool(miss % 2), **kw)
                    true(name + ': period and wavelength', len(r) == 2)
                    same(name + ': period without wavelength %d' % miss, r[0], want, rtol=1e-7)
                    same(name + ': wavelength %d' % miss, r[1], w[miss], rtol=1e-10)
                rec.step(4)
            rec.state(i, L, p, s)
    rec.outcome(i)


def do_invert(sc, rec):
    _, i, tier = sc
    m = models('PPLN')[i]
    L = 0.02
    c = X.make('PPLN', m, L)
    for p, s, d in triples(tier):
        mis = lambda x: sum(sg * m.n(y) * 2 * math.pi / (y * 1e-9) for sg, y in zip((1, -1, -1), (p, x, 1 / (1 / p - 1 / x)))) - 3.2 / L
        f = lambda x: 2 * math.pi / mis(x)
        top = 1.95 * p
        # the inverse exists where the period is monotonic over the search range
        xs = np.linspace(p * 1.001, top, 400)
        ys = np.array([f(x) for x in xs])
        if not (np.all(np.isfinite(ys)) and np.all(ys > 0) and (np.all(np.diff(ys) > 0) or np.all(np.diff(ys) < 0))):
            rec.notes['not monotonic'] += 1
            continue
        got = c.invert_dfg_qpm_to_signal_wl(p, f(s), max_signal_wl_nm=top)
        # with float wavelengths: the period needed by the answer is the given one
        same('pump %.4g, period of %.4g: answer %.6g needs' % (p, s, got), f(float(got)), f(s), rtol=2e-4)
        rec.step()
        rec.state(i, p, s)
    rec.outcome(i, 'invert')


def do_bandwidth(sc, rec):
    _, kind, i, tier = sc
    m = models(kind)[i]
    c = X.make(kind, m, 0.01)
    for axis in axes(kind):
        by = {}
        for p, s, d in triples(tier, kind):
            v = [C * 1e3 / (m.n(x, axis) - x * slope(m, x, axis)[0]) for x in (p, s, d)]
            a = [abs(1 / v[1] - 1 / v[0]), abs(1 / v[2] - 1 / v[0])]
            if min(a) * C * 1e3 < 1e-5:
                continue
            want = 0.886 * math.pi / max(a) / 299792458.0
            args = (p, s) if axis is None else (p, s, axis)
            same('bandwidth, pump %.4g, signal %.4g' % (p, s), c.calculate_mix_phasematching_bw(*args), want, rtol=1e-3)
            by.setdefault(p, []).append((s, want))
            rec.step()
        for p, l in by.items():
            sv = np.array([x for x, _ in l])
            got = c.calculate_mix_phasematching_bw(p, sv, axis)
            same('bandwidth of several signals', got, np.array([y for _, y in l]), rtol=1e-3)
            rec.state(kind, i, axis, p)
    rec.outcome(kind, i)


def do_angle(sc, rec):
    _, kind, tier = sc
    c = X.make(kind, X.Model(kind, theta=0.3), 0.01)
    found = none = 0
    for p, s, d in triples(tier, kind):
        no, ne = float(X.n_oe(kind, p, 'o')), float(X.n_oe(kind, p, 'e'))
        need = float(p * (X.n_oe(kind, s, 'o') / s + X.n_oe(kind, d, 'o') / d))
        lo, hi = min(no, ne), max(no, ne)
        w = 'pump %.5g, signal %.5g' % (p, s)
        if min(abs(need - lo), abs(need - hi)) < 1e-6:
            continue
        args = [(p, s, d), (None, s, d), (p, None, d), (p, s, None)]
        for j, a in enumerate(args):
            for ret in (False, True):
                if lo < need < hi:
                    r = c.phasematch(*a, return_wavelength=ret) if ret else c.phasematch(*a)
                    if ret and j:
                        true(w + ': angle and wavelength', len(r) == 2)
                        same(w + ': omitted wavelength', r[1], (None, p, s, d)[j], rtol=1e-10)
                        r = r[0]
                    th = float(r)
                    true(w + ': angle in the first quadrant', 0 <= th <= math.pi / 2)
                    same(w + ': index at the returned angle', float(X.n_mix(kind, p, th)), need, rtol=1e-9)
                    c2 = X.make(kind, X.Model(kind, theta=th), 0.01)
                    mis = 2 * math.pi * (c2.n(p, 'mix') / p - c2.n(s, 'o') / s - c2.n(d, 'o') / d)
                    same(w + ': mismatch', mis, 0.0, rtol=0, atol=1e-9 * 2 * math.pi * need / p)
                    found += 1
                else:
                    raises(w + ': not possible', AttributeError, c.phasematch, *a, return_wavelength=ret)
                    none += 1
                rec.step()
        exact('angle of the crystal', c.theta, 0.3)
        rec.state(kind, p, s)
    rec.notes['phase-matched'] += found
    rec.notes['impossible'] += none
    rec.outcome(kind, found > 0, none > 0)


def do_poling(sc, rec):
    L = 0.008
    sets = {'tuple': (lambda c: c.set_pp((25e-6,)), lambda z: 25e-6), 'fn': (lambda c: c.set_pp(lambda x: 2e-5 + x * 1e-3), lambda z: 2e-5 + z * 1e-3),
            'sin': (lambda c: c.set_pp(math.cos), math.cos), 'chirp': (lambda c: c.set_pp_chirp(2e-5, 3e-5), lambda z: 2e-5 + 1e-5 * z / L),
            'down': (lambda c: c.set_pp_chirp(4e-5, 1e-5), lambda z: 4e-5 - 3e-5 * z / L), 'load': (lambda c: c.load(60.0), lambda z: 30.49e-6)}
    for a, b, e in itertools.product(sets, repeat=3):
        c, other = X.make('PPLN', None, L), X.make('PPLN', None, 2 * L)
        for k in (a, b):
            sets[k][0](c)
            for z in np.linspace(0, L, 21):
                same('%s then %s: period at %g' % (a, b, z), c.pp(float(z)), sets[k][1](float(z)), rtol=1e-12)
        sets[e][0](other)
        for z in np.linspace(0, L, 21):
            same('%s, %s on another: period at %g' % (b, e, z), c.pp(float(z)), sets[b][1](float(z)), rtol=1e-12)
        rec.step(3)
        rec.state(a, b, e)
    rec.outcome('poling')


def do_errors(sc, rec):
    for kind in ('AgGaSe2', 'AgGaS2'):
        c = X.make(kind)
        for bad in ('x', 'O', '', 'mixed'):
            raises('axis %r' % bad, ValueError, c.n, 2000.0, bad)
            rec.step()
    for kind in RANGE:
        for kw, want in (({}, 1.0), ({'length': 0.003}, 0.003)):
            c = {'PPLN': lambda **k: X.PPLN(45.0, **k), 'AgGaSe2': lambda **k: X.AgGaSe2(0.3, **k), 'AgGaS2': lambda **k: X.AgGaS2(0.3, **k)}[kind](**kw)
            same('length', c.length_mks, want, rtol=1e-14)
            same('length in nm', c.length_nm, want * 1e9, rtol=1e-14)
            rec.state(kind, want)
    rec.outcome('errors')


# the same queries repeated while the crystals change
PAIRS = {'pp': ('PPLN', 'PPLN'), 'pa': ('PPLN', 'AgGaSe2'), 'aa': ('AgGaSe2', 'AgGaSe2'), 'as': ('AgGaSe2', 'AgGaS2'), 'ss': ('AgGaS2', 'AgGaS2')}
SETS = {'PPLN': ((1064.0, 1550.0), (1064.0, 1600.0), (1000.0, 1700.0)), 'AgGaSe2': ((2050.0, 2900.0), (2050.0, 3300.0), (1900.0, 2900.0)), 'AgGaS2': ((1064.0, 1400.0), (1064.0, 1500.0), (1200.0, 1500.0))}


BENDS = {}


def bend(m, x, a):
    k = (m.kind, m.T, m.theta, m.source, x, a)
    if k not in BENDS:
        BENDS[k] = slope(m, x, a)
    return BENDS[k]


class Curves(Machine):
    def __init__(self, init):
        Machine.__init__(self, init)
        self.kinds = PAIRS[init[0]]
        self.m = [X.Model(k, **({'theta': th} if k != 'PPLN' else {})) for k, th in zip(self.kinds, (0.8, 0.6))]
        self.L = [0.005, 0.005]
        self.c = [X.make(k, m, l, caching=init[1]) for k, m, l in zip(self.kinds, self.m, self.L)]

    def ops(self):
        out = []
        for j, k in enumerate(self.kinds):
            out += [['ask', j, 0, w] for w in self.queries(k)]
            out += [['cache', j, v] for v in (True, False)]
            if k == 'PPLN':
                out += [['T', j, 90.0], ['T', j, 24.5], ['load', j, 'Deng'], ['load', j, 'Gayer_5pctMg'], ['pp', j]]
            else:
                out += [['theta', j, 0.5], ['theta', j, 1.1]]
        return out

    def queries(self, k):
        common = ['n', 'vg', 'D', 'delay', 'bw']
        return common + (['period', 'invert'] if k == 'PPLN' else ['angle'])

    def apply(self, op):
        o, j = op[:2]
        c, m = self.c[j], self.m[j]
        if o == 'ask':
            self.ask(j, op[2], op[3])
        elif o == 'cache':
            c.set_caching(op[2])
        elif o == 'T':
            c.set_T(op[2])
            m.T = op[2]
        elif o == 'load':
            c.load(70.0, data_source=op[2])
            m.T, m.source = 70.0, op[2]
        elif o == 'pp':
            c.set_pp((17e-6,))
        elif o == 'theta':
            c.set_theta(op[2])
            m.theta = op[2]

    def ask(self, j, q, what):
        c, m, kind, L = self.c[j], self.m[j], self.kinds[j], self.L[j]
        name = '%s of crystal %d, set %d' % (what, j, q)
        p, s = SETS[kind][q]
        d = 1 / (1 / p - 1 / s)
        v = lambda x, a: C / (m.n(x, a) - x * bend(m, x, a)[0])
        for a in axes(kind):
            kw = {} if a is None else {'axis': a}
            for x in (p, s):
                if what == 'n':
                    same(name, c.n(x, **kw), float(m.n(x, a)), rtol=1e-10)
                elif what == 'vg':
                    same(name, c.calculate_group_velocity_nm_ps(x, **kw), v(x, a), rtol=1e-6)
                elif what == 'D':
                    want = -(x / C) * bend(m, x, a)[1] * 1e12
                    same(name, c.calculate_D_ps_nm_km(x, **kw), want, rtol=1e-3, atol=1e-2)
                    same(name, c.calculate_D_fs_um_mm(x, **kw), want, rtol=1e-3, atol=1e-2)
            if what == 'delay':
                for l in (None, 0.02):
                    k2 = dict(kw) if l is None else dict(kw, crystal_length_mks=l)
                    same(name, c.calculate_pulse_delay_ps(p, s, **k2), (l or L) * 1e9 * (1 / v(p, a) - 1 / v(s, a)), rtol=1e-5, atol=1e-6)
            elif what == 'bw':
                u = [1e3 * v(x, a) for x in (p, s, d)]
                worst = max(abs(1 / u[1] - 1 / u[0]), abs(1 / u[2] - 1 / u[0]))
                same(name, c.calculate_mix_phasematching_bw(p, s, **kw), 0.886 * math.pi / worst / 299792458.0, rtol=1e-3)
        if what == 'period':
            mis = sum(sg * m.n(x) * 2 * math.pi / (x * 1e-9) for sg, x in zip((1, -1, -1), (p, s, d)))
            for off in (3.2, -1.0):
                same(name, c.calculate_poling_period(p, s, d, delta_k_L=off), 2 * math.pi / (mis - off / L), rtol=1e-7)
        elif what == 'invert':
            f = lambda x: 2 * math.pi / (sum(sg * m.n(y) * 2 * math.pi / (y * 1e-9) for sg, y in zip((1, -1, -1), (p, x, 1 / (1 / p - 1 / x)))) - 3.2 / L)
            got = c.invert_dfg_qpm_to_signal_wl(p, f(s), max_signal_wl_nm=1.9 * p)
            same(name, f(float(got)), f(s), rtol=2e-4)
        elif what == 'angle':
            th = float(c.phasematch(p, s, d))
            need = float(p * (X.n_oe(kind, s, 'o') / s + X.n_oe(kind, d, 'o') / d))
            same(name, float(X.n_mix(kind, p, th)), need, rtol=1e-9)

    def probe(self):
        for j, k in enumerate(self.kinds):
            for q in (0, 1 + j):
                for w in self.queries(k):
                    self.ask(j, q, w)

    def canon(self):
        return fingerprint([vars(c) for c in self.c], [vars(m) for m in self.m])


MACHINES = {'Curves': Curves}


def machines(tier):
    for k in (('pp', 'pa', 'as') if tier == 'quick' else PAIRS):
        for cache in (True, False):
            yield 'Curves', [k, cache], 2 if tier == 'quick' else 3
