"""C05: phase operations are exactly the documented phase factors."""
import itertools

import numpy as np
from pynlo.light.PulseBase import Pulse

from mc.core import Machine, Violation, same, true
from mc.pulses import observe, close
from mc.ref import Grid, at_of, aw_of, field, C_NMPS

LEVEL = 'model_checking'
BOUNDS = ('all sequences of length <=3 (thorough: 4) over 25 phase operations with positive, negative and zero arguments on 3 '
          'starting pulses; all pairs (operation, opposite operation) on grids of 8 to 4096 points; removal of every combination of 7 delays and 7 '
          'chirps from 3 spectra on 3 grids at 3 thresholds; phases judged only above 3 thresholds, the samples above it in 1 to 3 groups, or just enough of them; all sequences of <=3 (4) of 14 phase operations, buffers reused for phases, clones and replacements of center and window; expansion frequencies 1e-6 to 3e3 THz from the center; every spectral operation on spectra spanning 3 to 30 decades, sample by sample')

OPS = [['W', 0.2, 0, 0.0, None], ['W', -0.35, 0, 0.0, None], ['W', 0, 0.15, 0.0, None], ['W', 0, 0, 0.05, None],
       ['W', 0.1, -0.2, 0.03, None], ['W', 0.2, 0.1, 0.02, 1.3], ['W', -0.1, 0.05, -0.02, -2.1], ['W', 0.2, 0.1, 0.02, 'abs0'], ['W', 0, 0, 0, None], ['W', 1e-5, 0, 0, 'zero'], ['W', 0, 0, 0.03, -1.1], ['W', 0, 0.2, 0, 0.7],
       ['P', 'ramp'], ['P', 'const'], ['P', 'generic'], ['P', 'negative'],
       ['T', 0.6, 0, 0.7], ['T', 0, -0.4, 0.7], ['T', -1.1, 0.3, 2.0],
       ['O', 0.4], ['O', -1.7], ['O', 0.0], ['O', 11.0], ['D', 0.05], ['R', 0.05]]


def mk(init):
    N, T, wl, kind = init
    p = Pulse(frep_MHz=70.0)
    p.set_NPTS(N)
    p.set_center_wavelength_nm(wl)
    p.set_time_window_ps(T)
    g = Grid(N, C_NMPS / wl, T, 70.0)
    A = field(N, kind) if kind >= 0 else np.exp(-g.t ** 2) + 0j
    if kind >= 0:
        p.set_AW(A)
        return p, g, A
    p.set_AT(A)
    return p, g, aw_of(g, A)


def phase_arg(name, N):
    if name == 'ramp':
        return 0.3 * np.arange(N)
    if name == 'const':
        return 1.1
    if name == 'negative':
        return -np.sqrt(np.arange(N) + 1.0)
    return np.cos(np.arange(N) * 1.7) * 4


def each(what, got, want):
    """Sample by sample, however weak: a phase factor has no numerical noise of its own."""
    true('%s: sample by sample, largest relative deviation' % what, bool(np.all(np.abs(got - want) <= 1e-9 * np.abs(want))))


def act(p, g, AW, op):
    """Apply to the pulse; return the reference spectrum."""
    if op[0] == 'W':
        _, b2, b3, b4, w0 = op
        if w0 is None:
            V = g.V
            if b4:
                p.chirp_pulse_W(b2, b3, b4)
            elif b3:
                p.chirp_pulse_W(b2, TOD=b3)
            else:
                p.chirp_pulse_W(b2)
        else:
            c = 2 * np.pi * g.f0
            w = c + w0 if not isinstance(w0, str) else {'abs0': c, 'zero': 0.0, 'fixed': 1216.0}[w0]
            V = g.W - w
            p.chirp_pulse_W(b2, b3, b4, w0_THz=w)
        return AW * np.exp(1j * (b2 / 2 * V ** 2 + b3 / 6 * V ** 3 + b4 / 24 * V ** 4))
    if op[0] == 'P':
        ph = phase_arg(op[1], g.N)
        p.apply_phase_W(ph)
        return AW * np.exp(1j * ph)
    if op[0] == 'T':
        _, c2, c3, T0 = op
        p.chirp_pulse_T(c2, c3, T0)
        x = g.t / T0
        return aw_of(g, at_of(g, AW) * np.exp(-1j * (c2 / 2 * x ** 2 + c3 / 3 * x ** 3)))
    if op[0] == 'O':
        p.add_time_offset(op[1])
        return AW * np.exp(-1j * g.W * op[1])
    deg = 2 if op[0] == 'D' else 1
    if op[0] == 'D':
        p.dechirp_pulse(intensity_threshold=op[1])
    else:
        p.remove_time_delay(intensity_threshold=op[1])
    new = p.AW
    s = np.abs(AW).max()
    each('amplitudes after %s' % op, np.abs(new), np.abs(AW))
    if np.abs(AW).min() > 1e-6 * s:
        r = new / AW
        r = r / np.abs(r)
        q = r[1:] / r[:-1]
        for _ in range(deg):
            q = q[1:] / q[:-1]
        same('the phase removed by %s is a polynomial of degree %d' % (op, deg), q, np.ones_like(q), rtol=0, atol=1e-4)
    return new


class M(Machine):
    def __init__(self, init):
        self.p, self.g, self.AW = mk(init)
        self.b = observe(self.p)

    def ops(self):
        return OPS

    def apply(self, op):
        self.AW = act(self.p, self.g, self.AW, op)

    def probe(self):
        same('AW', self.p.AW, self.AW, rtol=1e-8)
        same('AT', self.p.AT, at_of(self.g, self.AW), rtol=1e-8)
        close('grid', self.b, observe(self.p), skip=('AW', 'AT'))


class Regrid(M):
    """Phase operations while the grid under the field is replaced, phases from one buffer."""

    def __init__(self, init):
        M.__init__(self, init)
        self.buf = np.zeros(self.g.N)

    def ops(self):
        return [['W', 0.2, 0.1, 0.02, None], ['W', 0.2, 0.1, 0.02, 'fixed'], ['W', 0, 0.05, 0, 'fixed'], ['O', 0.4], ['T', 0.6, -0.4, 0.7], ['R', 0.05], ['D', 0.05],
                ['buffer', 0], ['buffer', 1], ['clone'], ['center', 1549.9], ['center', 1540.0], ['window', 6.03], ['window', 9.0]]

    def apply(self, op):
        if op[0] == 'buffer':
            self.buf[:] = phase_arg(['generic', 'negative'][op[1]], self.g.N)
            keep = self.buf.copy()
            self.p.apply_phase_W(self.buf)
            true('the phase handed in is unchanged', np.array_equal(self.buf, keep))
            self.AW = self.AW * np.exp(1j * keep)
        elif op[0] == 'clone':
            self.p = self.p.create_cloned_pulse()
        elif op[0] in ('center', 'window'):
            if op[0] == 'center':
                self.p.set_center_wavelength_nm(op[1])
                self.g = Grid(self.g.N, C_NMPS / op[1], self.g.T, 70.0)
            else:
                self.p.set_time_window_ps(op[1])
                self.g = Grid(self.g.N, self.g.f0, op[1], 70.0)
            self.b = observe(self.p)
        else:
            M.apply(self, op)


MACHINES = {'phase': M, 'regrid': Regrid}


def machines(tier):
    yield 'regrid', [8, 6.0, 1550.0, 0], 3 if tier == 'quick' else 4
    for init in ([8, 6.0, 1550.0, 0], [6, 2.5, 800.0, 3], [16, 10.0, 1550.0, -1]):
        yield 'phase', init, 3 if tier == 'quick' else 4


def scenarios(tier):
    for N, T in ((16, 8.0), (64, 20.0), (32, 5.0)):
        for spec in ('gauss', 'flat', 'asym'):
            for th in (0.05, 0.5, 0.001):
                yield ['remove', N, T, spec, th]
        yield ['weak', N, T]
        yield ['junk', N, T]
        yield ['islands', N, T]
        yield ['narrow', N, T]
        yield ['residual', N, T]
    for N, T in ((16, 8.0), (256, 20.0)):
        yield ['offset', N, T]
    for init in ([8, 6.0, 1550.0, 0], [30, 12.0, 1064.0, 3], [1024, 60.0, 1550.0, 1], [4096, 150.0, 1030.0, 3]):
        for op in OPS:
            if op[0] not in 'DR':
                yield ['inverse', init, op]


def run(sc, rec):
    if sc[0] == 'inverse':
        _, init, op = sc
        p, g, AW = mk(init)
        neg = [-x if isinstance(x, (int, float)) else x for x in op]
        if op[0] == 'W' and op[4] is not None:
            neg[4] = op[4]
        if op[0] == 'T':
            neg[3] = op[3]
        if op[0] == 'P':
            ph = phase_arg(op[1], g.N)
            p.apply_phase_W(ph)
            p.apply_phase_W(-ph)
        else:
            want = act(p, g, AW, op)
            same('AW', p.AW, want, rtol=1e-8)
            rec.state(p)
            act(p, g, np.array(p.AW), neg)
        same('undone', p.AW, AW, rtol=1e-9)
        rec.state(p)
        rec.step(2)
        return
    if sc[0] in ('weak', 'junk', 'islands', 'narrow', 'residual', 'offset'):
        globals()['do_' + sc[0]](sc, rec)
        return
    _, N, T, spec, th = sc
    wl = 1550.0
    p = Pulse()
    p.set_NPTS(N)
    p.set_center_wavelength_nm(wl)
    p.set_time_window_ps(T)
    g = Grid(N, C_NMPS / wl, T)
    x = g.V / np.abs(g.V).max()
    a = {'gauss': np.exp(-3 * x ** 2), 'flat': np.ones(N), 'asym': np.exp(-4 * (x - 0.3) ** 2) + 0.1}[spec]
    lim = np.pi * 0.9
    dV = 2 * np.pi / T
    for d, c in itertools.product((-0.45, -0.2, -0.05, 0, 0.1, 0.3, 0.45), repeat=2):
        tau, gdd = d * lim / dV, c * lim / dV / np.abs(g.V).max()
        ph = tau * g.V + 0.5 * gdd * g.V ** 2 + 0.4
        for name, deg in (('dechirp_pulse', 2), ('remove_time_delay', 1)):
            if deg == 1 and c != 0:
                continue
            p.set_AW(a * np.exp(1j * ph))
            getattr(p, name)(intensity_threshold=th)
            same(name + ' leaves a flat phase', p.AW, a + 0j, rtol=1e-4)
            rec.state(p)
            rec.step()


def do_weak(sc, rec):
    """Spectra whose wings are many orders below the peak keep them, with exactly the documented phase."""
    _, N, T = sc
    for decades, off in itertools.product((3, 7, 9, 12, 30), (0.0, 0.4)):
        p = Pulse()
        p.set_NPTS(N)
        p.set_center_wavelength_nm(1550.0)
        p.set_time_window_ps(T)
        g = Grid(N, C_NMPS / 1550.0, T)
        x = g.V / np.abs(g.V).max()
        a = 10.0 ** (-decades * (x - off) ** 2)
        for op in OPS:
            if op[0] in 'TO':       # computed in time, or with a phase of the absolute frequency
                continue
            AW = a * np.exp(1j * 0.3 * np.cos(x))
            p.set_AW(AW)
            AW = np.array(p.AW)
            want = act(p, g, AW, op)
            each('%s over %d decades' % (op, decades), np.abs(p.AW), a)
            if op[0] in 'WP':
                true('%s over %d decades: phase' % (op, decades), bool(np.all(np.abs(p.AW - want) <= 1e-8 * a)))
            rec.state(p)
            rec.step()


def do_junk(sc, rec):
    """Only samples above the intensity threshold determine the phase removed."""
    _, N, T = sc
    for th, kw in ((0.05, {}), (0.05, {'intensity_threshold': 0.05}), (0.5, {'intensity_threshold': 0.5}), (0.002, {'intensity_threshold': 0.002})):
        for below, above in ((0.96, 1.05), (0.3, 3.0), (1e-3, 1.5)):
            if th * above > 1:
                continue
            p = Pulse()
            p.set_NPTS(N)
            p.set_center_wavelength_nm(1550.0)
            p.set_time_window_ps(T)
            g = Grid(N, C_NMPS / 1550.0, T)
            i = np.arange(N)
            good = (i > N // 4) & (i < 3 * N // 4)
            a = np.where(good, np.sqrt(th * above), np.sqrt(th * below))
            a[N // 2] = 1.0
            x = g.V / np.abs(g.V).max()
            junk = np.where(good, 0, 0.9 * np.cos(2.1 * i))
            for name, deg in (('dechirp_pulse', 2), ('remove_time_delay', 1)):
                ph = 0.4 + 1.5 * x + (0.8 * x ** 2 if deg == 2 else 0)
                p.set_AW(a * np.exp(1j * (ph + junk)))
                getattr(p, name)(**kw)
                same('%s with threshold %s: strong samples, then weak ones' % (name, kw), p.AW / a, np.exp(1j * junk), rtol=1e-4)
                rec.state(p)
                rec.step()


def do_islands(sc, rec):
    """The same with the weak samples between, beside or among groups of strong ones."""
    _, N, T = sc
    i = np.arange(N)
    for strong in ([(2, 5), (N - 6, N - 2)], [(0, 3), (N // 2 - 1, N // 2 + 2)], [(N // 3, N // 3 + 3), (N // 2, N // 2 + 1), (N - 2, N)],
                   [(1, N // 2), (N // 2 + 1, N - 1)]):
        good = np.any([(i >= a) & (i < b) for a, b in strong], axis=0)
        for th, w in ((0.05, 0.04), (0.05, 1e-4), (0.4, 0.3)):
            a = np.where(good, 1.0 - 0.02 * (i % 3), np.sqrt(w))
            p = Pulse()
            p.set_NPTS(N)
            p.set_center_wavelength_nm(1550.0)
            p.set_time_window_ps(T)
            g = Grid(N, C_NMPS / 1550.0, T)
            x = g.V / np.abs(g.V).max()
            junk = np.where(good, 0, 0.9 * np.cos(2.1 * i) + 0.5)
            for name, deg in (('dechirp_pulse', 2), ('remove_time_delay', 1)):
                ph = 0.4 + 1.5 * x + (0.8 * x ** 2 if deg == 2 else 0)
                p.set_AW(a * np.exp(1j * (ph + junk)))
                getattr(p, name)(intensity_threshold=th)
                same('%s, strong samples %s' % (name, strong), p.AW / a, np.exp(1j * junk), rtol=1e-4)
                rec.state(p)
                rec.step()


def do_narrow(sc, rec):
    """Just enough strong samples to determine the polynomial."""
    _, N, T = sc
    i = np.arange(N)
    for name, deg in (('dechirp_pulse', 2), ('remove_time_delay', 1)):
        for n, at in itertools.product((deg + 1, deg + 2), (1, N // 2 - 1, N - 4)):
            p = Pulse()
            p.set_NPTS(N)
            p.set_center_wavelength_nm(1550.0)
            p.set_time_window_ps(T)
            good = (i >= at) & (i < at + n)
            a = np.where(good, 1.0, 1e-3)
            x = (i - at - 1.0)
            ph = 0.3 + 0.5 * x + (0.4 * x ** 2 if deg == 2 else 0)
            p.set_AW(a * np.exp(1j * np.where(good, ph, 0)))
            getattr(p, name)()
            got = np.array(p.AW)
            same('%s: %d strong samples are left flat' % (name, n), got[good], np.ones(n), rtol=1e-4)
            same('amplitudes', np.abs(got), a, rtol=1e-9, scale=1e-3)
            rec.state(p)
            rec.step()


def do_residual(sc, rec):
    """Phases that no line or parabola describes: what goes is the least-squares fit over the strong samples, each counted once."""
    _, N, T = sc
    i = np.arange(N)
    for (name, deg), wid, mid, th, c in itertools.product((('dechirp_pulse', 2), ('remove_time_delay', 1)), (0.12, 0.3), (0.35, 0.5, 0.62),
                                                          (None, 0.02, 0.3), ((0.9, 0.4), (-0.5, 0.8))):
        p = Pulse()
        p.set_NPTS(N)
        p.set_center_wavelength_nm(1550.0)
        p.set_time_window_ps(T)
        x = (i - mid * N) / (wid * N)
        a = np.exp(-x ** 2 / 2)
        t = 0.05 if th is None else th
        if (np.abs(a ** 2 / (a ** 2).max() - t) < 1e-9).any():
            continue
        good = a ** 2 > t * (a ** 2).max()
        if good.sum() < deg + 3:
            continue
        y = x / np.abs(x[good]).max()
        res = c[0] * np.cos(2.3 * y) + c[1] * np.sin(3.1 * y)     # smooth, and so bounded outside
        q = 0.7 + 0.6 * y + (0.5 * y ** 2 if deg == 2 else 0)
        if np.abs(np.diff(q + res)).max() > 2.8:
            continue
        want = q + res - np.polyval(np.polyfit(y[good], (q + res)[good], deg), y)
        p.set_AW(a * np.exp(1j * (q + res)))
        getattr(p, name)(**({} if th is None else {'intensity_threshold': th}))
        same('%s of a phase with structure' % name, np.array(p.AW) / a, np.exp(1j * want), rtol=1e-5)
        rec.state(p)
        rec.step()


def do_offset(sc, rec):
    """Expansion frequencies at every distance from the center."""
    _, N, T = sc
    for off in [0.0] + [s * 10.0 ** e for e in range(-6, 4) for s in (1, -1, 3.3)]:
        for b in ((1.5, 0, 0), (0, 0.7, 0), (0, 0, 0.3), (-1.0, 0.5, -0.2)):
            p, g, AW = mk([N, T, 1550.0, 3])
            w0 = 2 * np.pi * g.f0 + off
            V = g.W - w0
            f = 1.0 / max(1.0, np.abs(V).max() ** 2 * 1e-2)
            p.chirp_pulse_W(b[0] * f, b[1] * f, b[2] * f, w0_THz=w0)
            ph = f * (b[0] / 2 * V ** 2 + b[1] / 6 * V ** 3 + b[2] / 24 * V ** 4)
            same('expanded %g THz from the center' % off, p.AW, AW * np.exp(1j * ph), rtol=0, atol=1e-9 * (1 + 1e-5 * np.abs(ph).max()) * np.abs(AW).max())
            rec.state(p)
            rec.step()
