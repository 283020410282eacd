"""C08: pulse diagnostics equal their defining sums."""
import itertools

import numpy as np
from pynlo.light.PulseBase import Pulse

from mc.core import Machine, Violation, same, true, raises
from mc.pulses import observe, unchanged
from mc.ref import C, Grid, at_of, aw_of, epp, field, C_NMPS, PI2

LEVEL = 'model_checking'
BOUNDS = ('all even N in 2..24 (thorough: 2..64) x 3 windows/centers x 6 fields and every basis field (5 for 4 sizes up to 4096): energy, averages, autocorrelation; '
          'spectrogram: 4 grids x 5 fields x gaussian gate of 3 widths at up to 8 delay counts (2 to 2600), the field as its own gate at up to 13; all sequences of <=3 (thorough: 4) diagnostics and '
          'changes of grid or field on one pulse')


SCALE = {5: 1e-14, 6: 1e12}


def mk(N, T, wl, A):
    p = Pulse(frep_MHz=70.0)
    p.set_NPTS(N)
    p.set_center_wavelength_nm(wl)
    p.set_time_window_ps(T)
    p.set_AW(A)
    return p, Grid(N, C_NMPS / wl, T, 70.0)


def scenarios(tier):
    top = 24 if tier == 'quick' else 64
    for N in range(2, top + 1, 2):
        for T, wl in ((4.0, 1550.0), (20.0, 800.0), (0.3 * N, 1064.0)):
            yield ['sums', N, T, wl]
    for N in (128, 1000, 1024, 4096):
        for wl in (1550.0, 800.0):
            yield ['sums', N, 0.02 * N, wl]
    for N, T, wl in ((8, 4.0, 1550.0), (16, 5.0, 1550.0), (32, 3.0, 800.0), (64, 10.0, 2000.0)):
        for kind in range(8):
            yield ['spec', N, T, wl, kind]


def spectrum(N, T, wl, kind):
    g = Grid(N, C_NMPS / wl, T)
    if kind < 4 or kind > 4:
        return field(N, kind - (kind > 4))
    x = g.k / (N / 2.0)
    return np.exp(-8 * (x - 0.1) ** 2 + 2j * x ** 2)


def sums(p, g, A):
    AT = at_of(g, A)
    I, S = np.abs(AT) ** 2, np.abs(A) ** 2
    b = observe(p)
    same('energy', p.calc_epp(), epp(g, AT), rtol=1e-9)
    if S.sum() > 0:
        f = (S * g.F).sum() / S.sum() * 1e12
        same('average frequency', p.calculate_weighted_avg_frequency_mks(), f, rtol=1e-10)
        same('average wavelength', p.calculate_weighted_avg_wavelength_nm(), C / f * 1e9, rtol=1e-10)
    if g.N > 100:
        want = np.correlate(I, I, 'full')[g.N - 1 - g.N // 2:g.N - 1 + g.N // 2]
    else:
        want = np.array([sum(I[n + k] * I[n] for n in range(g.N) if 0 <= n + k < g.N) for k in range(-g.N // 2, g.N // 2)])
    ac = p.calculate_intensity_autocorrelation()
    same('autocorrelation', ac, want, rtol=1e-9, scale=max(want.max(), 1e-300))
    unchanged('the pulse', b, p)


def gauss_spec(p, g, A, width, steps):
    AT = at_of(g, A)
    d = np.linspace(g.t[0], g.t[-1], steps)
    gate = np.exp(-(g.t[:, None] - d[None, :]) ** 2 / (2 * width ** 2))
    E = AT[:, None] * gate * np.exp(1j * PI2 * g.t[:, None] * g.f0)
    n = np.arange(g.N)
    D = np.exp(-1j * PI2 * np.outer(n, n) / g.N)
    S = np.abs(D @ E)[:g.N // 2]
    return d, n[:g.N // 2] / g.T, S


def check_axes(r, d, f):
    D, F, ext, S = r
    same('delays', D, np.tile(d, (len(f), 1)), rtol=1e-9, scale=np.abs(d).max())
    same('frequencies', F, np.tile(f[:, None], (1, len(d))), rtol=1e-9, scale=max(np.abs(f).max(), 1e-9))
    same('extent', np.array(ext), np.array([d.min(), d.max(), f.min(), f.max()]), rtol=1e-9)


def run(sc, rec):
    if sc[0] == 'sums':
        _, N, T, wl = sc
        fields = [spectrum(N, T, wl, k) for k in range(8)] + [np.zeros(N, complex)]
        some = range(N) if N <= 100 else (0, 1, N // 2 - 1, N // 2, N - 1)
        for k in some:
            e = np.zeros(N, complex)
            e[k] = 1.5j
            fields.append(e)
        for A in fields:
            p, g = mk(N, T, wl, A)
            sums(p, g, A)
            rec.state(p)
            rec.step()
            e = np.zeros(N, complex)
        # weak light far from the line counts
        for r in (1e-3, 3e-5, 1e-6):
            A = np.where(np.arange(N) > N // 2, r, 0) + 0j
            A[min(1, N - 1)] = 1.0
            p, g = mk(N, T, wl, A)
            S = np.abs(A) ** 2
            f = (S * g.F).sum() / S.sum() * 1e12
            d = max(abs(f - g.F[1] * 1e12), 1e-9 * f)
            same('average frequency beside a line', p.calculate_weighted_avg_frequency_mks(), f, rtol=0, atol=1e-3 * d + 1e-13 * f)
            rec.step()
        for k in some:          # temporal basis fields
            e = np.zeros(N, complex)
            e[k] = 2.0
            p.set_AT(e)
            A = aw_of(g, e)
            sums(p, g, A)
            rec.state(p)
        return
    _, N, T, wl, kind = sc
    A = spectrum(N, T, wl, kind)
    p, g = mk(N, T, wl, A)
    b = observe(p)
    for w, steps in itertools.product((0.05, 0.4, 3.0), (2, 3, 7, N, N + 1, None, 777, 2600)):
        if steps in (None, 777, 2600) and (w != 0.4 or kind > 2):
            continue
        d, f, S = gauss_spec(p, g, A, w, steps or 500)
        r = p.spectrogram('xfrog', w, steps) if steps else p.spectrogram('xfrog', w)
        check_axes(r, d, f)
        same('spectrogram', r[3], S, rtol=1e-8, scale=max(S.max(), 1e-9 * np.abs(A).max()))
        r2 = p.spectrogram(gate_type='xfrog', gate_function_width_ps=w, **({'time_steps': steps} if steps else {}))
        same('again', r2[3], r[3], rtol=1e-12)
        unchanged('the pulse', b, p)
        rec.state(p, w, steps)
        rec.step()
    raises('unknown gate', Exception, p.spectrogram, 'shg', 0.1, 4)
    unchanged('the pulse', b, p)
    # the field is its own gate; delays on grid points need no interpolation
    def shape(t):
        return SCALE.get(kind, 1.0) * np.exp(-6 * (t / (T / 4)) ** 2) * np.exp(2j * (t / T) ** 2) * (1 + 0.2 * kind)

    AT = shape(g.t)
    AT[np.abs(AT) < 1e-12 * SCALE.get(kind, 1.0)] = 0
    p.set_AT(AT)
    b = observe(p)
    for steps in (N, 2 * N - 1):
        r = p.spectrogram('frog', 0.1, steps)
        d = np.linspace(g.t[0], g.t[-1], steps)
        n = np.arange(N)
        check_axes(r, d, n[:N // 2] / g.T)
        cols, cand = (np.arange(N), np.arange(0, steps, steps // (N - 1) if steps > N else 1))
        S = np.zeros((N // 2, N))
        for c in range(N):
            sh = n - c + N // 2
            # delay d_c = t_c, gate(t_j - t_c): index j - c + N/2
            idx = sh
            gate = np.where((idx >= 0) & (idx < N), AT[np.clip(idx, 0, N - 1)], 0)
            E = AT * gate * np.exp(1j * PI2 * g.t * g.f0)
            S[:, c] = np.abs(np.exp(-1j * PI2 * np.outer(n, n) / N) @ E)[:N // 2]
        same('frog spectrogram', r[3][:, cand], S, rtol=2e-3 if N < 16 else 1e-5, scale=S.max())
        unchanged('the pulse', b, p)
        rec.state(p, steps)
        rec.step()
    # any other delays: the gate is the field between its samples
    if N >= 16:
        n = np.arange(N)
        for steps in (2, 3, 4, 7, 11, N // 2, N // 2 + 1, N - 1, N + 1, 3 * N, 2 * N + 5):
            r = p.spectrogram('frog', 0.1, steps)
            d = np.linspace(g.t[0], g.t[-1], steps)
            check_axes(r, d, n[:N // 2] / g.T)
            td = g.t[:, None] - d[None, :]
            gate = np.where((td >= g.t[0] - 1e-9 * T) & (td <= g.t[-1] + 1e-9 * T), shape(td), 0)
            E = AT[:, None] * gate * np.exp(1j * PI2 * g.t * g.f0)[:, None]
            S = np.abs(np.exp(-1j * PI2 * np.outer(n, n) / N) @ E)[:N // 2]
            same('frog spectrogram at %d delays' % steps, r[3], S, rtol=0, atol=(5e-2 if N < 32 else 5e-3) * AUTO(AT, N, g))
            unchanged('the pulse', b, p)
            rec.state(p, 'frog', steps)
            rec.step()


def AUTO(AT, N, g):
    """Peak of the spectrogram: the field gated by itself."""
    n = np.arange(N)
    return np.abs(np.exp(-1j * PI2 * np.outer(n, n) / N) @ (AT * AT * np.exp(1j * PI2 * g.t * g.f0))).max()


class M(Machine):
    def __init__(self, init):
        self.A = field(8)
        self.p, self.g = mk(8, 5.0, 1550.0, self.A)

    def ops(self):
        return ['epp', 'freq', 'wl', 'ac', 'spec', 'sums', 'set', 'center', 'window', 'regrid', 'dark2', 'scale']

    def apply(self, op):
        p, g = self.p, self.g
        if op == 'epp':
            same('energy', p.calc_epp(), epp(g, at_of(g, self.A)), rtol=1e-9)
        elif op in ('freq', 'wl', 'ac', 'sums'):
            sums(p, g, self.A)
        elif op == 'spec':
            d, f, S = gauss_spec(p, g, self.A, 0.5, 5)
            r = p.spectrogram('xfrog', 0.5, 5)
            check_axes(r, d, f)
            same('spectrogram', r[3], S, rtol=1e-8)
        elif op == 'set':
            self.A = field(g.N, 3)
            p.set_AW(self.A)
        elif op == 'center':
            p.set_center_wavelength_nm(700.0)
            g.f0 = C_NMPS / 700.0
        elif op == 'window':
            p.set_time_window_ps(2.5)
            g.T = 2.5
        elif op == 'regrid':
            p.set_NPTS(12)
            g.N = 12
            self.A = field(12, 1)
            p.set_AW(self.A)
        elif op == 'dark2':
            self.A = np.where(np.arange(g.N) == 1, 1.0, 0) + 0j
            p.set_AW(self.A)
        elif op == 'scale':
            p.set_epp(1e-9)
            self.A = self.A * np.sqrt(1e-9 / epp(g, at_of(g, self.A)))

    def probe(self):
        sums(self.p, self.g, self.A)


MACHINES = {'diag': M}


def machines(tier):
    yield 'diag', 0, 3 if tier == 'quick' else 4
