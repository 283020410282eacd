"""C03: the temporal and the spectral field are one field under a fixed pair."""
import itertools

import numpy as np
from pynlo.light.PulseBase import Pulse
from pynlo.light.DerivedPulses import GaussianPulse
from pynlo.util import FFT_t, IFFT_t

from mc.core import Machine, same, true
from mc.pulses import observe, unchanged
from mc.ref import Grid, phase_matrix, at_of, aw_of, field, C_NMPS

LEVEL = 'model_checking'
BOUNDS = ('all even N in 2..16 (thorough: 2..40) x every spectral and temporal basis field with coefficients 1 and i and 4 generic '
          'fields, a tiny, a huge and a high-contrast one and 7 real or integer ones x 2 windows; all write sequences of length <=3 (thorough: 4) over 8 writes, 4 grid changes and phase '
          'operations; transforms on 1-3 dimensional arrays along every axis, counted from the front or the back')


def mk(N, T):
    p = Pulse(frep_MHz=100.0)
    p.set_NPTS(N)
    p.set_center_wavelength_nm(1550.0)
    p.set_time_window_ps(T)
    return p, Grid(N, C_NMPS / 1550.0, T)


def scenarios(tier):
    top = 16 if tier == 'quick' else 40
    for N in range(2, top + 1, 2):
        for T in (3.0, 12.5):
            for via in ('AW', 'AT'):
                yield ['basis', N, T, via]
    for N in (102, 128, 1000, 1024, 2046, 4096, 8192, 16384):
        yield ['large', N]
    for N in (2, 4, 6, 8, 10, 16, 30) if tier == 'quick' else range(2, 65, 2):
        for shape in ([N], [N, 3], [3, N], [2, N, 4], [4, 2, N], [N, N]):
            for ax in range(len(shape)):
                if shape[ax] == N:
                    yield ['fft', N, shape, ax]
                    yield ['fft', N, shape, ax - len(shape)]


def do_large(sc, rec):
    _, N = sc
    p, g = mk(N, 0.02 * N)
    k = np.arange(N) - N // 2
    spikes = np.zeros(N, complex)
    spikes[[0, 1, N // 2 - 1, N // 2, N - 1]] = 1, 2j, -1, 0.5, 3
    for A in (field(N, 1), field(N, 3), spikes, np.exp(-30.0 * (k / N) ** 2 + 9j * (k / N)), (-1.0) ** k + 0j):
        for up, dn in ((FFT_t, IFFT_t), (lambda x: FFT_t(x, -1), lambda x: IFFT_t(x, 0))):
            same('FFT_t', up(A), aw_of(g, A), rtol=1e-11)
            same('IFFT_t', dn(A), at_of(g, A), rtol=1e-11)
        p.set_AW(A)
        same('AW', p.AW, A, rtol=1e-11)
        same('AT', p.AT, at_of(g, A), rtol=1e-11)
        p.set_AT(A)
        same('AW', p.AW, aw_of(g, A), rtol=1e-11)
        same('AT', p.AT, A, rtol=1e-11)
        rec.state(p)
        rec.step(4)


def check(g, p, AW=None, AT=None):
    M = phase_matrix(g)
    if AW is None:
        AW = M.conj().T @ AT / g.N
    if AT is None:
        AT = M @ AW
    s = max(np.abs(AW).max(), 1e-300)
    for _ in range(2):
        same('AW', p.AW, AW, rtol=1e-10, scale=s)
        same('AT', p.AT, AT, rtol=1e-10, scale=max(np.abs(AT).max(), s))
    same('Parseval', np.sum(np.abs(p.AT) ** 2), g.N * np.sum(np.abs(p.AW) ** 2), rtol=1e-10)
    same('AT is the sum over its own grids',
         np.exp(-1j * np.outer(p.T_ps, p.V_THz)) @ p.AW, p.AT, rtol=1e-9)
    true('complex', np.iscomplexobj(p.AW) and np.iscomplexobj(p.AT))


def run(sc, rec):
    if sc[0] == 'large':
        return do_large(sc, rec)
    if sc[0] == 'basis':
        _, N, T, via = sc
        p, g = mk(N, T)
        fields = [field(N, k) for k in range(7)] + [np.zeros(N)]
        for k in range(N):
            e = np.zeros(N, complex)
            e[k] = 1
            fields += [e, 1j * e]
        for f in fields:
            getattr(p, 'set_' + via)(f.copy())
            rec.state(p)
            rec.step()
            check(g, p, **{via: f})
        # plain lists and real arrays are fields too
        k = np.arange(N)
        for r in (k - 1.5, k - 3, np.sqrt(k + 2.0), 1e-20 * np.cos(k), 1e15 / (k + 0.3), (k % 3).astype('int16'), list(0.1 * k)):
            getattr(p, 'set_' + via)(r)
            check(g, p, **{via: np.array(r, complex)})
            rec.step()
        return
    _, N, shape, ax = sc
    j = np.arange(N) - N // 2
    D = np.exp(-2j * np.pi * np.outer(j, j) / N)
    n = int(np.prod(shape))
    for kind in range(8):
        A = field(n, kind).reshape(shape) if kind < 6 else (np.sqrt(np.arange(n) + 0.1) * (1, 1e-20)[kind - 6]).reshape(shape)
        B = A.copy()
        args = () if ax % len(shape) == 0 and kind == 0 else (ax,)
        up = IFFT_t(A, *args)
        dn = FFT_t(A, *args)
        same('IFFT_t', up, np.moveaxis(np.tensordot(D, A, (1, ax)), 0, ax), rtol=1e-10)
        same('FFT_t', dn, np.moveaxis(np.tensordot(D.conj() / N, A, (1, ax)), 0, ax), rtol=1e-10)
        same('inverse', IFFT_t(FFT_t(A, *args), *args), A, rtol=1e-10)
        same('inverse', FFT_t(IFFT_t(A, *args), *args), A, rtol=1e-10)
        same('argument', A, B, rtol=0)
        rec.state(A)
        rec.step(4)


class M(Machine):
    def __init__(self, init):
        self.p, self.g = mk(*init)
        self.AW = field(init[0])
        self.p.set_AW(self.AW)

    def ops(self):
        o = [['AW', k] for k in range(4)] + [['AT', k] for k in range(4)]
        o += [['N', 4], ['N', 10], ['T', 4.0], ['wl', 800.0], ['scale', 0], ['chirp', 0.3], ['add', 1], ['clone', 0]]
        return o

    def apply(self, op):
        n, a = op
        p, g = self.p, self.g
        if n == 'AW':
            f = field(g.N, a)
            p.set_AW(f)
            self.AW = f
        elif n == 'AT':
            f = field(g.N, a)
            p.set_AT(f)
            self.AW = phase_matrix(g).conj().T @ f / g.N
        elif n == 'N':
            p.set_NPTS(a)
            g.N = a
            f = field(a, 3)
            p.set_AT(f)
            self.AW = phase_matrix(g).conj().T @ f / g.N
        elif n == 'T':
            p.set_time_window_ps(a)
            g.T = a
        elif n == 'wl':
            p.set_center_wavelength_nm(a)
            g.f0 = C_NMPS / a
        elif n == 'scale':
            p.set_AT(2.5 * p.AT)
            self.AW = 2.5 * self.AW
        elif n == 'chirp':
            p.chirp_pulse_W(a)
            self.AW = self.AW * np.exp(0.5j * a * g.V ** 2)
        elif n == 'add':
            p.set_AW(p.AW + field(g.N, a))
            self.AW = self.AW + field(g.N, a)
        elif n == 'clone':
            self.p = p.create_cloned_pulse()

    def probe(self):
        check(self.g, self.p, AW=self.AW)


MACHINES = {'writes': M}


def machines(tier):
    for init in ([8, 6.0], [6, 2.5]):
        yield 'writes', init, 3 if tier == 'quick' else 4
