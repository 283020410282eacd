"""Reference definitions, written from the documentation, in plain numpy."""
import numpy as np

C = 299792458.0
C_NMPS = C * 1e9 / 1e12
H = 6.62607015e-34
EPS0 = 8.8541878128e-12
PI2 = 2.0 * np.pi


class Grid:
    """N samples over window T (ps), centre frequency f0 (THz)."""
    def __init__(self, N, f0, T, frep=100.0):
        self.N, self.f0, self.T, self.frep = int(N), float(f0), float(T), frep

    def copy(self):
        return Grid(self.N, self.f0, self.T, self.frep)

    @property
    def k(self):
        return np.arange(self.N) - self.N // 2

    @property
    def t(self):
        return self.k * (self.T / self.N)

    @property
    def V(self):
        return PI2 * self.k / self.T

    @property
    def F(self):
        return self.f0 + self.k / self.T

    @property
    def W(self):
        return PI2 * self.F

    @property
    def wl(self):
        return C_NMPS / self.F

    @property
    def dT(self):
        return self.T / self.N


ACCESSORS = {
    'NPTS': lambda g: g.N,
    'dT_ps': lambda g: g.dT,
    'dT_mks': lambda g: g.dT * 1e-12,
    'T_ps': lambda g: g.t,
    'T_mks': lambda g: g.t * 1e-12,
    'V_THz': lambda g: g.V,
    'V_mks': lambda g: g.V * 1e12,
    'W_THz': lambda g: g.W,
    'W_mks': lambda g: g.W * 1e12,
    'F_THz': lambda g: g.F,
    'F_mks': lambda g: g.F * 1e12,
    'dF_THz': lambda g: 1.0 / g.T,
    'dF_mks': lambda g: 1e12 / g.T,
    'wl_nm': lambda g: g.wl,
    'wl_mks': lambda g: g.wl * 1e-9,
    'time_window_ps': lambda g: g.T,
    'time_window_mks': lambda g: g.T * 1e-12,
    'center_wavelength_nm': lambda g: C_NMPS / g.f0,
    'center_wavelength_mks': lambda g: C_NMPS / g.f0 * 1e-9,
    'center_frequency_THz': lambda g: g.f0,
    'center_frequency_mks': lambda g: g.f0 * 1e12,
    'frep_MHz': lambda g: g.frep,
    'frep_mks': lambda g: None if g.frep is None else g.frep * 1e6,
}


def phase_matrix(g):
    """M[j, k] with AT_j = sum_k M[j, k] AW_k for the pulse convention
    A(t) = sum_k AW_k exp(-i V_k t)."""
    return np.exp(-1j * np.outer(g.t, g.V))


def _fast(x, fft):
    """The same sums for large N: exp(-i t_j V_k) = (-1)^(j+k+N/2) exp(-2 pi i j k / N)."""
    N = len(x)
    s = (-1.0) ** np.arange(N)
    return (-1.0) ** (N // 2) * s * fft(s * x)


def at_of(g, AW):
    if g.N > 300:
        return _fast(np.asarray(AW), np.fft.fft)
    return phase_matrix(g) @ np.asarray(AW)


def aw_of(g, AT):
    if g.N > 300:
        return _fast(np.asarray(AT), np.fft.ifft)
    return phase_matrix(g).conj().T @ np.asarray(AT) / g.N


def epp(g, AT):
    p = np.abs(AT) ** 2
    return g.dT * 1e-12 * (p.sum() - 0.5 * (p[0] + p[-1]))


def field(N, kind=0):
    """Deterministic generic complex test fields."""
    k = np.arange(N)
    if kind == 0:
        return (1.0 + 0.3 * k) * np.exp(1j * (0.7 * k + 0.05 * k * k)) + 0.2j
    if kind == 1:
        return np.exp(-((k - N / 2.0) / (N / 5.0)) ** 2) * np.exp(0.4j * k)
    if kind == 2:
        a = np.zeros(N, complex)
        a[N // 2] = 2.0 - 1.0j
        return a
    if kind == 3:
        return np.cos(1.1 * k) + 1j * np.sin(0.9 * k + 1)
    if kind == 4:           # tiny
        return 1e-14 * field(N, 3)
    if kind == 5:           # huge
        return 1e12 * field(N, 0)
    if kind == 6:           # weak and strong samples side by side
        return field(N, 3) * 10.0 ** (-13 * ((k * 7) % 16) / 16.0)
    raise ValueError(kind)
