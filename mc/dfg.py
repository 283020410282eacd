"""Helpers for the three-wave mixing checks."""
import contextlib
import math

import numpy as np

import pynlo.interactions.ThreeWaveMixing.DFG_integrand as MOD
from pynlo.interactions.ThreeWaveMixing.DFG_integrand import dfg_problem, fftcomputer
from pynlo.media.crystals.CrystalContainer import Crystal
from pynlo.media.crystals.XTAL_PPLN import PPLN
from pynlo.media.crystals.XTAL_AgGaSe2 import AgGaSe2
from pynlo.light.PulseBase import Pulse
from pynlo.light.DerivedPulses import SechPulse, GaussianPulse, CWPulse

C = 299792458.0
EPS0 = 8.8541878128e-12
HAVE_FFTW = bool(getattr(MOD, 'PYFFTW_AVAILABLE', False))


def backend(fftw):
    if HAVE_FFTW:
        MOD.PYFFTW_AVAILABLE = bool(fftw)


@contextlib.contextmanager
def fftw(on):
    """Creating computers with one backend, restoring the switch after."""
    old = getattr(MOD, 'PYFFTW_AVAILABLE', None)
    backend(on)
    try:
        yield
    finally:
        if old is not None:
            MOD.PYFFTW_AVAILABLE = old


class Simple(Crystal):
    """A user crystal without poling (the documented 'simple' mode)."""
    def __init__(self, length=0.01, deff=10e-12, slope=0.0):
        Crystal.__init__(self, {'length': length})
        self.mode = 'simple'
        self.deff = deff
        self.n2 = 1e-20
        self.slope = slope

    def n(self, wl_nm, axis=None):
        return 2.0 + 0.1 * (1000.0 / np.asarray(wl_nm)) ** 2 + self.slope * np.asarray(wl_nm) * 1e-4


def blank(N, T, wl, frep=100.0, AW=None):
    p = Pulse(frep_MHz=frep, n=N)
    p.set_NPTS(N)
    p.set_time_window_ps(T)
    p.set_center_wavelength_nm(wl)
    p.set_AW(np.zeros(N, complex) if AW is None else np.asarray(AW, complex))
    return p


def conv_ref(a, b):
    """c[k] = sum of a[i] b[j] with (i - N/2) + (j - N/2) = k - N/2."""
    N = len(a)
    full = np.zeros(2 * N - 1, complex)
    for i in range(N):
        full[i:i + N] += a[i] * b
    out = np.zeros(N, complex)
    for k in range(N):
        out[k] = full[k + N // 2]
    return out


def corr_ref(a, b):
    """c[k] = sum of a[i] conj(b[j]) with (i - N/2) - (j - N/2) = k - N/2."""
    N = len(a)
    out = np.zeros(N, complex)
    for k in range(N):
        d = k - N // 2
        lo, hi = max(0, d), min(N, N + d)
        if lo < hi:
            out[k] = np.sum(a[lo:hi] * np.conj(b[lo - d:hi - d]))
    return out
