"""Helpers for the propagation checks: pulses, fibers, simulators and an
independent solver of the generalized nonlinear Schroedinger equation."""
import math

import numpy as np
from scipy.integrate import DOP853

import pynlo.interactions.FourWaveMixing.SSFM as MOD
from pynlo.interactions.FourWaveMixing import global_variables
from pynlo.interactions.FourWaveMixing.SSFM import SSFM
from pynlo.media.fibers.fiber import FiberInstance

from mc import fibers as F
from mc.core import Violation, same, true
from mc.ref import C_NMPS, PI2, Grid, at_of, aw_of, epp


def backend(fftw=True, shift=True, fdraman=False):
    """Configuration switches (restored before the next execution)."""
    if hasattr(MOD, 'PYFFTW_AVAILABLE') and HAVE_FFTW:
        MOD.PYFFTW_AVAILABLE = bool(fftw)
    global_variables.PRE_FFTSHIFT = bool(shift)
    global_variables.USE_FREQUENCY_DOMAIN_RAMAN = bool(fdraman)


HAVE_FFTW = bool(getattr(MOD, 'PYFFTW_AVAILABLE', False))


def sim(method='rk', eta=None, **kw):
    s = SSFM(**kw)
    s.method = SSFM.METHOD_SSFM if method == 'ssfm' else SSFM.METHOD_RK4IP
    if eta:
        s.eta = eta
    return s


def fiber(L, betas, gamma, gain=0, wl=1550.0):
    f = FiberInstance()
    f.generate_fiber(L, wl, list(betas), gamma, gvd_units='ps^n/m', gain=gain)
    return f


def shape(kind, g, P=1.0):
    """Temporal test fields of peak power about P (W) on a grid."""
    t, T = g.t, g.T
    w = T / 16.0
    if kind == 'sech':
        A = 1 / np.cosh(t / w)
    elif kind == 'gauss':
        A = np.exp(-(t / w) ** 2 / 2 * (1 + 0.8j))
    elif kind == 'cw':
        A = np.ones(g.N) * np.exp(0.3j)
    elif kind == 'two':
        A = np.exp(-((t - T / 8) / w) ** 2) + 0.7j * np.exp(-((t + T / 7) / (1.3 * w)) ** 2 - 8j * np.pi * t / T)
    elif kind == 'mod':
        A = 1 + 0.5 * np.cos(PI2 * t / T) + 0.3j * np.sin(2 * PI2 * t / T)
    elif kind == 'zero':
        A = np.zeros(g.N)
    else:
        raise ValueError(kind)
    return math.sqrt(P) * np.asarray(A, complex)


def pulse(kind, N=64, T=6.0, wl=1550.0, frep=100.0, P=1.0):
    p, g = F.pulse(N, T, wl, frep=frep)
    p.set_AT(shape(kind, g, P))
    return p, g


def outputs(what, r, g, L, n, p_in=None):
    """Well formedness of what propagate returned; gives (AW, AT, pulse)."""
    z, AW, AT, po = r
    same(what + ': positions', z, np.linspace(0, L, n + 1), rtol=1e-12)
    AW, AT = np.asarray(AW), np.asarray(AT)
    true(what + ': shapes', AW.shape == (g.N, n) and AT.shape == (g.N, n))
    return AW, AT, po


def energy(A):
    return float(np.sum(np.abs(A) ** 2))


def photons(g, A):
    S = np.abs(aw_of(g, A)) ** 2
    return float(np.sum(S / g.W))


# --------------------------------------------------------------------------
# reference model

def raman_response(g, model, f_R=0.18, t1=0.0122, t2=0.032):
    """R(V) on the grid (ascending frequency), normalised to R(0) = 1."""
    if model == 'none':
        return np.ones(g.N, complex)
    if model == 'freq':
        w = g.V
        H = (t1 ** 2 + t2 ** 2) / (t1 ** 2 + t2 ** 2 - 2j * w * t1 ** 2 * t2 - t1 ** 2 * t2 ** 2 * w ** 2)
        return 1 - f_R + f_R * H
    t = g.t
    if model == 'simple':
        h = (t1 ** 2 + t2 ** 2) / (t1 * t2 ** 2) * np.exp(-t / t2) * np.sin(t / t1)
        fr = f_R
    else:
        tb, fa, fb, fc, fr = 0.096, 0.75, 0.21, 0.04, 0.245
        ha = t1 / (t1 ** 2 + t2 ** 2) * np.exp(-t / t2) * np.sin(t / t1)
        hb = (2 * tb - t) / tb ** 2 * np.exp(-t / tb)
        h = (fa + fc) * ha + fb * hb
    h = np.where(t < -1e-12, 0.0, h)
    h = h / (np.sum((h[1:] + h[:-1]) / 2) * g.dT)
    return 1 - fr + fr * np.array([np.sum(h * np.exp(1j * v * t)) for v in g.V]) * g.dT


def gnlse(g, A0, L, beta, gamma, alpha=0.0, R=None, steep=False, zs=None, rtol=1e-9):
    """High accuracy solution of
       dA/dz = (i beta(V) + g/2) A + i gamma (1 + (i/w0) d/dt)(A (R * |A|^2))
    for A(t) = sum_k A_k exp(-i V_k t); returns A(t) at L (or at all of zs)."""
    # everything in index-shifted order
    sh, ish = np.fft.ifftshift, np.fft.fftshift
    b = sh(np.asarray(beta) + 0.0)
    ga = sh(np.broadcast_to(np.asarray(alpha, float), (g.N,)).copy())
    Rr = None if R is None else sh(R)
    V = sh(g.V)
    w0 = PI2 * g.f0
    lin = 1j * b + ga / 2
    ft, it = np.fft.ifft, np.fft.fft           # t -> V, V -> t
    st = (1 + V / w0) if steep else 1.0

    def rhs(z, y):
        e = np.exp(lin * z)
        A = it(e * y)
        I = np.abs(A) ** 2
        if Rr is not None:
            I = it(Rr * ft(I))
        return 1j * gamma * st * ft(A * I) / e

    y = ft(sh(np.asarray(A0, complex)))
    s = DOP853(rhs, 0.0, y, L, rtol=rtol, atol=rtol * 1e-3 * max(np.abs(y).max(), 1e-300), max_step=L)
    want = [L] if zs is None else list(zs)
    out = []
    while s.status == 'running':
        s.step()
        d = s.dense_output()
        while want and want[0] <= s.t + 1e-12 * L:
            zz = min(want[0], s.t)
            yy = s.y if zz == s.t else d(zz)
            out.append(ish(it(np.exp(lin * zz) * yy)))
            want.pop(0)
    if s.status == 'failed' or want:
        raise ArithmeticError('reference integration failed')
    return out[0] if zs is None else np.array(out)
