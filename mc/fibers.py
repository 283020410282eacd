"""Reference dispersion, gain and a small fiber database for the fiber checks."""
import json
import math
import os

import numpy as np

from mc.core import Violation, same, true
from mc.ref import C, C_NMPS, PI2, Grid
from pynlo.light.PulseBase import Pulse


def pulse(N, T, wl, frep=100.0, A=None):
    p = Pulse(frep_MHz=frep, n=N)
    p.set_center_wavelength_nm(wl)
    p.set_time_window_ps(T)
    g = Grid(N, C_NMPS / wl, T, frep)
    p.set_AW(np.exp(-(g.k / (N / 6.0)) ** 2) if A is None else A)
    return p, g


def taylor(betas, center_wl, W):
    """beta(W) in 1/m for coefficients in ps^n/m about center_wl (nm)."""
    x = W - PI2 * C_NMPS / center_wl
    return sum(b / math.factorial(i + 2) * x ** (i + 2) for i, b in enumerate(betas)) + 0 * x


def taylor_d(betas, center_wl, W, d):
    x = W - PI2 * C_NMPS / center_wl
    out = 0 * x
    for i, b in enumerate(betas):
        if i + 2 >= d:
            out = out + b / math.factorial(i + 2 - d) * x ** (i + 2 - d)
    return out


def d_table(betas, center_wl, wls):
    """D (ps/nm/km) of the same dispersion at the wavelengths."""
    W = PI2 * C_NMPS / wls
    b2 = taylor_d(betas, center_wl, W, 2)              # ps^2/m
    return -PI2 * C_NMPS / wls ** 2 * b2 * 1000.0      # nm/ps / nm^2 * ps^2/m -> ps/nm/km


def n_table(betas, center_wl, wls, n0=1.45, ng=1.468):
    """Effective index whose beta is n0 w0/c + ng (w-w0)/c + taylor."""
    W = PI2 * C_NMPS / wls
    w0 = PI2 * C_NMPS / center_wl
    b = n0 * w0 * 1e12 / C + ng * (W - w0) * 1e12 / C + taylor(betas, center_wl, W)
    return b * wls * 1e-9 / PI2


def check_betas(what, B, full, g, rtol=1e-9, scale=None):
    """B is the curve 'full', reduced by value and slope at the center."""
    B = np.asarray(B)
    true(what + ': shape', B.shape == (g.N,))
    c, V = g.N // 2, g.V
    s = scale if scale is not None else max(np.abs(full).max(), 1e-12)
    same(what + ': value at the center', B[c], 0.0, rtol=0, atol=rtol * s)
    d = B - full
    # affine in V: equal to the chord through two well separated points
    a, b = 0, g.N - 1
    line = d[a] + (d[b] - d[a]) * (V - V[a]) / (V[b] - V[a])
    same(what + ': curvature', d, line, rtol=0, atol=rtol * s)
    if 2 <= c < g.N - 2:
        dV = V[1] - V[0]
        fd = (full[c + 1] - full[c - 1]) / (2 * dV)
        slope = (B[c + 1] - B[c - 1]) / (2 * dV)
        # difference quotient against derivative (five point estimate)
        dd = (full[c - 2] - 8 * full[c - 1] + 8 * full[c + 1] - full[c + 2]) / (12 * dV)
        same(what + ': group delay at the center', slope, 0.0, rtol=0,
             atol=1.6 * abs(fd - dd) + 2 * rtol * s / dV)


def curve(spec, g, z=0.0):
    """Reference beta curve of a fiber description on a grid."""
    betas = spec['betas'](z) if callable(spec['betas']) else spec['betas']
    if spec['fmt'] == 'D':       # expansion about the pulse center, orders >= 2
        b = [taylor_d(betas, spec['wl'], np.array(g.W[g.N // 2]), d) for d in range(2, 2 + len(betas))]
        return taylor([float(x) for x in b], C_NMPS / g.f0, g.W)
    return taylor(betas, spec['wl'], g.W)


WLS = np.linspace(700.0, 1900.0, 13)
DB = {
    'gvd_km': dict(dispersion_format='GVD', dispersion_gvd_units='ps^n/km', dispersion_gvd_center_wavelength=1550.0,
                   dispersion_data=[-20.0, 0.1, -2e-4], gamma=0.0013, is_gain=False, name='gvd_km'),
    'gvd_m': dict(dispersion_format='GVD', dispersion_gvd_units='ps^n/m', dispersion_gvd_center_wavelength=1300.0,
                  dispersion_data=[0.012, 3e-5], gamma=0.01, is_gain=False, name='gvd_m'),
    'dtab': dict(dispersion_format='D', dispersion_x_units='nm', dispersion_y_units='ps/nm/km',
                 dispersion_x_data=WLS.tolist(),
                 dispersion_y_data=d_table([-0.01, 5e-5, 1e-8], 1500.0, WLS).tolist(),
                 gamma=0.002, is_gain=False, name='dtab'),
    'gain': dict(dispersion_format='GVD', dispersion_gvd_units='ps^n/m', dispersion_gvd_center_wavelength=1550.0,
                 dispersion_data=[-0.02], gamma=0.001, is_gain=True, name='gain', gain_x_units='m',
                 gain_x_data=np.linspace(1500e-9, 1600e-9, 41).tolist(),
                 gain_y_data=(np.exp(-((np.linspace(1500, 1600, 41) - 1548.0) / 18.0) ** 2)
                              + 0.3 * np.exp(-((np.linspace(1500, 1600, 41) - 1530.0) / 6.0) ** 2)).tolist()),
    'gain_d': dict(dispersion_format='D', dispersion_x_units='nm', dispersion_y_units='ps/nm/km',
                   dispersion_x_data=WLS.tolist(),
                   dispersion_y_data=d_table([0.02, 1e-4], 1550.0, WLS).tolist(),
                   gamma=0.004, is_gain=True, name='gain_d', gain_x_units='m',
                   gain_x_data=np.linspace(1510e-9, 1590e-9, 21).tolist(),
                   gain_y_data=(1.0 + 0 * np.linspace(-1, 1, 21)).tolist()),
}
DB_SPEC = {
    'gvd_km': dict(fmt='GVD', wl=1550.0, betas=[-0.020, 1e-4, -2e-7], gamma=0.0013, gain=None),
    'gvd_m': dict(fmt='GVD', wl=1300.0, betas=[0.012, 3e-5], gamma=0.01, gain=None),
    'dtab': dict(fmt='D', wl=1500.0, betas=[-0.01, 5e-5, 1e-8], gamma=0.002, gain=None),
    'gain': dict(fmt='GVD', wl=1550.0, betas=[-0.02], gamma=0.001, gain='gain'),
    'gain_d': dict(fmt='D', wl=1550.0, betas=[0.02, 1e-4], gamma=0.004, gain='gain_d'),
}


def write_db(d, name='mydb'):
    with open(os.path.join(d, name + '.txt'), 'w') as f:
        json.dump(DB, f)


def write_dfile(path, betas, wl, header='', delimiter=','):
    with open(path, 'w') as f:
        f.write(header)
        for w, D in zip(WLS, d_table(betas, wl, WLS)):
            f.write('%.17g%s%.17g\n' % (w, delimiter, D))
