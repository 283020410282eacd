"""C18: a position-dependent fiber equals the cascade of its segments."""
import itertools

import numpy as np
from pynlo.media.fibers.fiber import FiberInstance

from mc import fibers as F
from mc import ssfm as S
from mc.core import same, true
from mc.pulses import observe, unchanged

LEVEL = 'model_checking'
BOUNDS = ('every assignment of 3 dispersions and 3 nonlinearities to up to 3 (thorough: 4) segments, in Taylor and D-table form, '
          'dispersion and/or nonlinearity position dependent, with and without gain, reloading on/off, forward order; tapers of 12, 40 (120) slightly different segments in 3 formats at 3 scales of field; six segments of 40 um, 0.7 mm and 600 m; each column compared with the explicit cascade')
CHUNK = 6
BET = {'GVD': ([-0.01, 4e-5], [0.012, -3e-5], [0.0, 1e-4]),
       'D': (None, None, None)}
GAM = (0.02, 0.0, 0.06)
L = 0.6


def scenarios(tier):
    q = tier == 'quick'
    for n in (1, 2, 3) if q else (1, 2, 3, 4):
        for bs in itertools.product(range(3), repeat=n):
            for gs in itertools.product(range(3), repeat=n):
                if n == 4 and len(set(zip(bs, gs))) < 3:
                    continue
                if n == 3 and q and bs != gs and len(set(bs)) > 1 and len(set(gs)) > 1:
                    continue
                yield ['GVD', list(bs), list(gs)]
            yield ['D', list(bs), [b for b in bs]]
    for fmt, e, a, n in itertools.product(('GVD', 'D', 'n'), (3e-4, -0.015), (1.0, 1e3, 1e-3), (12, 40) if q else (12, 40, 120)):
        yield ['taper', fmt, e, a, n, 0.4]
    for fmt, e, h in itertools.product(('GVD', 'D'), (-0.1, 0.3), (4e-5, 7.3e-4, 600.0)):
        yield ['taper', fmt, e, 1.0, 6, h]
    for gain in (0, 0.7):
        for fmt in ('GVD', 'D'):
            yield ['const', fmt, gain]


def dtable(b):
    return F.d_table(([-0.01, 5e-5], [0.012, -3e-5], [0.004, 1e-4])[b], 1550.0, F.WLS)


def base(fmt, gain=0, length=L):
    f = FiberInstance()
    f.generate_fiber(length, 1550.0, BET['GVD'][0], GAM[0], gvd_units='ps^n/m', gain=gain)
    return f


def uniform(fmt, b, gam, length, gain=0):
    """A fiber of one segment, built the ordinary way."""
    f = FiberInstance()
    if fmt == 'GVD':
        f.generate_fiber(length, 1550.0, list(BET['GVD'][b]), gam, gvd_units='ps^n/m', gain=gain)
    else:
        f.generate_fiber(length, 1550.0, [0.0], gam, gvd_units='ps^n/m', gain=gain)
        f.set_dispersion_function(lambda z: (F.WLS.copy(), dtable(b)), dispersion_format='D')
    return f


def seg(z, n):
    return min(max(int(z / (L / n) + 1e-9), 0), n - 1)


def run(sc, rec):
    if sc[0] == 'const':
        return const(sc, rec)
    if sc[0] == 'taper':
        return taper(sc, rec)
    fmt, bs, gs = sc
    n = len(bs)
    for gain, le, which in ((0, 1e-7, 'both'), (0.5, 1e-7, 'both'), (0, 1e-7, 'disp'), (0, 1e-7, 'gamma')):
        p, g = S.pulse('two', 128, 3.0, P=15.0)
        ob = observe(p)
        f = base(fmt, gain)
        zs = []
        b_at = (lambda i: bs[i]) if which != 'gamma' else (lambda i: 0)
        g_at = (lambda i: gs[i]) if which != 'disp' else (lambda i: 0)
        if which != 'gamma':
            if fmt == 'GVD':
                f.set_dispersion_function(lambda z: list(BET['GVD'][bs[seg(z, n)]]), dispersion_format='GVD')
            else:
                f.set_dispersion_function(lambda z: (F.WLS.copy(), dtable(bs[seg(z, n)])), dispersion_format='D')
        if which != 'disp':
            f.set_gamma_function(lambda z: GAM[gs[seg(z, n)]])
        s = S.sim(local_error=le, dz=1e-3)
        r = S.outputs('propagate', s.propagate(p, f, n, reload_fiber_each_step=True), g, L, n)
        unchanged('input', ob, p)
        q = p
        fm = fmt if which != 'gamma' else 'GVD'
        for i in range(n):
            q = S.sim(local_error=le, dz=1e-3).propagate(q, uniform(fm, b_at(i), GAM[g_at(i)], L / n, gain), 1)[3]
            same('field after segment %d' % i, r[1][:, i], q.AT, rtol=2e-5)
            same('spectrum after segment %d' % i, r[0][:, i], q.AW, rtol=2e-5)
        same('pulse after the cascade', r[2].AT, q.AT, rtol=2e-5)
        rec.state(r[2], s)
        rec.step(n)
        # the reloading simulator is not influenced by what it did before
        r2 = s.propagate(p, f, n, reload_fiber_each_step=True)
        same('once more', r2[3].AT, q.AT, rtol=2e-5)
        rec.step(n)


def taper(sc, rec):
    """Many segments, each only a little different from the one before."""
    _, fmt, e, a, n, h = sc
    x = 0.4 / h         # strength of the fiber
    dz = 1e-3 / x
    p, g = S.pulse('two', 128, 3.0, P=2.0)
    p.set_AT(p.AT * a)
    at = lambda z: 1 + e * min(max(int(z / h + 1e-9), 0), n - 1)

    def disp(r):
        if fmt == 'GVD':
            return [-0.011 * r * x, 5e-5 * r * x]
        if fmt == 'D':
            return F.WLS.copy(), F.d_table([-0.01 * r * x, 5e-5 * x], 1550.0, F.WLS)
        w = np.linspace(900.0, 2800.0, 300)
        return w, index(w, r)

    def fiber(gam, length):
        f = FiberInstance()
        f.generate_fiber(length, 1550.0, [-0.011 * x, 5e-5 * x], gam * x)
        return f
    f = fiber(0.02 / a ** 2, n * h)
    f.set_dispersion_function(lambda z: disp(at(z)), dispersion_format=fmt)
    f.set_gamma_function(lambda z: 0.02 / a ** 2 * at(z) * x)
    s = S.sim(local_error=1e-7, dz=dz)
    r = S.outputs('taper', s.propagate(p, f, n, reload_fiber_each_step=True), g, n * h, n)
    q = p
    for i in range(n):
        k = 1 + e * i
        u = fiber(0.02 / a ** 2 * k, h)
        if fmt != 'GVD' or i % 2:
            u.set_dispersion_function(lambda z: disp(k), dispersion_format=fmt)
        else:
            u.generate_fiber(h, 1550.0, disp(k), 0.02 / a ** 2 * k * x)
        q = S.sim(local_error=1e-7, dz=dz).propagate(q, u, 1)[3]
        same('field after segment %d' % i, r[1][:, i], q.AT, rtol=1e-4)
    same('pulse after the cascade', r[2].AT, q.AT, rtol=1e-4)
    rec.state(r[2], s)
    rec.step(n)


def index(w, r):
    """Index of a fiber with a curvature that depends on r."""
    om = 2 * np.pi * 299792.458 / w
    o0 = 2 * np.pi * 299792.458 / 1550.0
    beta = 5.8e6 + 4.9e3 * (om - o0) - 0.5 * 0.011 * r * (om - o0) ** 2 + 5e-5 / 6 * (om - o0) ** 3
    return beta * w * 1e-9 / (2 * np.pi)


def const(sc, rec):
    _, fmt, gain = sc
    p, g = S.pulse('two', 128, 3.0, P=15.0)
    for b, gi, n in itertools.product(range(3), range(3), (1, 2, 5)):
        u = uniform(fmt, b, GAM[gi], L, gain)
        want = S.sim(local_error=1e-7).propagate(p, u, 1)[3].AT
        f = base(fmt, gain)
        if fmt == 'GVD':
            f.set_dispersion_function(lambda z: BET['GVD'][b], dispersion_format='GVD')
        else:
            f.set_dispersion_function(lambda z: (F.WLS, dtable(b)), dispersion_format='D')
        f.set_gamma_function(lambda z: GAM[gi])
        for rl in (True, False):
            s = S.sim(local_error=1e-7, dz=1e-3)
            r = s.propagate(p, f, n, reload_fiber_each_step=rl)
            same('constant functions', r[3].AT, want, rtol=2e-5)
            rec.state(r[3], s)
            rec.step(n)
        for rl in (True, False):
            r = S.sim(local_error=1e-7, dz=1e-3).propagate(p, u, n, reload_fiber_each_step=rl)
            same('uniform fiber, reloaded', r[3].AT, want, rtol=2e-5)
            rec.step(n)
