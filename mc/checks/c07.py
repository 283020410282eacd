"""C07: copied, saved and reloaded pulses are the original pulse."""
import copy
import itertools
import json
import os
import pickle
import shutil
import tempfile

import numpy as np
from pynlo.light.PulseBase import Pulse
from pynlo.light.DerivedPulses import SechPulse, GaussianPulse, CWPulse, NoisePulse, FROGPulse

from mc.core import Violation, same, true
from mc.pulses import observe, close, unchanged
from mc.ref import ACCESSORS, Grid, field, C_NMPS

LEVEL = 'model_checking'
BOUNDS = ('11 source pulses x 10 target states x all chains of one or two (thorough: three) of 6 transfer routes, followed by each of '
          '5 further uses of the copy; FROG tables on wavelengths of their own: 4 shapes x 3 row orders x 3 lengths x 3 grids; FROG files: 5 spectra x 4 grids x both phase conventions x energy/average power x 2 '
          'repetition rates')
SCRATCH = None


def setup():
    global SCRATCH
    SCRATCH = tempfile.mkdtemp(prefix='verif-c07-')


def teardown():
    if SCRATCH:
        shutil.rmtree(SCRATCH, ignore_errors=True)


def source(n):
    if n == 'sech':
        return SechPulse(10.0, 0.8, 1550.0, time_window_ps=10.0, frep_MHz=80.0, NPTS=16, GDD=0.1)
    if n == 'cw':
        return CWPulse(1.0, 1064.0, time_window_ps=7.0, NPTS=8, offset_from_center_THz=0.3)
    if n == 'noise':
        return NoisePulse(1550.0, time_window_ps=5.0, NPTS=8)
    if n == 'generic':
        p = Pulse(frep_MHz=33.0, n=10)
        p.set_center_wavelength_m(1.3e-6)
        p.set_time_window_s(4.5e-12)
        p.set_AW(field(10))
        return p
    if n == 'subset':
        p = source('sech')
        return p.create_subset_pulse(p.wl_nm[9], 6)
    if n == 'expanded':
        p = source('generic')
        p.expand_time_window(1, 'after')
        return p
    if n == 'interp':
        return source('generic').interpolate_to_new_center_wl(1290.0)
    if n == 'regrid':
        p = source('sech')
        for a in ('wl_nm', 'W_mks'):
            getattr(p, a)
        p.set_frequency_window_THz(3.0)
        p.set_center_wavelength_nm(1600)
        return p
    if n == 'one':
        p = Pulse(frep_MHz=1.0, n=2)
        p.set_center_wavelength_nm(500.0)
        p.set_time_window_ps(1.0)
        p.set_AT([1.0, 2.0j])
        return p
    if n == 'norate':
        p = source('generic')
        p.set_frep_MHz(None)
        return p
    if n == 'dark':
        p = source('generic')
        p.set_AW(np.zeros(10))
        return p
    raise KeyError(n)


SRC = ['sech', 'cw', 'noise', 'generic', 'subset', 'expanded', 'interp', 'regrid', 'one', 'dark', 'norate']


def target(n):
    if n == 'new':
        return Pulse()
    if n == 'newn':
        return Pulse(frep_MHz=5.0, n=10)
    if n == 'big':
        return SechPulse(1.0, 0.5, 800.0, time_window_ps=20.0, frep_MHz=250.0, NPTS=32)
    if n == 'small':
        p = CWPulse(1.0, 1550.0, time_window_ps=10.0, NPTS=4)
        return p
    if n == 'cached':
        p = source('sech')
        observe(p)
        return p
    if n == 'cached_other':
        p = source('generic')
        observe(p)
        return p
    if n == 'samegrid':
        p = source('sech')
        p.set_center_wavelength_nm(900.0)
        observe(p)
        return p
    if n == 'pending':
        p = source('sech')
        p.set_NPTS(24)          # new grid size, field not yet written
        return p
    if n == 'mks':
        p = Pulse(n=12)
        p.set_center_wavelength_m(2e-6)
        p.set_time_window_s(1e-12)
        return p
    if n == 'frog':
        return FROGPulse(5.0, 1550.0, 1e-12, NPTS=16, fileloc=_frogfile())
    raise KeyError(n)


TGT = ['new', 'newn', 'big', 'small', 'cached', 'cached_other', 'samegrid', 'pending', 'mks', 'frog']
ROUTES = ['clone_pulse', 'dict', 'json', 'create_cloned_pulse', 'deepcopy', 'pickle']


def _frogfile():
    f = os.path.join(SCRATCH, 'seed%d.dat' % os.getpid())
    if not os.path.exists(f):
        GaussianPulse(1.0, 0.4, 1550.0, time_window_ps=5.0, NPTS=16).write_frog(f)
    return f


def transfer(p, route, tgt):
    if route == 'create_cloned_pulse':
        return p.create_cloned_pulse()
    if route == 'deepcopy':
        return copy.deepcopy(p)
    if route == 'pickle':
        return pickle.loads(pickle.dumps(p))
    q = target(tgt)
    if route == 'clone_pulse':
        r = q.clone_pulse(p)
        true('clone_pulse returns nothing', r is None)
    elif route == 'dict':
        q.load_pulse_dict(p.get_pulse_dict())
    else:
        q.load_pulse_dict(json.loads(json.dumps(p.get_pulse_dict())))
    return q


def scenarios(tier):
    for s in SRC:
        for t in TGT:
            yield ['copy', s, t, 2]
        if tier == 'thorough':
            for t in ('new', 'big', 'pending'):
                yield ['copy', s, t, 3]
    for spec in range(5):
        for g in ((16, 8.0, 1550.0), (64, 20.0, 800.0), (32, 5.0, 1064.0), (128, 12.0, 2000.0)):
            for scale in (1.0,) if spec > 1 else (1.0, 1e-13, 1e9):
                yield ['frog', spec, list(g), scale]
            if spec < 4:
                yield ['froggrid', spec, list(g)]
    for shape in range(4):
        for order in ORDERS:
            for rows in (8, 23, 150):
                yield ['frogdata', shape, order, rows]


ORDERS = ('up', 'down', 'mixed')

def same_pulse(what, b, q):
    close(what, b, observe(q), rtol=1e-9)
    for n, f in ACCESSORS.items():      # and the copy is consistent in itself
        g = Grid(q.NPTS, q.center_frequency_THz, q.time_window_ps, q.frep_MHz)
        v, w = getattr(q, n), f(g)
        if v is None or w is None:
            true('%s: %s is %r, expected %r' % (what, n, v, w), v is w)
        else:
            same(what + ': ' + n, v, w, rtol=1e-9)


def use(p, k):
    if k == 'chirp':
        p.chirp_pulse_W(0.1, 0.01)
    elif k == 'epp':
        p.set_epp(1e-9)
    elif k == 'expand':
        p.expand_time_window(1, 'even')
    elif k == 'recenter':
        p.set_center_wavelength_nm(1234.0)
    elif k == 'window':
        p.set_time_window_ps(3.75)


def do_frogdata(shape, order, rows, rec):
    """A table on wavelengths of its own, covering part of the grid or more than it."""
    wl0, span = [(1550.0, 60.0), (1530.0, 400.0), (1600.0, 25.0), (1400.0, 300.0)][shape]
    x = np.linspace(-1, 1, rows) + 0.3 / rows * np.sin(np.arange(rows) * 2.0)
    lam = wl0 + span * x
    mag = [np.exp(-3 * x ** 2), 1.0 + 0.2 * np.sin(7 * x), 1 - 0.5 * np.abs(x), 1e-4 * (1 + x ** 2)][shape]
    ph = [2 * x, 5 * x ** 2, np.zeros(rows), 14 * x ** 3][shape]
    i = {'up': slice(None), 'down': slice(None, None, -1), 'mixed': np.argsort(np.sin(np.arange(rows) * 7.0))}[order]
    f = os.path.join(SCRATCH, 't%d.dat' % os.getpid())
    np.savetxt(f, np.array([lam, mag, ph]).T[i], fmt='%.17g')
    for (N, T, wl), flip, avg, frep in itertools.product(((16, 3.0, 1550.0), (64, 5.0, 1500.0), (256, 12.0, 1620.0)), (True, False), (True, False), (100.0, 0.5)):
        g = Grid(N, C_NMPS / wl, T)
        m = np.interp(g.wl[::-1], lam, mag, left=0, right=0)[::-1]
        a = m * np.exp((-1j if flip else 1j) * np.interp(g.wl[::-1], lam, ph, left=0, right=0)[::-1])
        if np.count_nonzero(m) == 0 or (np.abs(g.wl[:, None] - lam[[0, -1]]) < 1e-6).any():
            continue
        for rep in (0, 1):
            q = FROGPulse(T, wl, 0.02 if avg else 3e-10, frep_MHz=frep, NPTS=N, power_is_avg=avg, fileloc=f, flip_phase=flip)
            e = 0.02 / (frep * 1e6) if avg else 3e-10
            same('energy', q.calc_epp(), e, rtol=1e-9)
            c = observe(q)
            s = np.vdot(a, c['AW']) / np.vdot(a, a)
            true('positive scale', s.real > 0 and abs(s.imag) < 1e-9 * s.real)
            same('field from the table', c['AW'], s.real * a, rtol=1e-8)
            same('frequencies', c['W_mks'], g.W * 1e12, rtol=1e-9)
            rec.step()
        rec.state(q)


def do_froggrid(sc, rec):
    """A smooth field read back on finer, shifted and narrower grids is that field."""
    _, spec, (N, T, wl) = sc
    n = 16 * N
    f0 = C_NMPS / wl
    F = N / T / 2
    fun = lambda f: np.exp(-20 * ((f - f0) / F) ** 2) * np.exp(1j * (9 * (f - f0) / F + [0, 12.0, -7.0, 3.0][spec] * ((f - f0) / F) ** 2))
    p = Pulse(frep_MHz=100.0, n=n)
    p.set_center_wavelength_nm(wl)
    p.set_time_window_ps(16 * T)
    g = Grid(n, f0, 16 * T)
    p.set_AW(fun(g.F))
    f = os.path.join(SCRATCH, 'g%d.dat' % os.getpid())
    for flip in (True, False):
        p.write_frog(f, flip_phase=flip)
        for N2, T2, wl2 in ((N, T, wl), (n, 17.3 * T, wl), (N, 1.3 * T, C_NMPS / (f0 + 0.013 * F)), (2 * n, 37.7 * T, C_NMPS / (f0 - 0.021 * F))):
            q = FROGPulse(T2, wl2, 1e-9, NPTS=N2, fileloc=f, flip_phase=flip)
            a = fun(Grid(N2, C_NMPS / wl2, T2).F)
            a[np.abs(a) < 1e-6] = 0
            s = np.vdot(a, q.AW) / np.vdot(a, a)
            true('positive scale', s.real > 0 and abs(s.imag) < 0.03 * s.real)
            same('field on another grid', q.AW, s.real * a, rtol=0.05)
            rec.state(q)
            rec.step()


def run(sc, rec):
    if sc[0] == 'frogdata':
        return do_frogdata(sc[1], sc[2], sc[3], rec)
    if sc[0] == 'copy':
        _, s, t, depth = sc
        for chain in itertools.chain(*[itertools.product(ROUTES, repeat=d) for d in range(1, depth + 1)]):
            # a route which makes its own target does not depend on the target
            if t != 'new' and not any(r in ('clone_pulse', 'dict', 'json') for r in chain):
                continue
            p = source(s)
            b = observe(p)
            q = p
            for r in chain:
                q = transfer(q, r, t)
                rec.step()
            same_pulse('%s via %s into %s' % (s, '+'.join(chain), t), b, q)
            unchanged('the source', b, p)
            rec.state(q)
            if len(chain) == 1:
                for k in ('chirp', 'epp', 'expand', 'recenter', 'window'):
                    if k == 'epp' and s == 'dark':
                        continue
                    p, q = source(s), None
                    q = transfer(p, chain[0], t)
                    b = observe(p)
                    use(q, k)
                    unchanged('the source', b, p)
                    use(p, k)
                    same_pulse('%s of the copy' % k, observe(p), q)
                    rec.state(q)
                    rec.step()
        return
    if sc[0] == 'froggrid':
        return do_froggrid(sc, rec)
    _, spec, (N, T, wl), scale = sc
    g = Grid(N, C_NMPS / wl, T)
    x = g.V / np.abs(g.V).max()
    a = np.exp(-5 * x ** 2)
    ph = [0 * x, 2.5 * x ** 2, 3 * x ** 3 - x, -1.2 * x ** 2 + 0.7, np.where(np.abs(x) < 0.5, 1.0 * x, 0.5 * np.sign(x))][spec]
    if spec == 4:
        a = a * (1 + 0.3 * np.cos(9 * x))
    a[np.abs(a) < 1e-3] = 0
    a[0] = a[-1] = 0
    a = a * scale
    for flip, avg, frep in itertools.product((True, False), (True, False), (100.0, 37.0)):
        p = Pulse(frep_MHz=frep, n=N)
        p.set_center_wavelength_nm(wl)
        p.set_time_window_ps(T)
        p.set_AW(a * np.exp(1j * ph))
        f = os.path.join(SCRATCH, 'w%d.dat' % os.getpid())
        b = observe(p)
        if flip:
            p.write_frog(f)
            q = FROGPulse(T, wl, 0.02 if avg else 3e-10, frep_MHz=frep, NPTS=N, power_is_avg=avg, fileloc=f)
        else:
            p.write_frog(fileloc=f, flip_phase=False)
            q = FROGPulse(T, wl, 0.02 if avg else 3e-10, frep_MHz=frep, NPTS=N, power_is_avg=avg, fileloc=f, flip_phase=False)
        unchanged('the saved pulse', b, p)
        e = 0.02 / (frep * 1e6) if avg else 3e-10
        same('energy', q.calc_epp(), e, rtol=1e-9)
        s = np.sqrt(e / p.calc_epp())
        c = observe(q)
        close('grid', b, c, skip=('AW', 'AT'))
        same('field', c['AW'], b['AW'] * s, rtol=1e-8)
        rec.state(q)
        rec.step(2)
