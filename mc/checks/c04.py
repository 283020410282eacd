"""C04: generated pulses are what was asked for."""
import itertools

import numpy as np
from pynlo.light.DerivedPulses import SechPulse, GaussianPulse, SincPulse, CWPulse, NoisePulse

from mc.core import same, true, raises
from mc.pulses import observe, close
from mc.ref import ACCESSORS, C_NMPS, Grid, at_of, aw_of, epp

LEVEL = 'model_checking'
BOUNDS = ('full product of 3 families x 4 powers x peak/average x 3 repetition rates x 3 widths x 4 (N, window, wavelength) '
          'grids (3 more of 1000 to 4096 points) x 10 chirp combinations x positional/keyword call; every optional argument omitted or given; CW: 4 powers x 4 grids x 11 offsets; noise: 4 grids; '
          'then every sequence of 2 energy settings (thorough: more widths, grids, chirps)')

FAM = {'sech': SechPulse, 'gauss': GaussianPulse, 'sinc': SincPulse}
GRIDS = [(16, 10.0, 1550.0), (64, 5.0, 800.0), (30, 3.3, 1064.0), (128, 20.0, 1550.0)]
LARGE = [(1024, 20.0, 1550.0), (4096, 40.0, 1030.0), (1000, 16.0, 2000.0)]
CHIRPS = [(0, 0, 0, 0), (0.05, 0, 0, 0), (-0.3, 0, 0, 0), (0, 0.02, 0, 0), (0, 0, 1.5, 0), (0, 0, -2.0, 0),
          (0, 0, 0, 0.8), (0.1, -0.01, 0, 0), (0.1, 0.02, 0.5, -0.3), (1, 0, 0, 0)]


def shape(fam, t, T0):
    if fam == 'sech':
        return 1 / np.cosh(t / T0)
    if fam == 'gauss':
        return np.exp(-2.77 * 0.5 * (t / T0) ** 2)
    x = t / (T0 / 3.7909885)
    return np.where(x == 0, 1.0, np.sin(x) / np.where(x == 0, 1.0, x))


def scenarios(tier):
    widths = (0.2, 0.5, 1.0) if tier == 'quick' else (0.05, 0.2, 0.35, 0.5, 1.0, 3.0)
    powers = (1, 0.25, 30.0, 1e4) if tier == 'quick' else (1, 0.25, 30.0, 1e4, 1e-6)
    grids = GRIDS if tier == 'quick' else GRIDS + [(2, 4.0, 1550.0), (256, 50.0, 2000.0), (18, 1.5, 400.0)]
    for fam in FAM:
        for avg in (False, True):
            for g in grids:
                for w in widths:
                    yield ['pulse', fam, avg, list(g), w, list(powers)]
    for fam in FAM:
        for avg in (False, True):
            for g in LARGE:
                yield ['pulse', fam, avg, list(g), 0.3, [30.0]]
    for fam in FAM:
        for avg in (False, True):
            for g in grids[:3]:
                for w in (0.03, 0.3, 40.0):
                    yield ['pulse', fam, avg, list(g), w, [1e-13, 1e10]]
    for fam in FAM:
        yield ['defaults', fam]
    for g in grids + LARGE:
        for P in (1.0, 0.04, 250.0, 3, 1e-16, 1e12):
            yield ['cw', list(g), P]
        yield ['noise', list(g)]


def run(sc, rec):
    if sc[0] == 'pulse':
        _, fam, avg, (N, T, wl), T0, powers = sc
        for P, frep, ch, kw in itertools.product(powers, (100.0, 80.0, 1000.0) if powers[0] != 1e-13 else (1e-3, 80.0, 1e5), CHIRPS, (False, True)):
            if kw and (frep != 80.0 or P == 1):
                continue
            g = Grid(N, C_NMPS / wl, T, frep)
            if kw:
                p = FAM[fam](P, T0, wl, T, frep, N, *ch, avg)
            else:
                p = FAM[fam](P, T0, center_wavelength_nm=wl, time_window_ps=T, frep_MHz=frep, NPTS=N,
                             GDD=ch[0], TOD=ch[1], chirp2=ch[2], chirp3=ch[3], power_is_avg=avg)
            for n, f in ACCESSORS.items():
                same(n, getattr(p, n), f(g), rtol=1e-9)
            a = shape(fam, g.t, T0).astype(complex)
            if avg:
                a = a * np.sqrt(P / (frep * 1e6 * epp(g, a)))
            else:
                a = a * np.sqrt(P)
            aw = aw_of(g, a)
            aw = aw * np.exp(0.5j * ch[0] * g.V ** 2 + 1j * ch[1] / 6.0 * g.V ** 3)
            tau = g.t / (T0 / 3.7909885 if fam == 'sinc' else T0)     # each family's own time scale
            a = at_of(g, aw) * np.exp(-0.5j * ch[2] * tau ** 2 - 1j / 3.0 * ch[3] * tau ** 3)
            rt = 1e-8 if T0 > 0.1 else 1e-6       # phases of many turns
            same('AT', p.AT, a, rtol=rt)
            same('AW', p.AW, aw_of(g, a), rtol=rt)
            if avg and not any(ch):
                same('average power', p.calc_epp() * frep * 1e6, P, rtol=1e-9)
            rec.state(p)
            rec.step()
            if P in (30.0, 1e10) and ch == CHIRPS[8] and not kw:
                for e1, e2 in itertools.product((1e-12, 3e-9, 2.0, 1e-27, 2.0000002, 1.0000002e-27), repeat=2):
                    q = p.create_cloned_pulse()
                    b = observe(q)
                    q.set_epp(e1)
                    q.set_epp(e2)
                    same('energy', q.calc_epp(), e2, rtol=1e-9)
                    s = np.sqrt(e2 / epp(g, a))
                    same('scaled AT', q.AT, a * s, rtol=rt)
                    close('set_epp', b, observe(q), skip=('AW', 'AT'))
                    rec.state(q)
                    rec.step()
    elif sc[0] == 'defaults':
        # an optional argument which is not given has the documented default
        fam = sc[1]
        opt = dict(time_window_ps=10.0, frep_MHz=100.0, NPTS=1024, GDD=0, TOD=0, chirp2=0, chirp3=0, power_is_avg=False)
        for name, v in [(None, None), ('time_window_ps', 7.0), ('frep_MHz', 55.0), ('NPTS', 512), ('GDD', 0.01), ('TOD', 0.002), ('chirp2', 0.4),
                        ('chirp3', 0.2), ('power_is_avg', True)]:
            some = {} if name is None else {name: v}
            p, q = FAM[fam](7.0, 0.4, 1300.0, **some), FAM[fam](7.0, 0.4, 1300.0, **dict(opt, **some))
            close('omitted arguments, %s' % some, observe(q), observe(p), rtol=1e-12)
            if name is None:
                g = Grid(1024, C_NMPS / 1300.0, 10.0, 100.0)
                for n, f in ACCESSORS.items():
                    same(n, getattr(p, n), f(g), rtol=1e-9)
                same('AT', p.AT, shape(fam, g.t, 0.4) * np.sqrt(7.0), rtol=1e-8)
            rec.state(p)
            rec.step()
        if fam == 'sech':
            p, q = CWPulse(2.0, 1300.0), CWPulse(2.0, 1300.0, time_window_ps=10.0, NPTS=256, offset_from_center_THz=None)
            close('CW', observe(q), observe(p), rtol=1e-12)
            p, q = NoisePulse(1300.0), NoisePulse(1300.0, time_window_ps=10.0, NPTS=256, frep_MHz=None)
            close('noise', observe(q), observe(p), rtol=1e-12, skip=('AW', 'AT'))
    elif sc[0] == 'cw':
        _, (N, T, wl), P = sc
        p = CWPulse(P, wl, time_window_ps=T, NPTS=N)
        g = Grid(N, C_NMPS / wl, T)
        line(p, g, N // 2, P)
        same('center', p.center_wavelength_nm, wl, rtol=1e-10)
        rec.state(p)
        for off in (0.0, 0.1, -0.1, 0.26, -0.26, 0.4, -0.55, 0.7, -0.7, 0.93, -1.2):
            b = off * T
            if abs(abs(b % 1) - 0.5) < 1e-3:
                continue
            k = int(np.round(b))
            if not 0 <= N // 2 + k < N:
                continue
            p = CWPulse(P, wl, time_window_ps=T, NPTS=N, offset_from_center_THz=off)
            g = Grid(N, C_NMPS / wl - k / T, T)
            line(p, g, N // 2 + k, P)
            same('wavelength of the line', p.wl_nm[int(np.argmax(np.abs(p.AW)))], wl, rtol=1e-9)
            rec.state(p)
            rec.step()
    else:
        _, (N, T, wl) = sc
        for frep in (None, 80.0):
            p = NoisePulse(wl, time_window_ps=T, NPTS=N, frep_MHz=frep)
            g = Grid(N, C_NMPS / wl, T, frep if frep else p.frep_MHz)
            for n, f in ACCESSORS.items():
                if frep or not n.startswith('frep'):
                    same(n, getattr(p, n), f(g), rtol=1e-9)
            a = np.abs(p.AW)
            true('noise amplitude is not zero and tiny', 0 < a.max() < 1e-20)
            same('noise amplitude', a, np.full(N, a[0]), rtol=1e-9)
            ph = np.angle(p.AW)
            true('noise phase is random', N < 8 or np.ptp(ph) > 0.5)
            rec.state(p)
            rec.step()


def line(p, g, k, P):
    for n, f in ACCESSORS.items():
        same(n, getattr(p, n), f(g), rtol=1e-9)
    w = np.abs(p.AW)
    same('CW line', w ** 2, np.where(np.arange(g.N) == k, P, 0.0), rtol=1e-9)
    same('CW power', np.abs(p.AT) ** 2, np.full(g.N, float(P)), rtol=1e-9)
