"""C16: nonlinear propagation obeys its conservation laws."""
import itertools
import math

import numpy as np

from mc import fibers as F
from mc import ssfm as S
from mc.core import same, true, Violation
from mc.ref import PI2, at_of, aw_of, epp

LEVEL = 'model_checking'
BOUNDS = ('5 pulse shapes x 3 powers x 4 fibers x 4 Raman models x steepening on/off x gain 0/+/- x 2 grids x 2 center wavelengths, and 16 of these on grids of 2048 and 4096 points, each against the conservation '
          'laws and an independent solution of the propagation equation; solitons of 3 widths x 2 orders of magnitude of gamma; weak pulses (1e-2..1e-6) in the wake of strong ones x 4 models x steepening x 2 (5) delays; fields, lengths and durations scaled by 1e-9..1e4; CW fields for 5 Raman fractions and 3 models')
CHUNK = 4
RAMAN = {'none': dict(disable_Raman=True), 'simple': dict(USE_SIMPLE_RAMAN=True), 'three': {}, 'freq': {}}
FIB = {'zero': [0.0], 'anom': [-0.01], 'norm3': [0.006, 6e-5], 'high': [-0.004, 3e-5, -4e-7]}


def scenarios(tier):
    q = tier == 'quick'
    for (N, T), wl in itertools.product([(128, 3.0)] if q else [(128, 3.0), (256, 5.0), (128, 2.0)], (1550.0, 900.0)):
        for kind, fib, ram, ss in itertools.product(('sech', 'gauss', 'two', 'mod', 'zero'), FIB, RAMAN, (0, 1)):
            if q and wl == 900.0 and (kind != 'two' or ram == 'simple'):
                continue
            if q and kind == 'zero' and (fib, ram) != ('anom', 'three'):
                continue
            yield ['gen', N, T, wl, kind, fib, ram, ss, [1.0, 20.0] if q else [0.01, 1.0, 20.0, 60.0]]
    for (N, T), kind, fib, ram, ss in itertools.product(((2048, 16.0), (4096, 96.0)), ('sech', 'two'), ('anom', 'high'), ('simple', 'three'), (0, 1)):
        yield ['gen', N, T, 1550.0, kind, fib, ram, ss, [1.0]]
    for w0 in (0.05, 0.1, 0.2):
        for gam in (0.002, 0.05):
            for N in (128, 256) if q else (128, 256, 512):
                yield ['soliton', w0, gam, N]
    for ram, ratio, wl in itertools.product(RAMAN, (1e-2, 1e-4, 1e-6), (1550.0, 800.0)):
        for delay in (0.35, 0.5) if q else (0.3, 0.35, 0.4, 0.5, 0.7):
            yield ['weak', ram, ratio, wl, delay]
    for ram in RAMAN:
        yield ['scale', ram, 'field']
        yield ['scale', ram, 'length']
    yield ['scale', 'none', 'time']
    for fr in (0.0, 0.1, 0.18, 0.5, 1.0):
        for ram in ('simple', 'three', 'freq'):
            for ss in (0, 1):
                yield ['cw', fr, ram, ss]
    for taus in ((0.0122, 0.032), (0.02, 0.05), (0.0122, 0.06), (0.03, 0.032)):
        for fr in (0.05, 0.18, 0.3):
            for ram in ('simple', 'freq'):
                yield ['params', fr, ram, taus]


def run(sc, rec):
    globals()['do_' + sc[0]](sc, rec)


def do_gen(sc, rec):
    _, N, T, wl, kind, fib, ram, ss, powers = sc
    L, gam = 0.5, 0.05
    for P, G in itertools.product(powers, (0.0, 0.7, -0.9)):
        if G and ram not in ('none', 'three'):
            continue
        p, g = S.pulse(kind, N, T, wl=wl, P=P)
        S.backend(fdraman=ram == 'freq')
        f = S.fiber(L, FIB[fib], gam, gain=G, wl=wl)
        A0 = np.array(p.AT)
        s = S.sim(local_error=1e-8, dz=1e-3, disable_self_steepening=not ss, **RAMAN[ram])
        po = s.propagate(p, f, 1)[3]
        A = np.array(po.AT)
        true('finite field', np.isfinite(A).all())
        rec.state(po)
        rec.step()
        if kind == 'zero':
            same('no field', A, 0 * A0, rtol=0, atol=0)
            continue
        if not ss:
            same('energy', S.energy(A), S.energy(A0) * math.exp(G * L), rtol=1e-6)
        elif not G:
            same('photon number', S.photons(g, A), S.photons(g, A0), rtol=1e-5 if P < 50 else 1e-4)
        if fib == 'zero' and ram == 'none' and not ss and not G:
            same('self phase modulation', A, A0 * np.exp(1j * gam * np.abs(A0) ** 2 * L), rtol=1e-6)
        R = S.raman_response(g, ram)
        want = S.gnlse(g, A0, L, np.array(f.get_betas(p)), gam, G, R, bool(ss), rtol=1e-8)
        # the strongest fields reach the edge of the spectrum
        same('solution of the propagation equation', A, want, rtol=2e-6 if P < 50 else 2e-4)
        if ram != 'none' and kind == 'sech' and not G and P == 20.0 and not ss:
            v0 = np.sum(np.abs(aw_of(g, A0)) ** 2 * g.V) / np.sum(np.abs(aw_of(g, A0)) ** 2)
            v1 = np.sum(np.abs(aw_of(g, A)) ** 2 * g.V) / np.sum(np.abs(aw_of(g, A)) ** 2)
            true('Raman scattering lowers the mean frequency (%g -> %g)' % (v0, v1), v1 < v0)


def do_soliton(sc, rec):
    _, w0, gam, N = sc
    T, b2 = 40 * w0, -0.01
    p, g = F.pulse(N, T, 1550.0)
    P = -b2 / (gam * w0 * w0)
    A0 = math.sqrt(P) / np.cosh(g.t / w0)
    p.set_AT(A0)
    L = 2.0 * w0 * w0 / -b2
    for n, m in itertools.product((1, 4), ('rk', 'ssfm')):
        f = S.fiber(L, [b2], gam)
        s = S.sim(m, local_error=1e-7, disable_Raman=True, disable_self_steepening=True)
        z, AW, AT, po = s.propagate(p, f, n)
        tol = 3e-4 if N > 64 and m == 'rk' else 2e-3
        same('soliton', po.AT, A0 * np.exp(0.5j * gam * P * L), rtol=tol)
        for i in range(n):
            same('soliton intensity %d' % i, np.abs(AT[:, i]), A0, rtol=tol)
        rec.state(po)
        rec.step(n)


def do_cw(sc, rec):
    _, fr, ram, ss = sc
    for N, T, P, L in ((64, 8.0, 2.0, 1.0), (128, 6.0, 0.1, 3.0)):
        p, g = S.pulse('cw', N, T, P=P)
        S.backend(fdraman=ram == 'freq')
        f = S.fiber(L, [-0.01], 0.3)
        A0 = np.array(p.AT)
        s = S.sim(local_error=1e-7, disable_self_steepening=not ss, f_R=fr, **RAMAN[ram])
        po = s.propagate(p, f, 2)[3]
        same('CW phase', po.AT, A0 * np.exp(0.3j * P * L), rtol=2e-6)
        rec.state(po)
        rec.step(2)


def do_weak(sc, rec):
    """A weak pulse in the Raman wake of a strong one: as accurate as a strong one."""
    _, ram, ratio, wl, delay = sc
    p, g = F.pulse(512, 3.0, wl)
    S.backend(fdraman=ram == 'freq')
    strong = np.sqrt(40.0) * np.exp(-(g.t + 0.3) ** 2 / 0.07 ** 2)
    weak = ratio * np.sqrt(40.0) * np.exp(-(g.t + 0.3 - delay) ** 2 / 0.06 ** 2)
    L, gam = 0.5, 0.05
    f = S.fiber(L, [0.0], gam)
    at = weak > 0.3 * weak.max()
    for ss in (0, 1):
        p.set_AT(strong + weak)
        s = S.sim(local_error=1e-11, dz=1e-3, disable_self_steepening=not ss, **RAMAN[ram])
        A = np.array(s.propagate(p, f, 1)[3].AT)
        want = S.gnlse(g, strong + weak, L, np.array(f.get_betas(p)), gam, 0.0, S.raman_response(g, ram), bool(ss), rtol=1e-11)
        same('strong pulse', A, want, rtol=1e-8)
        same('weak pulse, steepening %d' % ss, A[at], want[at], rtol=1e-4)
        rec.state(p, ss)
        rec.step()


def do_scale(sc, rec):
    """The equation has no absolute scale of field, length or (without Raman) time."""
    _, ram, what = sc
    S.backend(fdraman=ram == 'freq')
    for kind, m, ss, G in itertools.product(('sech', 'two'), ('rk', 'ssfm'), (0, 1), (0.0, 0.8)):
        if m == 'ssfm' and (ss or ram != 'none'):
            continue
        if what == 'time' and ss:
            continue

        def go(a, l, c):
            p, g = S.pulse(kind, 128, 3.0 * c, P=20.0)
            p.set_AT(np.sqrt(20.0) * a * SHAPE[kind](g.t / c))
            f = S.fiber(0.5 * l, [-0.01 * c ** 2 / l, 6e-5 * c ** 3 / l], 0.05 / a ** 2 / l, gain=G / l)
            s = S.sim(m, local_error=1e-6, dz=1e-3 * l, disable_self_steepening=not ss, **RAMAN[ram])
            z, AW, AT, po = s.propagate(p, f, 3)
            rec.state(po, a, l, c)
            rec.step(3)
            return z / l, AT / a, np.array(po.AT) / a
        base = go(1.0, 1.0, 1.0)
        for k in {'field': (1e-9, 1e-6, 1e-3, 30.0, 1e4), 'length': (1e-6, 1e-3, 20.0, 1e4), 'time': (1 / 16.0, 4.0, 40.0)}[what]:
            got = go(*{'field': (k, 1.0, 1.0), 'length': (1.0, k, 1.0), 'time': (1.0, 1.0, k)}[what])
            name = '%s, %s scaled by %g' % (kind, what, k)
            same(name + ': positions', got[0], base[0], rtol=1e-9)
            same(name + ': profiles', got[1], base[1], rtol=3e-6)
            same(name, got[2], base[2], rtol=1e-7)


SHAPE = {'sech': lambda t: (1 + 0j) / np.cosh(t / 0.1), 'two': lambda t: np.exp(-(t / 0.12) ** 2 + 3j * t) + 0.6 * np.exp(-((t - 0.4) / 0.1) ** 2)}


def do_params(sc, rec):
    _, fr, ram, (t1, t2) = sc
    p, g = S.pulse('sech', 128, 2.5, P=25.0)
    S.backend(fdraman=ram == 'freq')
    f = S.fiber(0.5, [-0.01], 0.05)
    A0 = np.array(p.AT)
    s = S.sim(local_error=1e-8, f_R=fr, tau_1=t1, tau_2=t2, **RAMAN[ram])
    po = s.propagate(p, f, 1)[3]
    want = S.gnlse(g, A0, 0.5, np.array(f.get_betas(p)), 0.05, 0, S.raman_response(g, ram, fr, t1, t2), True, rtol=1e-8)
    same('solution with these Raman parameters', po.AT, want, rtol=2e-6)
    rec.state(po)
    rec.step()
