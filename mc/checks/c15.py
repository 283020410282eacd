"""C15: propagation outputs are mutually consistent and configuration independent."""
import itertools

import numpy as np

from mc import fibers as F
from mc import ssfm as S
from mc.core import same, true
from mc.pulses import observe, close
from mc.ref import at_of, aw_of

LEVEL = 'model_checking'
BOUNDS = ('full product of 4 pulse shapes x 4 Raman models x steepening on/off x FFT back end x shift convention x method x 1,2,3,5 outputs x 2 initial steps '
          'on a 128 (thorough: also 256) point grid and 4 combinations on 1024 points, each compared with an independent solution of the propagation equation at every output')
CHUNK = 4
RAMAN = {'none': dict(disable_Raman=True), 'simple': dict(USE_SIMPLE_RAMAN=True), 'three': {},
         'freq': dict()}


def scenarios(tier):
    q = tier == 'quick'
    for N, T in ([(128, 2.5)] if q else [(128, 2.5), (256, 3.0), (128, 3.5)]):
        for kind in ('sech', 'gauss', 'two', 'mod'):
            for ram, ss in itertools.product(RAMAN, (0, 1)):
                for gain in (0, 0.8):
                    if q and gain and kind != 'two':
                        continue
                    for m in ('rk', 'ssfm'):
                        yield [N, T, kind, ram, ss, gain, m]
    for n in (65, 130, 400):
        yield ['many', n]
    for kind, ram, ss in (('sech', 'none', 0), ('two', 'three', 1), ('sech', 'simple', 1), ('two', 'freq', 0)):
        yield [1024, 12.0, kind, ram, ss, 0, 'rk']


def run(sc, rec):
    if sc[0] == 'many':
        return do_many(sc[1], rec)
    N, T, kind, ram, ss, gain, m = sc
    p, g = S.pulse(kind, N, T, P=20.0, frep=73.0)
    L = 0.8 if m == 'rk' else 0.3
    f = S.fiber(L, [-0.008, 5e-5], 0.04, gain=gain)
    before = observe(p)
    A0 = np.array(p.AT)
    beta = np.array(f.get_betas(p))
    R = S.raman_response(g, ram)
    ns = (1, 2, 3, 5) if m == 'rk' else (1, 3)
    zall = sorted({L * (i + 1) / n for n in ns for i in range(n)})
    ref = dict(zip(zall, S.gnlse(g, A0, L, beta, 0.04, gain, R, bool(ss), zall)))
    le = 1e-6
    # first order splitting when the nonlinearity is not a pure phase
    tol = 5e-5 if m == 'rk' else 2e-3 if ss or ram != 'none' else 5e-4
    backs = [(1, 1), (0, 1), (1, 0), (0, 0)]
    for n, (bk, dz) in itertools.product(ns, [(b, 1e-3) for b in backs] + [(backs[0], 0.2), (backs[3], 40.0)]):
        S.backend(*bk, fdraman=ram == 'freq')
        s = S.sim(m, local_error=le, dz=dz, disable_self_steepening=not ss, **RAMAN[ram])
        AW, AT, po = S.outputs('propagate', s.propagate(p, f, n), g, L, n)
        for i in range(n):
            same('column %d and the field of its position' % i, AT[:, i], ref[min(zall, key=lambda z: abs(z - L * (i + 1) / n))], rtol=tol)
            same('column %d: spectrum and field' % i, AW[:, i], aw_of(g, AT[:, i]), rtol=2e-6)
        same('last column and pulse', AT[:, -1], po.AT, rtol=2e-6)
        same('last column and pulse', AW[:, -1], po.AW, rtol=2e-6)
        same('pulse out', po.AT, at_of(g, po.AW), rtol=1e-10)
        b = observe(po)
        close('pulse out keeps the grid', before, b, rtol=1e-12, skip=('AW', 'AT'))
        rec.state(po, s)
        rec.step(n)


def do_many(n, rec):
    """Hundreds of outputs."""
    p, g = S.pulse('sech', 64, 2.5, P=20.0)
    L = 0.4
    f = S.fiber(L, [-0.008, 5e-5], 0.04)
    zs = [L * (i + 1) / n for i in range(n)]
    ref = S.gnlse(g, np.array(p.AT), L, np.array(f.get_betas(p)), 0.04, 0, None, False, zs)
    for dz in (1e-3, 0.2):
        S.backend(1, 1)
        s = S.sim('rk', local_error=1e-6, dz=dz, disable_self_steepening=True, disable_Raman=True)
        AW, AT, po = S.outputs('propagate', s.propagate(p, f, n), g, L, n)
        for i in range(n):
            same('column %d of %d' % (i, n), AT[:, i], ref[i], rtol=1e-4)
            same('column %d: spectrum and field' % i, AW[:, i], aw_of(g, AT[:, i]), rtol=2e-6)
        same('last column and pulse', AT[:, -1], po.AT, rtol=2e-6)
        rec.state(po, s)
        rec.step(n)
