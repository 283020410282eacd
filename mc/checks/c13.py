"""C13: linear propagation is exact."""
import itertools
import os
import shutil
import tempfile

import numpy as np
from pynlo.media.fibers.fiber import FiberInstance

from mc import fibers as F
from mc import ssfm as S
from mc.core import same, true
from mc.pulses import observe, unchanged
from mc.ref import aw_of, at_of

LEVEL = 'model_checking'
BOUNDS = ('2 methods x 3 (thorough 7) initial steps x 2 (3) tolerances x 1..5 (some: 40, 101) outputs x 6 fibers (Taylor, D table, flat gain/loss, gain spectrum) x 3 grids (some: 1024, 4096 points; some: fields of 1e-12 and 1e7) '
          'x FFT back end x shift convention x Raman/steepening switches; forward/backward pairs on the same set; lengths from 3e-10 m to 70 km; steps which leave 1e-3 to 1e-9 of the distance; thorough: more steps, lengths, grids')
SCRATCH = None
CHUNK = 8


def setup():
    global SCRATCH
    SCRATCH = tempfile.mkdtemp(prefix='verif-c13-')
    F.write_db(SCRATCH)


def teardown():
    if SCRATCH:
        shutil.rmtree(SCRATCH, ignore_errors=True)


GRIDS = [(16, 1.5, 1550.0), (64, 6.0, 1550.0), (32, 20.0, 1555.0), (128, 9.0, 1540.0), (2, 1.2, 1550.0), (1024, 30.0, 1550.0), (4096, 100.0, 1560.0)]
FIB = {
    'b2': lambda L: S.fiber(L, [-0.02], 0.0),
    'b234': lambda L: S.fiber(L, [0.013, -2e-4, 3e-6], 0.0, wl=1500.0),
    'zero': lambda L: S.fiber(L, [0.0], 0.0),
    'gain': lambda L: S.fiber(L, [-0.02, 1e-4], 0.0, gain=0.9),
    'loss': lambda L: S.fiber(L, [0.01], 0.0, gain=-1.7),
    'dtab': lambda L: load(L, 'dtab'),
    'spec': lambda L: load(L, 'gain'),
    # fibers as strong as they are short
    'perL': lambda L: S.fiber(L, [-0.02 / L, 3e-5 / L], 0.0),
    'gainperL': lambda L: S.fiber(L, [0.013 / L], 0.0, gain=1.3 / L),
    'dtabperL': lambda L: table_fiber(L),
}
ALWAYS = ('b2', 'b234', 'zero', 'gain', 'loss', 'dtab', 'spec')


def table_fiber(L):
    f = S.fiber(L, [0.0], 0.0)
    f.set_dispersion_function(lambda z: (F.WLS.copy(), F.d_table([-0.01 / L, 5e-5 / L], 1550.0, F.WLS)), dispersion_format='D')
    return f


def load(L, name):
    f = FiberInstance('mydb', SCRATCH)
    f.load_from_db(L, name)
    f.gamma = 0.0
    f.set_gamma_function(lambda z: 0.0)
    return f


def scenarios(tier):
    q = tier == 'quick'
    dzs = [1e-4, 0.25, 7.0] if q else [1e-7, 1e-5, 3e-3, 0.25, 0.5, 1.0, 7.0]
    les = [1e-9, 0.3] if q else [1e-9, 1e-3, 0.3]
    ns = [1, 2, 3, 5] + ([] if q else [7, 16])
    Ls = [1.0] if q else [1.0, 0.013, 40.0]
    backs = [(1, 1), (0, 1), (1, 0), (0, 0)]
    for fk, gi in itertools.product(ALWAYS, range(3 if q else 5)):
        if fk == 'spec' and gi not in (1, 2):
            continue
        for m, n, L in itertools.product(('rk', 'ssfm'), ns, Ls):
            if fk == 'spec' and (n > 2 or L != 1.0):
                continue
            for bk, sw in itertools.product(backs, range(4) if not q else (0, 3)):
                if q and n != 2 and bk[0] != bk[1]:
                    continue
                yield [fk, gi, m, n, L, bk, sw, dzs if fk != 'spec' else dzs[1:2], les if fk != 'spec' else les[:1]]


    for fk, gi, m, bk in itertools.product(('b234', 'gain', 'dtab'), (5, 6), ('rk', 'ssfm'), backs):
        yield [fk, gi, m, 3, 1.0, bk, 0, [0.25], [1e-9]]
    for fk, m, amp, bk in itertools.product(('b234', 'gain', 'dtab'), ('rk', 'ssfm'), (1e-12, 1e-5, 1e7), backs):
        yield [fk, 1, m, 2, 1.0, bk, 0, dzs, les, amp]
    for fk, m, L, n in itertools.product(('perL', 'gainperL', 'dtabperL'), ('rk', 'ssfm'), (3e-10, 2e-8, 5e-6, 1e-3, 7e4), (1, 3)):
        yield [fk, 1, m, n, L, (1, 1), 0, [0.3 * L, 7.0 * L, 1e-4 * max(1.0, L)], [1e-9]]
    # steps which leave next to nothing of the distance
    for fk, m, (L, n) in itertools.product(('perL', 'gainperL'), ('rk', 'ssfm'), ((1.0, 1), (0.3, 3), (2e4, 1))):
        yield [fk, 1, m, n, L, (1, 1), 0, [L / n / k * (1 - d) for k in (2.0, 2 + 2 ** (4 / 3), 4.0) for d in (1e-3, 1e-5, 1e-7, 1e-9, -1e-6)], [1e-9]]
    for fk, m, n in itertools.product(('b234', 'loss'), ('rk', 'ssfm'), (40, 101)):
        yield [fk, 0, m, n, 2.5, (1, 1), 3, [0.01, 7.0], [1e-9]]


def run(sc, rec):
    fk, gi, m, n, L, bk, sw, dzs, les = sc[:9]
    amp = sc[9] if len(sc) > 9 else 1.0
    p, g = F.pulse(*GRIDS[gi], A=None)
    k = g.k
    p.set_AW(amp * np.exp(-np.abs(k) / g.N * 3.0) * np.exp(0.7j * k + 0.05j * k * k))
    f = FIB[fk](L)
    b4 = observe(p)
    AW0 = np.array(p.AW)
    beta = np.array(f.get_betas(p))
    P = None
    if fk == 'spec':
        P = 2.0 * p.calc_epp() * g.frep * 1e6
    G = np.array(f.get_gain(p, P) if P else f.get_gain(p))
    want = [AW0 * np.exp((1j * beta + G / 2) * L * (i + 1) / n) for i in range(n)]
    for dz, le in itertools.product(dzs, les):
        S.backend(*bk)
        s = S.sim(m, dz=dz, local_error=le, disable_Raman=bool(sw & 1), disable_self_steepening=bool(sw & 2))
        AW, AT, po = S.outputs('propagate', s.propagate(p, f, n, output_power=P), g, L, n)
        rt = 1e-9 if fk != 'spec' else 2e-4       # the gain search is only repeatable to its own tolerance
        same('output spectrum', po.AW, want[-1], rtol=rt)
        for i in range(n):
            same('spectrum %d' % i, AW[:, i], want[i], rtol=rt + 1e-6)
            same('field %d' % i, AT[:, i], at_of(g, want[i]), rtol=rt + 1e-6)
        # and back again, through the direction argument of the integrator
        if all(hasattr(s, a) for a in ('setup_fftw', 'load_fiber_parameters', 'integrate_over_dz', 'A')) and fk != 'spec':
            s.setup_fftw(p, f, P)
            s.load_fiber_parameters(p, f, P)
            a0 = np.array(s.A)
            s.integrate_over_dz(L)
            mid = np.array(s.A)
            s.integrate_over_dz(L, -1)
            same('propagated back', s.A, a0, rtol=1e-8)
            s.integrate_over_dz(L, direction=1)
            same('and forth', s.A, mid, rtol=1e-8)
            rec.step(3)
        unchanged('input', b4, p)
        rec.state(po, s)
        rec.step(n)
