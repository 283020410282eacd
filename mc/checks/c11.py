"""C11: tabulated dispersion is fitted exactly and without side effects."""
import itertools
import math
import os
import shutil
import tempfile

import numpy as np
from pynlo.media.fibers.calculators import DTabulationToBetas

from mc import fibers as F
from mc.core import Machine, same, true, exact
from mc.ref import C_NMPS, PI2

LEVEL = 'model_checking'
BOUNDS = ('all fit orders 0..5 (thorough: 0..7) x every single coefficient and 3 combinations x 4 tables x 4 expansion wavelengths x '
          'array, list, transposed view and file; orders 8, 10, 12; least squares on 12 to 1000 rows with one row off; all orderings of tables of up to 5 (thorough: 6) rows; all sequences of <=3 (thorough: 4) '
          'calls with and without diagnostics on shared tables')
SCRATCH = None
MAG = [0.02, 1e-4, 4e-7, 2e-9, 1e-11, 5e-14, 3e-16, 1e-18]
TABLES = {'even': np.linspace(900.0, 1700.0, 17), 'coarse': np.array([950.0, 1000, 1100, 1250, 1300, 1400, 1550, 1600, 1650]),
          'down': np.linspace(1650.0, 1000.0, 14), 'narrow': np.linspace(1500.0, 1600.0, 11)}


def setup():
    global SCRATCH
    SCRATCH = tempfile.mkdtemp(prefix='verif-c11-')


def teardown():
    if SCRATCH:
        shutil.rmtree(SCRATCH, ignore_errors=True)


def patterns(order):
    for k in range(order + 1):
        for s in (1, -1):
            yield [s * MAG[i] if i == k else 0.0 for i in range(order + 1)]
    yield [MAG[i] * (-1) ** i for i in range(order + 1)]
    yield [-MAG[i] * (0.3 + 0.2 * i) for i in range(order + 1)]
    yield [0.0] * (order + 1)


def scenarios(tier):
    for order in range(6 if tier == 'quick' else 8):
        for t in TABLES:
            if len(TABLES[t]) > order + 1:
                yield ['fit', order, t]
    for order in (8, 10, 12):
        yield ['high', order]
    for n in (12, 60, 100, 101, 250, 1000):
        for order in (1, 2, 5):
            yield ['least', n, order]
    for order in (0, 1, 2):
        yield ['order', order, 5 if tier == 'quick' else 6]


def check(got, betas, wl0, wls, order, lam):
    W0 = PI2 * C_NMPS / lam
    want = [F.taylor_d(betas, wl0, np.array(W0), k + 2) for k in range(order + 1)]
    om = PI2 * C_NMPS / wls - W0
    m = np.abs(om).max()
    true('number of coefficients', np.shape(got) == (order + 1,))
    s = max(sum(abs(float(want[k])) * m ** k / math.factorial(k) for k in range(order + 1)), 1e-12)
    span = (np.ptp(om) / 2)
    loss = 1e-12 * (max(m / span, 1.0) * 4) ** (order + 2)
    for k in range(order + 1):
        same('beta_%d' % (k + 2), float(got[k]) * m ** k / math.factorial(k),
             float(want[k]) * m ** k / math.factorial(k), rtol=0, atol=max(loss, 1e-9) * s)
    return om


def do_high(sc, rec):
    _, order = sc
    wls = np.linspace(900.0, 1700.0, 41)
    W0 = PI2 * C_NMPS / 1150.0
    om = PI2 * C_NMPS / wls - W0
    m = np.abs(om).max()
    for k in range(order + 1):
        for tail in (0.0, 0.3):
            c = [tail * (-1) ** i for i in range(order + 1)]
            c[k] += 1.0
            b2 = 0.02 * sum(x * (om / m) ** i for i, x in enumerate(c))
            D = -b2 * PI2 * C_NMPS / wls ** 2 * 1e3
            got = DTabulationToBetas(1150.0, np.array([wls, D]).T, order, DDataIsFile=False)
            true('number of coefficients', np.shape(got) == (order + 1,))
            for i in range(order + 1):
                same('order %d, beta_%d' % (order, i + 2), float(got[i]) * m ** i / math.factorial(i), 0.02 * c[i], rtol=0, atol=2e-6)
            rec.state(order, k, tail)
            rec.step()


def do_least(sc, rec):
    """Tables that no polynomial passes through: every row counts, all alike."""
    _, n, order = sc
    wls = np.linspace(1000.0, 1700.0, n)
    for odd, lam in itertools.product(('sine', 0, 1, n // 2, n // 3, n - 2, n - 1), (1300.0, 1600.0)):
        D = 20 * np.sin(wls / 90.0) if odd == 'sine' else 5.0 + 0 * wls
        if odd != 'sine':
            D[odd] += 40.0
        om = PI2 * C_NMPS / wls - PI2 * C_NMPS / lam
        b2 = -D * wls ** 2 / (PI2 * C_NMPS) / 1e3
        m = np.abs(om).max()
        A = np.array([(om / m) ** i for i in range(order + 1)]).T
        want = np.linalg.lstsq(A, b2, rcond=None)[0]
        r = DTabulationToBetas(lam, np.array([wls, D]).T, order, DDataIsFile=False, return_diagnostics=True)
        for i in range(order + 1):
            same('%d rows, deviation at %s: beta_%d' % (n, odd, i + 2), float(r[0][i]) * m ** i / math.factorial(i), want[i], rtol=0, atol=1e-6 * np.abs(want).max())
        same('rows', len(r[1]), n)
        same('data', r[2], b2, rtol=1e-9, scale=np.abs(b2).max())
        same('fit', r[3], A @ want, rtol=1e-6, scale=np.abs(b2).max())
        rec.state(n, order, odd, lam)
        rec.step()


def run(sc, rec):
    if sc[0] in ('high', 'least'):
        return globals()['do_' + sc[0]](sc, rec)
    if sc[0] == 'order':
        _, order, n = sc
        wls = np.array([1100.0, 1200, 1350, 1500, 1600, 1300])[:n]
        betas = [0.01, -2e-4, 3e-7][:order + 1]
        D = F.d_table(betas, 1400.0, wls)
        for perm in itertools.permutations(range(n)):
            tab = np.array([wls, D]).T[list(perm)]
            keep = tab.copy()
            got = DTabulationToBetas(1400.0, tab, order, DDataIsFile=False)
            check(got, betas, 1400.0, wls, order, 1400.0)
            exact('table', tab, keep)
            rec.state(perm, order)
            rec.step()
        return
    _, order, t = sc
    wls = TABLES[t]
    for betas in patterns(order):
        D = F.d_table(betas, 1300.0, wls)
        for lam in (1300.0, 1064.0, 1550.0, 835.0):
            if t == 'narrow' and lam != 1550.0:
                continue
            for src in ('array', 'list', 'view', 'file'):
                tab = np.array([wls, D]).T.copy()
                if src == 'list':
                    tab = tab.tolist()
                elif src == 'view':
                    tab = np.array([wls, D]).T
                keep = np.array(tab, copy=True)
                if src == 'file':
                    path = os.path.join(SCRATCH, 't%d.csv' % os.getpid())
                    with open(path, 'w') as f:
                        f.write('wavelength,D\n')
                        for a, b in zip(wls, D):
                            f.write('%.17g,%.17g\n' % (a, b))
                    arg, kw = path, {}
                else:
                    arg, kw = tab, {'DDataIsFile': False}
                r1 = DTabulationToBetas(lam, arg, order, **kw)
                om = check(r1, betas, 1300.0, wls, order, lam)
                r2 = DTabulationToBetas(lam, arg, order, return_diagnostics=True, **kw)
                exact('repeated call', np.asarray(r2[0]), np.asarray(r1))
                b2 = F.taylor_d(betas, 1300.0, om + PI2 * C_NMPS / lam, 2)
                s = max(np.abs(b2).max(), 1e-12)
                same('frequencies', r2[1], om, rtol=1e-9)
                same('data', r2[2], b2, rtol=1e-9, scale=s)
                same('fit', r2[3], b2, rtol=1e-6, scale=s)
                exact('table', np.array(tab), keep)
                r1[:] = 0
                exact('repeated call', np.asarray(DTabulationToBetas(lam, arg, order, **kw)), np.asarray(r2[0]))
                rec.state(betas, lam, src, t)
                rec.step(3)


class M(Machine):
    def __init__(self, init):
        self.betas = [0.01, -2e-4, 3e-7]
        w = TABLES['even']
        self.t = np.array([w, F.d_table(self.betas, 1400.0, w)]).T
        self.keep = self.t.copy()
        self.ti = np.round(self.t).astype(int)          # a table of integers is a table too
        self.keepi = self.ti.copy()

    def ops(self):
        return [['t', 1400.0, False], ['t', 1400.0, True], ['t', 1200.0, False], ['ti', 1400.0, False], ['ti', 1200.0, True],
                ['scribble', 0, 0]]

    def apply(self, op):
        w, lam, diag = op
        if w == 'scribble':
            DTabulationToBetas(1400.0, self.t, 2, DDataIsFile=False)[:] = 1
            return
        r = DTabulationToBetas(lam, getattr(self, w), 2, DDataIsFile=False, return_diagnostics=diag)
        b = r[0] if diag else r
        if w == 't':
            check(b, self.betas, 1400.0, self.t[:, 0], 2, lam)
        else:
            same('integer table', b, DTabulationToBetas(lam, self.keepi.astype(float), 2, DDataIsFile=False), rtol=1e-9)

    def canon(self):
        from mc.state import fingerprint
        return fingerprint(self.t, self.ti)

    def probe(self):
        exact('table', self.t, self.keep)
        exact('integer table', self.ti, self.keepi)
        b = DTabulationToBetas(1500.0, self.t, 2, DDataIsFile=False)
        check(b, self.betas, 1400.0, self.t[:, 0], 2, 1500.0)


MACHINES = {'calls': M}


def machines(tier):
    yield 'calls', 0, 3 if tier == 'quick' else 4
