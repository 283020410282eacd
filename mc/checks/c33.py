"""C33: simulations running at the same time in different threads do not interfere."""
import itertools
import os
import sys

import numpy as np
from pynlo.media.fibers.fiber import FiberInstance
from pynlo.util.ode_solve.dopr853 import StepperDopr853
from pynlo.util.ode_solve.steppers import ODEint, Output

from mc import core
from mc import dfg as D
from mc import ssfm as S
from mc.baton import Baton, count_points, plans, traced
from mc.core import Violation

LEVEL = 'model_checking'
BOUNDS = ('14 jobs (propagation with both methods, Raman, steepening, gain, z dependent fibers, coherence; ODE integrations with even, step and dense output; mixing problems in three geometries, set up and integrated; '
          'convolutions), all pairs, with the inputs of one kind shared by both threads or not; one switch at any function call of the package (every k-th such that at most 60, thorough 1200, positions per pair, '
          'different ones for every pair), both starting threads; two switches at one representative of every pair of call sites of the two jobs (at most 2400 per pair; 4 pairs, thorough all); '
          'stretches in which a job running alone leaves global state of the package altered (none on the unchanged tree) are found line by line and every one is interrupted, with up to 30 positions for the switch back; thorough also two switches on a staggered grid of 1200 position pairs, and line granularity for 400 positions')
CHUNK = 1
ROOT = os.path.join(core.REPO, 'src', 'pynlo')
BLOCK = 0.5


# ---------------------------------------------------------------- shared inputs
def mk():
    o = {}
    o['pulse'] = S.pulse('two', N=32, T=4.0, P=800.0)[0]
    f = FiberInstance()
    f.generate_fiber(0.02, 1550.0, [-0.02, 1e-4], 0.03, gvd_units='ps^n/m', gain=0)
    o['fiber'] = f
    f = FiberInstance()
    f.generate_fiber(0.02, 1550.0, [-0.02, 1e-4], 0.03, gvd_units='ps^n/m', gain=0)
    f.set_dispersion_function(lambda z: np.array([-0.02 + z, 1e-4]), dispersion_format='GVD')
    f.set_gamma_function(lambda z: 0.03 * (1 + 20 * z))
    o['zfiber'] = f
    k = np.arange(8) - 4
    A = np.exp(-(k / 1.7) ** 2 + 0.4j * k)
    B = 0.3 * np.exp(-((k - 1) / 2.2) ** 2 - 0.1j * k * k)
    o['pump'], o['sgnl'], o['ppln'] = D.blank(8, 1.6, 1064.0, AW=A), D.blank(8, 1.6, 1550.0, AW=B), D.PPLN(45.0, length=1e-4, enable_caching=True)
    o['pump2'], o['sgnl2'], o['bpm'] = D.blank(8, 1.6, 1900.0, AW=A), D.blank(8, 1.6, 3000.0, AW=B), D.AgGaSe2(0.85, length=1e-4, enable_caching=False)
    return o


# ---------------------------------------------------------------- jobs
def ssfm(o, method, fib, pulse='pulse', n=2, dz=0.004, **kw):
    if 'two' in kw:
        kw.pop('two')
        o = dict(o, pulse=S.pulse('sech', N=32, T=5.0, P=300.0, wl=1500.0)[0])
    s = S.sim(method, None, dz=dz, local_error=1e-3, **kw)
    z, AW, AT, po = s.propagate(o['pulse'], o[fib], n)
    return [z, AW, AT, po.AW, po.W_mks]


def ode(o, f, y0, n):
    class R:
        def deriv(self, x, y, dydx):
            dydx[:] = f(x, y)
    y = np.array(y0)
    i = ODEint(y, 0.0, 0.7, 1e-6, 1e-6, 0.05, 0.0, Output(n if n != 'steps' else 0), StepperDopr853, R(), dense=n != 'steps')
    i.integrate()
    return [i.out.xsave[:i.out.count].copy(), i.out.ysave[:i.out.count].copy(), y.copy(), np.array([i.nok, i.nbad])]


def mixing(o, names, **kw):
    p, s, c = (o[n] for n in names)
    q = D.dfg_problem(p, s, c, disable_SPM=True, **kw)
    d = np.zeros(24, complex)
    y = np.exp(1j * np.arange(24)) * (1 + np.arange(24))
    out = [np.array(q.ystart)]
    for z in (0.0, 7e-5, 2e-5):
        q.deriv(z, y, d)
        out.append(d.copy())
    return out


def mix_int(o, names, **kw):
    p, s, c = (o[n] for n in names)
    q = D.dfg_problem(p, s, c, disable_SPM=True, **kw)
    i = ODEint(q.ystart, 0.0, 4e-5, 1e-4, 1e-4, 4e-5, 0.0, Output(2), StepperDopr853, q, dense=True)
    i.integrate()
    r = q.process_stepper_output(i.out)
    return [i.out.xsave[:i.out.count].copy(), i.out.ysave[:i.out.count].copy(), r.get_idlr(1).AW.copy(), r.get_pump(0).AW.copy(), r.get_sgnl(1).W_mks.copy()]


def conv(o, n):
    c = D.fftcomputer(n)
    k = np.arange(n)
    a, b = np.exp(-(k - n / 2.0) ** 2 / n + 0.3j * k), np.exp(-(k - n / 3.0) ** 2 / n - 0.2j * k * k)
    return [np.array(c.conv(a, b)), np.array(c.corr(b, a)), np.array(c.conv(b, b))]


def gained(o):
    s = S.sim('rk', None, dz=0.004, local_error=1e-3)
    z, AW, AT, po = s.propagate(o['pulse'], S.fiber(0.02, [0.01], 0.02, gain=3.0), 2)
    return [z, AW, AT, po.AW]


JOBS = {
    'rk': lambda o: ssfm(o, 'rk', 'fiber'),
    'rk-plain': lambda o: ssfm(o, 'rk', 'fiber', disable_Raman=True, disable_self_steepening=True, two=1),
    'ssfm': lambda o: ssfm(o, 'ssfm', 'fiber', disable_Raman=True),
    'rk-z': lambda o: ssfm(o, 'rk', 'zfiber', n=3),
    'simple': lambda o: ssfm(o, 'rk', 'fiber', USE_SIMPLE_RAMAN=True, suppress_iteration=True),
    'gain': gained,
    'osc': lambda o: ode(o, lambda x, y: np.array([y[1], -4 * y[0]]), [1.0, 0.3], 3),
    'kerr': lambda o: ode(o, lambda x, y: 1.5j * np.abs(y) ** 2 * y, [1 + 0j, 0.5j, 2.0], 'steps'),
    'wg': lambda o: mixing(o, ('pump', 'sgnl', 'ppln'), wg_mode=True, Aeff_squm=12.0),
    'bulk': lambda o: mixing(o, ('pump', 'sgnl', 'ppln'), pump_waist=15e-6, apply_gouy_phase=True),
    'bpm': lambda o: mixing(o, ('pump2', 'sgnl2', 'bpm'), pump_waist=25e-6),
    'wg-int': lambda o: mix_int(o, ('pump', 'sgnl', 'ppln'), wg_mode=True, Aeff_squm=12.0),
    'conv8': lambda o: conv(o, 8),
    'conv16': lambda o: conv(o, 16),
}
OWN = {'rk', 'ssfm', 'wg', 'bulk'}       # also run against themselves on separate inputs


def flat(r):
    return [np.array(x) for x in r]


def near(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x.shape != y.shape or x.size and not np.all(np.abs(x - y) <= 1e-8 * np.abs(y).max()):
            return False
    return True


WANT, COUNT = {}, {}


def want(n):
    if n not in WANT:
        WANT[n] = flat(JOBS[n](mk()))
    return WANT[n]


def count(n, mode='call'):
    if (n, mode) not in COUNT:
        want(n)
        o = mk()
        COUNT[n, mode] = count_points(lambda: JOBS[n](o), ROOT, mode)[0]
    return COUNT[n, mode]


class Info:
    """What a job does when it runs alone: its switch points by kind, and
    the stretches during which it holds global state of the package in a
    condition another job would not find it in (there should be none)."""
    def __init__(self, n):
        want(n)
        o = mk()
        gs = core.GS
        gs.restore()
        home = self.state(gs)
        self.calls, self.lines, self.windows = {}, {}, []
        k = [0, 0]
        last = [None]
        held = set()

        def line(frame, event, arg):
            if event == 'line':
                k[1] += 1
                if last[0] is not None:
                    self.lines.setdefault(last[0], k[1])
                    last[0] = None
                d = self.state(gs)
                if d != home:
                    key = (frame.f_code, frame.f_lineno, tuple(x for x, y in zip(d, home) if x != y))
                    if key not in held and len(held) < 400:
                        held.add(key)
                        self.windows.append(k[1])
            return line

        def enter(frame, event, arg):
            if not frame.f_code.co_filename.startswith(ROOT + os.sep):
                return None
            k[0] += 1
            b = frame.f_back
            last[0] = (frame.f_code.co_name, b.f_code.co_name, b.f_lineno)
            self.calls.setdefault(last[0], k[0])
            return line
        sys.settrace(enter)
        try:
            JOBS[n](o)
        finally:
            sys.settrace(None)
        gs.restore()

    @staticmethod
    def state(gs):
        d = []
        for owner, saved, _ in gs.saved:
            if isinstance(saved, dict):
                ns = vars(owner)
                for x in saved:
                    v = ns.get(x)
                    d.append(v if v is None or isinstance(v, (int, float, str, bool)) else (id(v), len(v) if hasattr(v, '__len__') and getattr(v, 'ndim', 1) else 0))
        return d


INFO = {}


def info(n):
    if n not in INFO:
        INFO[n] = Info(n)
    return INFO[n]


TWO = [('rk', 'rk-plain'), ('wg', 'bulk'), ('osc', 'kerr'), ('ssfm', 'rk-z')]


def scenarios(tier):
    q = tier == 'quick'
    for a, b in itertools.combinations_with_replacement(JOBS, 2):
        for first in ((0,) if a == b else (0, 1)):
            yield ['held', a, b, first]
            if not q or (a, b) in TWO:
                for part in range(4):
                    yield ['sites', a, b, first, part, 4, 2400]
    for k, (a, b) in enumerate(itertools.combinations_with_replacement(JOBS, 2)):
        for first in ((0,) if a == b else (0, 1)):
            yield ['pair', a, b, True, 'call', 1, first, 60 if q else 1200, k]
            if not q:
                yield ['pair', a, b, True, 'call', 2, first, 1200, k]
                yield ['pair', a, b, True, 'line', 1, first, 400, k]
        if a in OWN and a == b or not q:
            yield ['pair', a, b, False, 'call', 1, 0, 60 if q else 400, k]


def run(sc, rec):
    if sc[0] == 'pair':
        _, a, b, shared, mode, bound, first, most, k = sc
        go(rec, a, b, shared, mode, spread(a, b, mode, bound, first, most, k))
        return
    a, b, first = sc[1:4]
    one, two = (info(a), info(b)) if not first else (info(b), info(a))
    if sc[0] == 'sites':
        # two switches, at one representative of every place a function is called from
        i, j = sorted(one.calls.values()), sorted(two.calls.values())
        ps = [[(first, x), (1 - first, y), (first, -1), (1 - first, -1)] for x in i for y in j]
        part, parts, most = sc[4:]
        st = 1 + len(ps) // most
        ps = ps[::st] if st % 2 or not len(j) % 2 else [p for n, p in enumerate(ps) if (n + n // len(j)) % st == 0]
        go(rec, a, b, True, 'call', ps[part::parts])
    else:
        # the first thread is stopped while global state is not as it was
        w = one.windows
        w = w[::1 + len(w) // 40]
        j = [-1] + sorted(two.lines.values())
        go(rec, a, b, True, 'line', [[(first, x), (1 - first, y), (first, -1), (1 - first, -1)] for x in w for y in j[::1 + len(j) // 30]])


def spread(a, b, mode, bound, first, most, k):
    for n in (a, b):
        want(n)
    na, nb = count(a, mode), count(b, mode)
    if first:
        na, nb = nb, na
    if bound == 1:
        st = 1 + na // most
        ps = [[(first, i), (1 - first, -1), (first, -1)] for i in range(1 + k % st, na + 1, st)]
    else:
        side = int(most ** 0.5)
        s1, s2 = 1 + na // side, 1 + nb // side
        ps = [[(first, i), (1 - first, j), (first, -1), (1 - first, -1)]
              for i in range(1 + k % s1, na + 1, s1) for j in range(1 + (k + i) % s2, nb + 1, s2)]
    return ps


def go(rec, a, b, shared, mode, ps):
    for plan in ps:
        o = [mk(), None]
        o[1] = o[0] if shared else mk()
        fns = [traced(lambda n=n, w=w: flat(JOBS[n](w)), ROOT, mode) for n, w in zip((a, b), o)]
        bt = Baton(fns, plan, block=BLOCK)
        what = '%s schedule %s of %s | %s%s' % (mode, plan, a, b, '' if shared else ' (own inputs)')
        try:
            res = bt.run()
        except Exception as e:
            raise Violation('%s: %s: %s' % (what, type(e).__name__, e))
        for n, r in zip((a, b), res):
            if not near(r, want(n)):
                d = [float(np.abs(x - y).max()) if x.shape == y.shape else 'shape' for x, y in zip(r, want(n))]
                raise Violation('%s: result of %s differs from running alone by %s' % (what, n, d))
        rec.trace()
        rec.step(sum(bt.points))
        rec.state(a, b, shared, mode, plan)
    rec.outcome(a, b, len(ps))
