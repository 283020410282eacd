"""C32: threads sharing unchanging objects, or working on their own, get sequential results."""
import itertools
import os
import shutil
import tempfile

import numpy as np
from pynlo.light.DerivedPulses import SechPulse, GaussianPulse
from pynlo.light.PulseBase import Pulse
from pynlo.light.beam import OneDBeam
from pynlo.media.fibers.fiber import FiberInstance

from mc import core, fibers, xtal
from mc.baton import Baton, count_points, plans, traced
from mc.core import Violation

LEVEL = 'model_checking'
BOUNDS = ('pulses whose cached grids are cold, warm or left over from earlier settings, three crystals with and without index caching, five fibers (betas, D table, index table, '
          'gain, z dependent), beams; pairs of operations of two threads on the same object or on own objects; all schedules with one preemption after any source line of the package (every 11th, thorough every third, of the 2000 of a gain query), '
          'and with two preemptions wherever both threads pass at most 30 lines (thorough: 100), both starting threads; thorough: also one preemption at any byte code, '
          'and three threads with one preemption each; afterwards all operations are repeated by one thread')
CHUNK = 1
ROOT = os.path.join(core.REPO, 'src', 'pynlo')
BLOCK = 0.25
SCRATCH = None


def setup():
    global SCRATCH
    SCRATCH = tempfile.mkdtemp(prefix='c32_')
    fibers.write_db(SCRATCH)


def teardown():
    shutil.rmtree(SCRATCH, ignore_errors=True)


# ------------------------------------------------------------------ objects
def mk_pulse(state):
    if state == 'stale':        # every cached grid belongs to other settings
        p = SechPulse(5.0, 0.4, 1030.0, time_window_ps=4.0, NPTS=16, frep_MHz=50.0)
        for n in ('wl_nm', 'wl_mks', 'W_mks', 'W_THz', 'F_THz', 'F_mks', 'V_THz', 'V_mks', 'T_ps', 'T_mks'):
            getattr(p, n)
        p.set_NPTS(8)
        p.set_center_wavelength_nm(1550.0)
        p.set_time_window_ps(10.0)
        p.set_AT((1.0 + 0.2j) * np.exp(-np.linspace(-2, 2, 8) ** 2))
        return p
    p = SechPulse(10.0, 1.0, 1550.0, time_window_ps=10.0, frep_MHz=80.0, NPTS=8, GDD=0.1)
    if state == 'warm':
        for n in ('wl_nm', 'W_mks', 'F_mks'):
            getattr(p, n)
    elif state == 'cold':       # a copy made from the plain settings
        q = Pulse(frep_MHz=80.0, n=8)
        q.set_center_wavelength_nm(1550.0)
        q.set_time_window_ps(10.0)
        q.set_AW(p.AW)
        p = q
    return p


def mk_other(wl=1064.0, N=8, T=10.0):
    q = Pulse(frep_MHz=80.0, n=N)
    q.set_center_wavelength_nm(wl)
    q.set_time_window_ps(T)
    q.set_AW(np.exp(-np.linspace(-2, 2, N) ** 2) * (1 + 0.1j))
    return q


def mk_fiber(kind):
    f = FiberInstance()
    if kind == 'gvd':
        f.generate_fiber(1.0, 1550.0, (-20.0, 0.1, -2e-4), 2e-3)
    elif kind in ('gain', 'dtab', 'gain_d'):
        f = FiberInstance('mydb', SCRATCH)
        f.load_from_db(1.0, kind)
    elif kind == 'zn':
        w = fibers.WLS
        f.generate_fiber(1.0, 1550.0, (-20.0, 0.1), 2e-3)
        f.set_dispersion_function(lambda z: (w, fibers.n_table([-0.02 * (1 + z), 1e-4], 1550.0, w)), dispersion_format='n')
    elif kind == 'zgvd':
        f.generate_fiber(1.0, 1550.0, (-20.0, 0.1), 2e-3)
        f.set_dispersion_function(lambda z: np.array([-0.02 * (1 + z), 1e-4 * z]), dispersion_format='GVD')
        f.set_gamma_function(lambda z: 1e-3 * (1 + z))
    return f


READS = ('wl_nm', 'wl_mks', 'W_mks', 'W_THz', 'F_THz', 'F_mks', 'V_THz', 'V_mks', 'T_ps', 'T_mks', 'dT_ps', 'dF_THz', 'AW', 'AT')
CALLS = {
    'epp': lambda o: o['p'].calc_epp(),
    'clone': lambda o: _grids(o['p'].create_cloned_pulse()),
    'dict': lambda o: [np.asarray(o['p'].get_pulse_dict()[k]) for k in sorted(o['p'].get_pulse_dict()) if k != 'hash'],
    'avgf': lambda o: o['p'].calculate_weighted_avg_frequency_mks(),
    'avgwl': lambda o: o['p'].calculate_weighted_avg_wavelength_nm(),
    'acorr': lambda o: o['p'].calculate_intensity_autocorrelation(),
    'subset': lambda o: _grids(o['p'].create_subset_pulse(1550.0, 4)),
}


def _grids(p):
    return [np.array(getattr(p, n)) for n in ('AW', 'wl_nm', 'W_mks', 'F_THz', 'T_ps')] + [np.array(p.NPTS), np.array(p.frep_MHz)]


def own_pulse(o, k):
    if k == 0:
        p = SechPulse(10.0, 1.0, 1550.0, time_window_ps=10.0, frep_MHz=80.0, NPTS=8)
        r = _grids(p)
        p.set_time_window_ps(5.0)
    else:
        p = GaussianPulse(3.0, 0.7, 1064.0, time_window_ps=6.0, frep_MHz=20.0, NPTS=8)
        r = _grids(p)
        p.set_center_wavelength_nm(800.0)
    return r + _grids(p)


def own_edit(o, k):
    """An independent pulse prepared beforehand is changed and read."""
    p = o['own'][k]
    if k == 0:
        p.set_time_window_ps(12.0)
        p.chirp_pulse_W(0.3)
    else:
        p.set_NPTS(16)
        p.set_AW(np.ones(16))
    return _grids(p)


def own_crystal(o, k):
    c = xtal.make('PPLN', xtal.Model('PPLN', T=30.0 + 70 * k), caching=bool(k))
    q = mk_other(1550.0 if k else 1064.0)
    r = [c.get_pulse_n(q), c.get_pulse_k(q)]
    c.set_T(120.0 - 50 * k)
    return r + [c.get_pulse_n(q)]


def own_crystal2(o, k):
    c = xtal.make('AgGaSe2', xtal.Model('AgGaSe2', theta=0.6 + 0.3 * k), caching=bool(k))
    q = mk_other(2500.0 if k else 3000.0)
    return [c.get_pulse_n(q, 'o'), c.get_pulse_n(q, 'mix'), c.get_pulse_k(q, 'e')]


def own_fiber(o, k):
    f = FiberInstance()
    f.generate_fiber(1.0 + k, 1550.0 - 200 * k, (-20.0 + 30 * k, 0.1), 2e-3 * (1 + k))
    q = mk_other(1550.0 if k else 1200.0)
    return [f.get_betas(q), np.array(f.get_gamma(0)), np.array(f.length)]


def own_beam(o, k):
    q = mk_other(1550.0 if k else 1064.0)
    b = OneDBeam((1 + k) * 20e-6, q)
    return [b.calculate_waist(1e-3), b.calculate_zR(2.1), b.calculate_R(2e-3, 1.5)]


def mk(world):
    """Fresh objects of a world."""
    kind = world[0]
    if kind == 'pulse':
        return {'p': mk_pulse(world[1])}
    if kind == 'own':
        return {'own': [mk_other(1550.0), mk_other(1064.0)]}
    if kind == 'xtal':
        c = xtal.make(world[1], caching=world[2])
        wl = 1550.0 if world[1] == 'PPLN' else 3000.0
        o = {'c': c, 'p': mk_other(wl), 'q': mk_other(wl * 0.8), 's': mk_other(wl, T=5.0)}
        if len(world) > 3 and world[3] == 'warm':
            c.get_pulse_n(o['p'])
        return o
    if kind == 'fiber':
        return {'f': mk_fiber(world[1]), 'p': mk_other(1550.0), 'q': mk_other(1300.0)}
    if kind == 'beam':
        p, q = mk_other(3000.0), mk_other(2400.0)
        return {'c': xtal.make('AgGaSe2', caching=world[1]), 'p': p, 'q': q, 'b': OneDBeam(20e-6, p, axis='mix'), 'd': OneDBeam(50e-6, q, axis='o')}
    raise KeyError(kind)


def op(o, name):
    if name in READS:
        return np.array(getattr(o['p'], name))
    if name in CALLS:
        return CALLS[name](o)
    a = name.split(':')
    if a[0] == 'n':
        return o['c'].get_pulse_n(o[a[1]], a[2] if len(a) > 2 else None)
    if a[0] == 'k':
        return o['c'].get_pulse_k(o[a[1]], a[2] if len(a) > 2 else None)
    if a[0] == 'vg':
        return o['c'].calculate_group_velocity_nm_ps(float(a[1]), 'o' if 'theta' in vars(o['c']) else None)
    if a[0] == 'betas':
        return o['f'].get_betas(o[a[1]], float(a[2]))
    if a[0] == 'gamma':
        return o['f'].get_gamma(float(a[1]))
    if a[0] == 'gain':
        return o['f'].get_gain(o[a[1]], float(a[2]))
    if a[0] == 'b2d':
        return o['f'].Beta2_to_D(o[a[1]])
    if a[0] == 'b2':
        return o['f'].Beta2(o[a[1]])
    if a[0] == 'waist':
        return o[a[1]].calculate_waist(1e-3, 2.0)
    if a[0] == 'rtp':
        b = o[a[1]]
        return b.rtP_to_a_2(o['p' if a[1] == 'b' else 'q'], o['c'], 1e-3)
    if a[0] == 'ovl':
        return o['b'].calc_overlap_integral(float(a[1]), o['p'], o['q'], o['d'], o['c'])
    if a[0] == 'gouy':
        return o[a[1]].calculate_gouy_phase(1e-3, 2.0)
    if a[0] == 'own':
        return globals()['own_' + a[1]](o, int(a[2]))
    raise KeyError(name)


def worlds():
    yield ['fiber', 'gain'], ['gain:p:1e-10', 'gain:q:1e-10', 'betas:p:0', 'gamma:0']     # slowest first
    ps = list(READS) + list(CALLS)
    yield ['pulse', 'cold'], ps
    yield ['pulse', 'stale'], ps
    yield ['pulse', 'warm'], ['wl_nm', 'wl_mks', 'W_mks', 'W_THz', 'F_THz', 'AT', 'clone', 'epp']
    yield ['own'], ['own:%s:%d' % (n, k) for n in ('pulse', 'edit', 'crystal', 'crystal2', 'fiber', 'beam') for k in (0, 1)]
    for cache in (True, False):
        yield ['xtal', 'PPLN', cache], ['n:p', 'n:q', 'n:s', 'k:p', 'k:q', 'vg:1500']
        yield ['xtal', 'AgGaSe2', cache], ['n:p:o', 'n:p:e', 'n:p:mix', 'n:q:mix', 'n:p', 'k:p:e', 'vg:2500']
        yield ['xtal', 'AgGaS2', cache], ['n:p:o', 'n:p:e', 'n:q:mix', 'k:p:o']
        yield ['beam', cache], ['rtp:b', 'rtp:d', 'ovl:0.001', 'ovl:0', 'waist:b', 'gouy:d']
    yield ['xtal', 'PPLN', True, 'warm'], ['n:p', 'n:q', 'k:p']
    for f in ('gvd', 'dtab', 'zn', 'zgvd'):
        ops = ['betas:p:0', 'betas:q:0', 'b2:p', 'b2d:q', 'gamma:0.5']
        if f[0] == 'z':
            ops += ['betas:p:0.7', 'gamma:1']
        yield ['fiber', f], ops


# ------------------------------------------------------------------ checking
def flat(r):
    return [np.array(x) for x in r] if isinstance(r, (list, tuple)) else [np.array(r)]


def near(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x.shape != y.shape:
            return False
        s = np.abs(y).max() if y.size else 0.0
        if not np.all(np.abs(x - y) <= 1e-11 * s):
            return False
    return True


WANT, COUNT = {}, {}


def want(world, name):
    k = (tuple(world), name)
    if k not in WANT:
        WANT[k] = flat(op(mk(world), name))
    return WANT[k]


def count(world, name, mode):
    k = (tuple(world), name, mode)
    if k not in COUNT:
        o = mk(world)
        COUNT[k] = count_points(lambda: op(o, name), ROOT, mode)[0]
    return COUNT[k]


def scenarios(tier):
    q = tier == 'quick'
    for w, ops in worlds():
        pairs = list(itertools.combinations_with_replacement(ops, 2))
        if w[0] == 'own':
            pairs = [(a, b) for a, b in pairs if a[-1] == '0' and b[-1] == '1' or a != b and a.split(':')[1] != b.split(':')[1]]
        for a, b in pairs:
            yield ['two', w, a, b, 'line', 30 if q else 100]
            if not q:
                yield ['two', w, a, b, 'opcode', 0]
        if not q:
            for t in itertools.combinations(ops[:8], 3):
                if w[0] != 'own' or len({x.split(':')[1] for x in t}) > 1:
                    yield ['three', w, list(t)]


def run(sc, rec):
    if sc[0] == 'two':
        two(sc, rec)
    else:
        three(sc, rec)


def go(w, names, plan, mode, rec):
    o = mk(w)
    fns = [traced(lambda n=n: flat(op(o, n)), ROOT, mode) for n in names]
    what = 'schedule %s of %s on %s' % (plan, ' | '.join(names), w)
    b = Baton(fns, plan, block=BLOCK)
    try:
        res = b.run()
    except Exception as e:
        raise Violation('%s: %s: %s' % (what, type(e).__name__, e))
    for n, r in zip(names, res):
        if not near(r, want(w, n)):
            raise Violation('%s: %s got %s, alone %s' % (what, n, r, want(w, n)))
    if w[0] != 'own':
        for n in names:
            r = flat(op(o, n))
            if not near(r, want(w, n)):
                raise Violation('%s: afterwards %s is %s, alone %s' % (what, n, r, want(w, n)))
    rec.trace()
    rec.step(sum(b.points))


def two(sc, rec):
    _, w, a, b, mode, deep = sc
    na, nb = count(w, a, mode), count(w, b, mode)
    bound = 2 if na <= deep and nb <= deep else 1
    for first in (0, 1):
        for plan in plans(na, nb, bound, first, 200 if deep and deep < 100 else 1000):
            go(w, [a, b], plan, mode, rec)
            rec.state(w, a, b, mode, plan)


def three(sc, rec):
    _, w, names = sc
    n = [min(count(w, x, 'line'), 60) for x in names]
    for a, b, c in itertools.permutations(range(3)):
        st = max(1, n[a] * n[b] // 400)
        for i in range(1, n[a] + 1):
            for j in range(1 + i % st, n[b] + 1, st):
                go(w, names, [(a, i), (b, j), (c, -1), (a, -1), (b, -1)], 'line', rec)
                rec.state(w, names, a, b, i, j)
