"""C06: operations which change the grid keep exactly the field they must."""
import numpy as np
from pynlo.light.PulseBase import Pulse

from mc.core import Machine, Violation, same, true
from mc.pulses import observe, unchanged
from mc.ref import ACCESSORS, Grid, at_of, aw_of, field, C_NMPS

LEVEL = 'model_checking'
BOUNDS = ('grids of 2..12 points, some spanning more than an octave; all sequences of length <=3 (thorough: 4) over expansion (3 factors x 3 sides), subset (all even sizes x '
          'centers over the whole grid, valid or not), rotation (8 shifts), interpolation (6 shifts), band filter (10 bands), '
          'results put aside, other phases, and 5 kinds of rejected calls, against a reference field; single operations exhaustively for all sizes and bins, and at selected bins of grids of 100, 1024 and 4096 points')


def mk(init):
    N, T, wl, kind = init
    p = Pulse(frep_MHz=70.0)
    p.set_NPTS(N)
    p.set_center_wavelength_nm(wl)
    p.set_time_window_ps(T)
    g = Grid(N, C_NMPS / wl, T, 70.0)
    A = field(N, kind)
    p.set_AW(A)
    return p, g, A


def check(p, g, AW, floor=1.0, each=False):
    for n, f in ACCESSORS.items():
        same(n, getattr(p, n), f(g), rtol=2e-9)
    s = max(np.abs(AW).max(), 1e-4 * floor)
    same('AW', p.AW, AW, rtol=1e-9, scale=s)
    if each:        # sample by sample
        same('AW', p.AW / np.where(AW == 0, floor, AW), np.where(AW == 0, 0, 1.0), rtol=1e-6)
    AT = at_of(g, AW)
    same('AT', p.AT, AT, rtol=1e-9, scale=max(np.abs(AT).max(), 1e-4 * floor))


def wl_at(g, b):
    """Wavelength at the (fractional) bin b."""
    return C_NMPS / (g.f0 + (b - g.N // 2) / g.T)


def do(p, g, AW, op):
    """Apply; returns (pulse, grid, reference field)."""
    k = op[0]
    if k == 'expand':
        f = 2 ** op[1]
        AT = at_of(g, AW)
        new = np.zeros(g.N * f, complex)
        n = g.N * (f - 1)
        a = {'before': n, 'after': 0, 'even': n // 2}[op[2]]
        new[a:a + g.N] = AT
        dt, old = p.dT_ps, p.AT
        if op[2] == 'before' and op[1] == 1:
            p.expand_time_window(op[1])
        else:
            p.expand_time_window(op[1], op[2])
        g2 = Grid(g.N * f, g.f0, g.T * f, g.frep)
        same('sample spacing', p.dT_ps, dt, rtol=1e-12)
        same('samples', p.AT[a:a + g.N], old, rtol=1e-9)
        return p, g2, aw_of(g2, new)
    if k == 'subset':
        b, n = op[1], op[2]
        wl = wl_at(g, b)
        c = int(np.argmin(np.abs(g.wl - wl)))
        before = observe(p)
        lo, hi = c - n // 2, c + n // 2
        if n >= g.N or lo < 0 or hi > g.N:
            try:
                p.create_subset_pulse(wl, n)
            except Exception:
                unchanged('pulse after the rejected subset', before, p)
                return p, g, AW
            if n >= g.N:
                raise Violation('a subset of %d of %d points was accepted' % (n, g.N))
            unchanged('pulse', before, p)
            return p, g, AW
        q = p.create_subset_pulse(wl, n)
        unchanged('pulse a subset was taken of', before, p)
        g2 = Grid(n, g.F[c], g.T, g.frep)
        same('subset frequencies', q.F_THz, p.F_THz[lo:hi], rtol=1e-11)
        same('subset samples', q.AW, p.AW[lo:hi], rtol=0)
        return q, g2, AW[lo:hi].copy()
    if k == 'rotate':
        p.rotate_spectrum_to_new_center_wl(wl_at(g, g.N // 2 + op[1]))
        return p, g, np.roll(AW, int(np.round(op[1])))
    if k == 'interp':
        before = observe(p)
        wl = wl_at(g, g.N // 2 + op[1])
        q = p.interpolate_to_new_center_wl(wl)
        unchanged('pulse interpolated from', before, p)
        g2 = Grid(g.N, g.f0 + op[1] / g.T, g.T, g.frep)
        x, new = g.k + op[1], np.zeros(g.N, complex)
        for i in range(g.N):
            j = int(np.floor(x[i] + g.N // 2))
            if 0 <= j < g.N - 1:
                u = x[i] + g.N // 2 - j
                new[i] = (1 - u) * AW[j] + u * AW[j + 1]
        return q, g2, new
    if k == 'filter':
        # lower/upper edge in bins counted along wavelength; bins half way are unambiguous
        lo, hi = wl_at(g, op[2]), wl_at(g, op[1])
        if len(op) > 3:     # edges exactly on grid points are kept
            w = p.wl_nm
            lo, hi = w[op[2]], w[op[1]]
        p.filter_by_wavelength_nm(lo, hi)
        i = np.arange(g.N)
        return p, g, np.where((i >= op[1]) & (i <= op[2]), AW, 0)
    if k == 'bad':
        before = observe(p)
        n = g.N
        try:
            if op[1] == 'expand':
                p.expand_time_window(1, 'middle')
            elif op[1] == 'set_AW':
                p.set_AW(np.ones(n + 2))
            elif op[1] == 'set_AT':
                p.set_AT(np.ones(n + 2, complex))
            elif op[1] == 'subset':
                p.create_subset_pulse(p.center_wavelength_nm, n)
            elif op[1] == 'subset2':
                p.create_subset_pulse(p.center_wavelength_nm, n + 2)
        except Exception:
            unchanged('pulse after the rejected call %s' % op[1], before, p)
            return p, g, AW
        raise Violation('the invalid call %s was accepted' % op[1])
    raise KeyError(op)


class M(Machine):
    def __init__(self, init):
        self.p, self.g, self.AW = mk(init)

    def ops(self):
        N = self.g.N
        o = [['bad', b] for b in ('expand', 'set_AW', 'set_AT', 'subset', 'subset2')]
        if N <= 16:
            o += [['expand', k, l] for k in (0, 1, 2) for l in ('before', 'after', 'even')]
        o += [['rotate', s] for s in (1.0, -1.0, 2.3, -2.3, 0.3, 0.6, -0.6)]
        o += [['interp', s] for s in (0.4, -0.4, 1.7, -2.6)]
        o += [['subset', N // 2, n] for n in range(2, N + 3, 2)]
        o += [['subset', b, 2] for b in (0.2, 1.1, N - 1, N - 0.6)]
        o += [['phase'], ['keep', 'interp', 0.4], ['keep', 'subset', N // 2, 2]]
        o += [['filter', 0.5, N - 1.5], ['filter', N // 2 - 0.5, N + 3.5], ['filter', -1.5, N // 2 - 0.5],
              ['filter', 0, N - 1, 'exact'], ['filter', 1, N - 1, 'exact']]
        return o

    def apply(self, op):
        if op[0] == 'keep':             # look at the result, go on with the original
            check(*do(self.p, self.g, self.AW, op[1:]))
        elif op[0] == 'phase':          # the same amplitudes with other phases
            self.AW = self.AW * np.exp(2j * np.cos(np.arange(self.g.N) * 1.3))
            self.p.set_AW(self.AW)
        else:
            self.p, self.g, self.AW = do(self.p, self.g, self.AW, op)

    def probe(self):
        check(self.p, self.g, self.AW)


MACHINES = {'grid': M}


def machines(tier):
    for init in ([4, 3.0, 1550.0, 0], [8, 6.0, 1550.0, 3], [6, 2.5, 800.0, 0]):
        yield 'grid', init, 3 if tier == 'quick' else 4


def scenarios(tier):
    top = 12 if tier == 'quick' else 24
    for N in range(2, top + 1, 2):
        yield [N, 0.00412345678912 * N, 1550.0, 3]
        for kind in (0, 3) if N not in (6, 8) else (0, 3, 4, 5, 6):
            for T, wl in ((0.3 * N, 1550.0), (20.0, 800.0)):
                yield [N, T, wl, kind]
    for N in (100, 1024, 4096):
        yield ['large', N]


def run(init, rec):
    if init[0] == 'large':
        return do_large(init, rec)
    N = init[0]
    ops = [['expand', k, l] for k in (0, 1, 2, 3, 5) for l in ('before', 'after', 'even')]
    ops += [['subset', b + d, n] for b in range(N) for d in (0, 0.3, -0.3, 0.49, -0.49) for n in range(2, N + 1, 2)
            if 0 <= b + d <= N - 1]
    ops += [['rotate', s + d] for s in range(-N, N + 1) for d in (0, 0.3, -0.4)]
    ops += [['interp', s + d] for s in range(-N, N + 1) for d in (0.3, -0.45)]
    ops += [['filter', a - 0.5, b + 0.5] for a in range(N) for b in range(a, N)]
    ops += [['filter', a, b, 'exact'] for a in range(N) for b in range(a, N)]
    for op in ops:
        p, g, AW = mk(init)
        try:
            floor = np.abs(AW).max()
            p, g, AW = do(p, g, AW, op)
            check(p, g, AW, floor, op[0] in ('rotate', 'subset', 'filter') or op[0] == 'interp' and init[3] == 6)
        except Violation as v:
            raise Violation('%s: %s' % (op, v.what))
        rec.state(p)
        rec.step()


def do_large(sc, rec):
    _, N = sc
    init = [N, 0.03 * N, 1550.0, 3]
    ops = [['expand', k, l] for k in (1, 2) for l in ('before', 'after', 'even')]
    ops += [['subset', b + d, n] for b in (N // 2, N // 2 - 7, N // 4 + 1, 3 * N // 4) for d in (0, 0.3, -0.3) for n in (2, 10, N // 8 * 2, N // 4 * 2)]
    ops += [['rotate', s + d] for s in (-N, -N // 2, -17, -1, 0, 1, 5, N // 3, N - 1) for d in (0, 0.3, -0.4)]
    ops += [['interp', s + d] for s in (-N // 2, -17, -1, 0, 5, N // 3) for d in (0.3, -0.45)]
    ops += [['filter', a - 0.5, b + 0.5] for a in (0, 3, N // 2) for b in (N // 2, N - 5, N - 1)]
    ops += [['filter', a, b, 'exact'] for a in (0, 3, N // 2) for b in (N // 2, N - 5, N - 1)]
    for op in ops:
        p, g, AW = mk(init)
        try:
            p, g, AW = do(p, g, AW, op)
            check(p, g, AW)
        except Violation as v:
            raise Violation('%s: %s' % (op, v.what))
        rec.state(p)
        rec.step()
