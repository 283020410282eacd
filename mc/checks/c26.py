"""C26: mixing problems are set up consistently and leave their inputs alone."""
import copy
import itertools
import math

import numpy as np

from mc import dfg as D
from mc import pulses as P
from mc.core import Machine, Violation, exact, raises, same, true
from mc.ref import C_NMPS, Grid as _Grid
from mc.state import fingerprint

LEVEL = 'model_checking'
BOUNDS = ('setup: 6 wavelength pairs x 5 windows x 4 sizes x 3 repetition rates x 3 geometries (accepted or rejected by an independent overlap rule) and unequal sizes; poling: 14 profiles, all domains x 6 fractions (up to 3300 domains), every ordered triple of '
          '14 positions; histories of <=3 (thorough 4) operations out of derivative evaluations, deep copies, post-processing, reading results, later changes of the given pulses and crystal, for 8 geometries; results: every order of <=3 getter calls on 2 records')
CHUNK = 4
LAM = 30e-6


def Grid(N, T, wl):
    return _Grid(N, C_NMPS / wl, T)


def pp_of(kind, L):
    """Poling profiles as a user gives them: (how to set, reference period)."""
    if kind == 'default':
        return None, lambda z: 30.49e-6
    if kind.startswith('const'):
        v = {'const': LAM, 'const-short': 7.3e-6, 'const-odd': 29.98765432e-6, 'const-long': 1.7e-3, 'const-whole': 2 * L}[kind]
        return ('tuple', v), lambda z: v
    if kind == 'fn-const':
        return ('fn', lambda z: 21e-6), lambda z: 21e-6
    if kind.startswith('chirp'):
        a, b = {'chirp': (20e-6, 40e-6), 'chirp-down': (45e-6, 15e-6), 'chirp-flat': (33e-6, 33e-6), 'chirp-steep': (5e-6, 200e-6)}[kind]
        return ('chirp', a, b), lambda z: a + (b - a) * z / L
    if kind == 'quad':
        f = lambda z: 20e-6 + 30e-6 * (z / L) ** 2
    elif kind == 'steps':
        f = lambda z: 20e-6 if z < L / 3 else 37e-6
    else:
        f = lambda z: 30e-6 + 12e-6 * math.sin(40 * z / L)
    return ('fn', f), f


PROFILES = ['default', 'const', 'const-short', 'const-odd', 'const-long', 'const-whole', 'fn-const', 'chirp', 'chirp-down', 'chirp-flat', 'chirp-steep', 'quad', 'steps', 'wave']


def set_poling(c, how):
    if how is None:
        return
    if how[0] == 'tuple':
        c.set_pp((how[1],))
    elif how[0] == 'fn':
        c.set_pp(how[1])
    else:
        c.set_pp_chirp(how[1], how[2])


def domains(f, L):
    """[(start, middle, end)] of the poling periods in the crystal."""
    out, z = [], 0.0
    while z < L:
        p = f(z)
        out.append((z, z + p / 2, z + p))
        z += p
    return out


def crystal(kind, L=1e-3, caching=False):
    if kind == 'ppln':
        c = D.PPLN(45.0, length=L, enable_caching=caching)
    elif kind == 'bpm':
        c = D.AgGaSe2(0.85, length=L, enable_caching=caching)
    else:
        c = D.Simple(L)
        c.set_caching(caching)
    return c


def wls(kind):
    return (1900.0, 3000.0) if kind == 'bpm' else (1064.0, 1550.0)


def inputs(kind, N=8, T=1.6, caching=False, L=1e-3):
    k = np.arange(N) - N // 2
    a = np.exp(-(k / 1.7) ** 2 + 0.4j * k)
    b = 0.3 * np.exp(-((k - 1) / 2.2) ** 2 - 0.1j * k * k)
    lp, ls = wls(kind)
    return D.blank(N, T, lp, AW=a), D.blank(N, T, ls, AW=b), crystal(kind, L, caching)


def problem(kind, wg=False, gouy=False, N=8, inp=None, fftw=True, caching=False, waist=15e-6):
    p, s, c = inp or inputs(kind, N, caching=caching)
    with D.fftw(fftw):
        if wg:
            q = D.dfg_problem(p, s, c, disable_SPM=True, wg_mode=True, Aeff_squm=12.0, apply_gouy_phase=gouy)
        else:
            q = D.dfg_problem(p, s, c, disable_SPM=True, pump_waist=waist, apply_gouy_phase=gouy)
    return q, (p, s, c)


def crystal_facts(c):
    out = {'mode': c.mode, 'deff': c.deff, 'n2': c.n2, 'L': c.length_mks, 'T': getattr(c, 'T', None), 'theta': getattr(c, 'theta', None),
           'cache': c._enable_caching if hasattr(c, '_enable_caching') else None, 'damage': c.damage_threshold_mks if c.mode != 'simple' else None}
    out['n'] = np.asarray(c.n(np.array([1000.0, 1500.0, 3000.0]) + 900.0, *(['mix'] if c.mode == 'BPM' else []))).tolist()
    if c.mode == 'PP':
        out['pp'] = [c.pp(z) for z in (0.0, 3e-4, 1e-3)]
    return out


CONF = [('ppln', False, False), ('ppln', False, True), ('ppln', True, False), ('bpm', False, False), ('bpm', False, True), ('simple', True, True), ('simple', False, False), ('ppln-cache', False, False)]


def scenarios(tier):
    for wl in range(len(SETUP_WL)):
        for geo in GEO:
            yield ['setup', wl, geo]
    yield ['lengths']
    for pr in PROFILES:
        for kind in ('domains', 'orders', 'deriv', 'long'):
            yield ['poling', pr, kind]
    for i in range(len(CONF)):
        for perm in itertools.product(range(6), repeat=2):
            yield ['results', i, list(perm), 3 if tier == 'quick' else 4]


SETUP_WL = [(1064.0, 1550.0), (1030.0, 1060.0), (780.0, 1500.0), (800.0, 1650.0), (1500.0, 2900.0), (1900.0, 3000.0)]
GEO = ['wg', 'bulk', 'bpm']


def run(sc, rec):
    globals()['do_' + sc[0]](sc, rec)


def do_setup(sc, rec):
    _, wl, geo = sc
    lp, ls = SETUP_WL[wl]
    li = 1 / (1 / lp - 1 / ls)
    kind = {'wg': 'ppln', 'bulk': 'ppln', 'bpm': 'bpm'}[geo]
    for T, N, frep, fftw in itertools.product((1.05, 1.6, 4.0, 10.0), (4, 8, 64, 128), (1.0, 100.0, 5e3), (True, False)):
        try:
            gi = Grid(N, T, li)
            gp, gs = Grid(N, T, lp), Grid(N, T, ls)
        except Exception:
            continue
        if min(gp.W.min(), gs.W.min(), gi.W.min()) <= 0:
            continue
        m1 = gs.wl.min() - gp.wl.max()
        m2 = gi.wl.min() - gs.wl.max()
        if min(abs(m1), abs(m2)) < 1e-6:
            continue
        k = np.arange(N) - N // 2
        p = D.blank(N, T, lp, frep, np.exp(-(k / 1.5) ** 2))
        s = D.blank(N, T, ls, frep, 0.1 * np.exp(-(k / 1.5) ** 2 + 1j * k))
        c = crystal(kind)
        p0, s0, c0 = P.observe(p), P.observe(s), crystal_facts(c)
        w = 'pump %g, signal %g, window %g ps, %d points' % (lp, ls, T, N)
        kw = dict(wg_mode=True, Aeff_squm=9.0) if geo == 'wg' else dict(pump_waist=20e-6)

        def make():
            with D.fftw(fftw):
                return D.dfg_problem(p, s, c, disable_SPM=True, **kw)
        if m1 < 0 or m2 < 0:
            raises(w + ': overlapping grids', ValueError, make)
            rec.outcome('rejected', wl, T, N)
        else:
            q = make()
            i = q.idlr
            same(w + ': idler center', i.center_wavelength_nm, li, rtol=1e-9)
            true(w + ': idler size', i.NPTS == N)
            same(w + ': idler window', i.time_window_ps, T, rtol=1e-12)
            same(w + ': idler repetition rate', i.frep_MHz, frep, rtol=1e-12)
            same(w + ': idler frequencies', i.W_mks, gi.W * 1e12, rtol=1e-9)
            # energy conservation on the grids, index by index
            same(w + ': centers', q.pump.W_mks[N // 2], q.sgnl.W_mks[N // 2] + q.idlr.W_mks[N // 2], rtol=1e-12)
            y = np.asarray(q.ystart)
            same(w + ': start, pump', y[:N], p0['AW'], rtol=1e-14)
            same(w + ': start, signal', y[N:2 * N], s0['AW'], rtol=1e-14)
            same(w + ': start, idler', y[2 * N:], q.idlr.AW, rtol=1e-14)
            true(w + ': length', len(y) == 3 * N)
            d = np.full(3 * N, 5.0, complex)
            y0 = y.copy()
            q.deriv(1.234e-4, y, d)
            exact(w + ': state vector', y, y0)
            if li < 6000:       # where the index formulas hold
                true(w + ': finite', bool(np.all(np.isfinite(d))))
            for n in ('pump', 'sgnl'):
                P.unchanged(w + ': problem.' + n, p0 if n == 'pump' else s0, getattr(q, n))
            true(w + ': copies', q.pump is not p and q.sgnl is not s and q.crystal is not c)
            rec.outcome('accepted', wl, T, N, geo)
        P.unchanged(w + ': given pump', p0, p)
        P.unchanged(w + ': given signal', s0, s)
        exact(w + ': given crystal', crystal_facts(c), c0)
        rec.step()
        rec.state(wl, geo, T, N, frep)
    rec.trace()


def do_lengths(sc, rec):
    for n1, n2 in itertools.product((4, 8, 16), repeat=2):
        for geo in GEO:
            kind = 'bpm' if geo == 'bpm' else 'ppln'
            lp, ls = wls(kind)
            kw = dict(wg_mode=True, Aeff_squm=9.0) if geo == 'wg' else {}
            f = lambda: D.dfg_problem(D.blank(n1, 2.0, lp, AW=np.ones(n1)), D.blank(n2, 2.0, ls, AW=np.ones(n2)), crystal(kind), disable_SPM=True, **kw)
            if n1 == n2:
                f()
            else:
                raises('%d and %d points' % (n1, n2), ValueError, f)
            rec.step()
            rec.state(n1, n2, geo)


def poled(profile, L=1e-3):
    how, ref = pp_of(profile, L)
    p, s, c = inputs('ppln', 4, L=L)
    set_poling(c, how)
    q, _ = problem('ppln', wg=True, N=4, inp=(p, s, c))
    return q, domains(ref, L), ref, c


def positions(dom, L, fr=(0.001, 0.25, 0.499, 0.501, 0.75, 0.999)):
    for a, m, b in dom:
        for f in fr:
            z = a + f * (b - a)
            if z <= L:
                yield z, 1.0 if f < 0.5 else -1.0


def do_poling(sc, rec):
    _, profile, kind = sc
    L = 2.4e-2 if kind == 'long' else 1e-3
    q, dom, ref, c = poled(profile, L)
    for z in (0.0, L / 7, L / 2, L):
        same('period at %g' % z, c.pp(z), ref(z), rtol=1e-12)
    pos = list(positions(dom, L))
    if kind == 'long':
        pos = [x for i, x in enumerate(pos) if i % 7 == 0 or i < 12 or i > len(pos) - 60]
    if kind in ('domains', 'long'):
        for order in (pos, pos[::-1], pos[::2] + pos[1::2][::-1]):
            for z, sg in order:
                exact('%s: sign at %.9g' % (profile, z), float(q.poling(z)), sg)
                rec.step()
                rec.state(profile, z, sg)
        exact('%s: sign at the entrance' % profile, float(q.poling(0.0)), 1.0)
    elif kind == 'orders':
        few = pos[::max(1, len(pos) // 13)][:13] + [pos[-1]]
        for tr in itertools.product(few, repeat=3):
            for z, sg in tr:
                exact('%s: sign at %.9g after %r' % (profile, z, tr), float(q.poling(z)), sg)
            rec.step(3)
        rec.state(profile, len(few))
    else:
        # the derivative changes sign with it
        c2 = crystal('ppln', L)
        c2.set_pp((10.0,))
        p, s, _ = inputs('ppln', 4, L=L)
        q2, _ = problem('ppln', wg=True, N=4, inp=(p, s, c2))
        y = np.exp(1j * np.arange(12)) * (1 + np.arange(12))
        d, d2 = np.zeros(12, complex), np.zeros(12, complex)
        for z, sg in pos:
            q.deriv(z, y, d)
            q2.deriv(z, y, d2)
            same('%s: derivative at %.9g' % (profile, z), d, sg * d2, rtol=1e-10)
            rec.step()
        rec.state(profile, 'deriv')
    rec.outcome(profile, kind, len(dom))


class Record:
    """What an integration hands over."""
    def __init__(self, N, which):
        rows = 5
        k = np.arange(3 * N)
        self.xsave = np.array([0.0, 1e-4, 3.3e-4, 1e-3, 77.0]) if which == 0 else np.array([2e-4, 5e-5, 9e-4, 6e-4, 77.0])
        self.ysave = np.array([np.exp(1j * (r + 1) * k * (0.3 + which)) * (1 + r + k % 5) for r in range(rows)])
        self.count = 4 if which == 0 else 3


def expected(kind, inp, rec_, wave, row, peak):
    """The field the results must show, from public quantities."""
    p, s, c = inp
    N = p.NPTS
    li = 1 / (1 / p.center_wavelength_nm - 1 / s.center_wavelength_nm)
    lam = {'pump': p.center_wavelength_nm, 'sgnl': s.center_wavelength_nm, 'idlr': li}[wave]
    g = Grid(N, p.time_window_ps, lam)
    ax = {'pump': ['mix'], 'sgnl': ['o'], 'idlr': ['o']}[wave] if c.mode == 'BPM' else []
    k = 2 * math.pi * np.asarray(c.n(g.wl, *ax)) / (g.wl * 1e-9)
    gp = Grid(N, p.time_window_ps, p.center_wavelength_nm)
    npk = np.asarray(c.n(gp.wl, *(['mix'] if c.mode == 'BPM' else [])))[peak]
    z = rec_.xsave[row]
    t = z * npk / D.C
    o = {'pump': 0, 'sgnl': N, 'idlr': 2 * N}[wave]
    return lam, g, rec_.ysave[row, o:o + N] * np.exp(1j * (k * z - t * g.W * 1e12))


WAVES = ('pump', 'sgnl', 'idlr')
GETS = [('pump', 0), ('pump', 2), ('sgnl', 1), ('sgnl', 2), ('idlr', 0), ('idlr', 2)]


def check_get(what, r, kind, inp, record, wave, row, peak):
    pu = getattr(r, 'get_' + wave)(row)
    lam, g, A = expected(kind, inp, record, wave, row, peak)
    w = '%s: %s at record %d' % (what, wave, row)
    same(w + ': center', pu.center_wavelength_nm, lam, rtol=1e-9)
    same(w + ': grid', pu.W_mks, g.W * 1e12, rtol=1e-9)
    same(w + ': magnitude', np.abs(pu.AW), np.abs(A), rtol=1e-9)
    same(w + ': field', pu.AW, A, rtol=1e-6)
    same(w + ': window', pu.time_window_ps, g.T, rtol=1e-12)
    same(w + ': repetition rate', pu.frep_MHz, inp[0].frep_MHz, rtol=1e-12)
    same(w + ': position', r.get_z(row), record.xsave[row], rtol=1e-14)


def conf(i):
    kind, wg, gouy = CONF[i]
    caching = kind.endswith('cache')
    return kind.split('-')[0], wg, gouy, caching


def do_results(sc, rec):
    _, ci, pre, depth = sc
    kind, wg, gouy, caching = conf(ci)
    q, inp = problem(kind, wg, gouy, caching=caching)
    N = inp[0].NPTS
    peak = int(np.argmax(np.abs(inp[0].AW)))
    R = [Record(N, 0), Record(N, 1)]
    keep = [(r.ysave.copy(), r.xsave.copy()) for r in R]
    I = [q.process_stepper_output(r) for r in R]
    d = np.zeros(3 * N, complex)
    for rest in itertools.product(range(6), repeat=depth - 2):
        for j in list(pre) + list(rest):
            wave, row = GETS[j]
            for m in (0, 1):
                check_get('order %s' % (list(pre) + list(rest)), I[m], kind, inp, R[m], wave, row, peak)
            rec.step(2)
        rec.trace()
    q.deriv(3e-4, R[0].ysave[0], d)
    for m in (0, 1):
        for wave, row in GETS:
            check_get('after everything', I[m], kind, inp, R[m], wave, row, peak)
        exact('number of records', I[m].n_saves, R[m].count)
        exact('recorded fields', R[m].ysave, keep[m][0])
        exact('recorded positions', R[m].xsave, keep[m][1])
        for j, wave in enumerate(WAVES):
            true('%s fields: one per record' % wave, len(getattr(I[m], wave + '_field')) == R[m].count)
            same('%s: largest field' % wave, getattr(I[m], wave + '_max_field'), np.abs(R[m].ysave[:R[m].count, j * N:(j + 1) * N]).max(), rtol=1e-9)
    rec.state(ci, pre)
    rec.outcome(ci, pre)


YS = [lambda N: np.exp(1j * np.arange(3 * N) ** 2 / 5.0) * 3.0, lambda N: np.where(np.arange(3 * N) % 3 == 0, 2.0j, 0.5) + 0j]
ZS = [0.0, 3.3e-4, 9.1e-4]
_REF = {}


class Life(Machine):
    """One problem; evaluations, post-processing and changes of its inputs."""
    def __init__(self, init):
        Machine.__init__(self, init)
        self.ci = init
        self.kind, self.wg, self.gouy, self.caching = conf(init)
        self.q, self.inp = problem(self.kind, self.wg, self.gouy, caching=self.caching)
        self.N = 8
        self.obs = [P.observe(self.inp[0]), P.observe(self.inp[1])]
        self.facts = crystal_facts(self.inp[2])
        self.idl = np.array(self.q.idlr.AW)
        self.touched = [False, False, False]
        self.results = []
        self.held = []
        self.peak = int(np.argmax(np.abs(self.inp[0].AW)))
        self.orig = copy.deepcopy(self.inp)

    def ops(self):
        out = [['deriv', z, y] for z in range(3) for y in range(2)] + [['post', 0], ['post', 1], ['poling'], ['copy']]
        out += [['change', k] for k in ('pump', 'sgnl', 'crystal') if not self.touched[('pump', 'sgnl', 'crystal').index(k)]]
        if self.results:
            out += [['get', 'sgnl', 0], ['get', 'idlr', 1]]
        return out

    def reference(self, z, y):
        key = (self.ci, z, y)
        if key not in _REF:
            q, _ = problem(self.kind, self.wg, self.gouy, caching=self.caching)
            d = np.zeros(24, complex)
            q.deriv(ZS[z], YS[y](8), d)
            _REF[key] = d
        return _REF[key]

    def evaluate(self, z, y):
        v = YS[y](8)
        v0 = v.copy()
        d = np.full(24, 3.0 - 1j)
        self.q.deriv(ZS[z], v, d)
        exact('state vector', v, v0)
        same('derivative %d of field %d' % (z, y), d, self.reference(z, y), rtol=1e-11)
        return d

    def apply(self, op):
        if op[0] == 'deriv':
            self.held.append((op[1:], self.evaluate(op[1], op[2])))
        elif op[0] == 'post':
            r = Record(8, op[1])
            y0 = r.ysave.copy()
            self.results.append((self.q.process_stepper_output(r), r))
            exact('recorded fields', r.ysave, y0)
        elif op[0] == 'poling':
            if self.q.crystal.mode == 'PP':
                self.q.poling(2e-5)
        elif op[0] == 'copy':
            # carry on with a copy; what happens to the original is no matter
            old, self.q = self.q, copy.deepcopy(self.q)
            old.deriv(ZS[1], YS[1](8), np.zeros(24, complex))
            old.ystart[:] = 5.0
            old.pump.set_AW(np.zeros(8))
            old.crystal.deff *= 3
        elif op[0] == 'get':
            r, rc = self.results[-1]
            check_get('reading', r, self.kind, self.orig, rc, op[1], op[2], self.peak)
        else:
            j = ('pump', 'sgnl', 'crystal').index(op[1])
            self.touched[j] = True
            if j < 2:
                self.inp[j].set_AW(np.ones(8))
                self.inp[j].set_center_wavelength_nm(1300.0)
            else:
                c = self.inp[2]
                c.deff *= 5
                if c.mode == 'PP':
                    c.set_T(120.0)
                    c.set_pp((3e-6,))
                elif c.mode == 'BPM':
                    c.set_theta(0.1)

    def probe(self):
        for z in range(3):
            for y in range(2):
                self.evaluate(z, y)
        for (z, y), d in self.held:
            same('derivative handed out earlier', d, self.reference(z, y), rtol=1e-11)
        for j in (0, 1):
            if not self.touched[j]:
                P.unchanged('given ' + WAVES[j], self.obs[j], self.inp[j])
        if not self.touched[2]:
            exact('given crystal', crystal_facts(self.inp[2]), self.facts)
        y = np.asarray(self.q.ystart)
        same('start', y, np.hstack([self.obs[0]['AW'], self.obs[1]['AW'], self.idl]), rtol=1e-14)
        for r, rc in self.results:
            for wave in WAVES:
                check_get('at the end', r, self.kind, self.orig, rc, wave, 1, self.peak)


MACHINES = {'Life': Life}


def machines(tier):
    for i in range(len(CONF)):
        yield 'Life', i, 3 if tier == 'quick' else 4
