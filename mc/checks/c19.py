"""C19: coherence and noise calculations are repeatable and well formed."""
import itertools
import os
import shutil
import tempfile

import numpy as np
from pynlo.light.PulseBase import Pulse
from pynlo.media.fibers.fiber import FiberInstance

from mc import fibers as F
from mc import ssfm as S
from mc.core import same, true, raises, Machine
from mc.pulses import observe, unchanged
from mc.ref import C_NMPS, H, Grid

LEVEL = 'model_checking'
BOUNDS = ('3 seeds x 2..4 trials x 2 noise types x 1..3 outputs x 3 fibers x 2 pulses, each repeated on fresh and used simulators; noise of both types on 4 grids x 4 seeds, of every trial on 2 grids x 2 (8) seeds x 4 (6) trials x 1,2 outputs; '
          'all sequences of <=3 (thorough: 4) seeded/unseeded coherence runs, other uses of the random generator, noise additions and propagations')
CHUNK = 3
SCRATCH = None


def setup():
    global SCRATCH
    SCRATCH = tempfile.mkdtemp(prefix='verif-c19-')
    F.write_db(SCRATCH)


def teardown():
    if SCRATCH:
        shutil.rmtree(SCRATCH, ignore_errors=True)


FIB = ('plain', 'varying', 'spectral')


def fiber(kind):
    if kind == 'spectral':
        f = FiberInstance('mydb', SCRATCH)
        f.load_from_db(0.5, 'gain')
        return f
    f = S.fiber(0.5, [-0.01], 0.05)
    if kind == 'varying':
        f.set_gamma_function(lambda z: 0.05 + 0.1 * z)
        f.set_dispersion_function(lambda z: [-0.01 + 0.04 * z], dispersion_format='GVD')
    return f


def coherence(s, p, f, kind, seed, trials, noise, n):
    kw = {}
    if kind == 'spectral':
        kw['output_power'] = 3.0 * p.calc_epp() * p.frep_mks
    if kind == 'varying':
        kw['reload_fiber_each_step'] = True
    return s.calculate_coherence(p, f, num_trials=trials, random_seed=seed, noise_type=noise, n_steps=n, **kw)


def scenarios(tier):
    q = tier == 'quick'
    for kind, noise in itertools.product(FIB, ('one_photon_freq', 'sqrt_N_freq')):
        for trials, n in itertools.product((2, 3, 4, 9) if q else (2, 3, 4, 6, 9, 16), (1, 2, 3)):
            if kind == 'spectral' and (n == 2 or trials > 2):
                continue
            yield ['coh', kind, noise, trials, n]
    for N, T in ((4096, 17.6), (1024, 6.0), (512, 2.5), (2048, 60.0)):
        for seed in (0, 1, 7, 99) if q else range(24):
            yield ['noise', N, T, seed]
    for noise in ('one_photon_freq', 'sqrt_N_freq'):
        for N, T in ((512, 6.0), (1024, 17.6)):
            for seed in (0, 11) if q else range(8):
                yield ['trials', N, T, noise, seed, 4 if q else 6]
    for N in (8, 64):
        yield ['reject', N]


def run(sc, rec):
    globals()['do_' + sc[0]](sc, rec)


def pulses():
    # weak enough for the noise to survive single precision results
    for kind, P in (('two', 1e-7), ('mod', 10.0)):
        yield kind, S.pulse(kind, 64, 3.0, P=P)


def do_coh(sc, rec):
    _, kind, noise, trials, n = sc
    for pk, (p, g) in pulses():
        p.set_AW(np.array(p.AW) + 1e-3 * np.abs(p.AW).max() * np.exp(1j * np.arange(g.N)))
        ob = observe(p)
        f = fiber(kind)
        first = {}
        for seed in (0, 5, 12345):
            s = S.sim(local_error=1e-6, dz=1e-2)
            gW, res = coherence(s, p, f, kind, seed, trials, noise, n)
            unchanged('input pulse', ob, p)
            true('shape of the coherence', np.shape(gW) == (g.N, n))
            true('number of trials', len(res) == trials)
            true('coherence between 0 and 1', bool(np.all((gW >= -1e-6) & (gW <= 1 + 1e-5))))
            for r in res:
                same('positions', r[0], np.linspace(0, 0.5, n + 1), rtol=1e-12)
                true('field shapes', np.shape(r[1]) == (g.N, n) == np.shape(r[2]))
                same('trial pulse', r[1][:, -1], r[-1].AW, rtol=1e-6)
            E = [np.asarray(r[1], complex) for r in res]
            acc = sum(np.conj(E[a]) * E[b] / np.abs(E[a] * E[b]) for a in range(trials) for b in range(trials) if a != b)
            same('coherence', gW, np.abs(acc) / (trials * (trials - 1)), rtol=2e-5, scale=1.0)
            for a in range(trials):
                for b in range(a):
                    true('trials have different noise', not np.array_equal(res[a][-1].AW, res[b][-1].AW))
            # each trial is the propagation of the pulse with a little noise
            want = noiseless(p, f, kind, n)
            for i, r in enumerate(res):
                same('trial %d' % i, r[-1].AW, want, rtol=5e-3 if kind == 'spectral' else 2e-3, atol=4e-7)
            # repeated, on a fresh simulator and on the used one
            gW2, res2 = coherence(S.sim(local_error=1e-6, dz=1e-2), p, f, kind, seed, trials, noise, n)
            true('repeated coherence', np.array_equal(gW, gW2))
            true('repeated trials', all(np.array_equal(a[k], b[k]) for a, b in zip(res, res2) for k in (0, 1, 2)))
            gW3, res3 = coherence(s, p, f, kind, seed, trials, noise, n)
            same('repeated on the same simulator', gW3, gW, rtol=3e-3, scale=1.0)
            for a, b in zip(res, res3):
                same('repeated on the same simulator', b[1], a[1], rtol=1e-4)
            for o, r in first.items():
                true('seeds %d and %d give different noise' % (o, seed), not np.array_equal(r[0][1], res[0][1]) or pk == 'mod')
                true('seeds %d and %d give different noise' % (o, seed), not np.array_equal(r[0][-1].AW, res[0][-1].AW))
            first[seed] = res
            rec.state(gW, [r[1] for r in res])
            rec.step(3)
        a = coherence(S.sim(local_error=1e-6, dz=1e-2), p, f, kind, None, trials, noise, n)
        b = coherence(S.sim(local_error=1e-6, dz=1e-2), p, f, kind, None, trials, noise, n)
        true('unseeded runs differ', not np.array_equal(a[1][0][-1].AW, b[1][0][-1].AW))
        rec.step(2)


def do_trials(sc, rec):
    _, N, T, noise, seed, trials = sc
    p, g = grid_pulse(N, T)
    A = 1e-8 * (1.2 + np.cos(0.3 * g.k)) * np.exp(0.1j * g.k)
    p.set_AW(A)
    f = S.fiber(0.5, [-0.001, 2e-6], 0.0)
    ph = np.exp(1j * 0.5 * np.array(f.get_betas(p)))
    E = H * g.F * 1e12
    dF = 1e12 / T
    x = []
    for n in (1, 2):
        for dz in (1.0, 0.2):
            res = S.sim(dz=dz).calculate_coherence(p, f, num_trials=trials, random_seed=seed, noise_type=noise, n_steps=n)[1]
            for i, r in enumerate(res):
                d = np.array(r[-1].AW) / ph - A
                x.append(d / (E * dF) if noise == 'one_photon_freq' else d / (np.abs(A) * np.sqrt(E * dF)))
                # every trial carries exactly one helping of noise
                gaussian('noise of trial %d' % i, x[-1], g)
                for j in range(len(x) - 1 - i, len(x) - 1):
                    c = abs(np.vdot(x[j], x[-1])) / np.linalg.norm(x[j]) / np.linalg.norm(x[-1])
                    true('trials have independent noise (correlation %.2f)' % c, c < 7 / np.sqrt(N))
                rec.state(r[-1])
                rec.step()


def noiseless(p, f, kind, n):
    kw = {}
    if kind == 'spectral':
        kw['output_power'] = 3.0 * p.calc_epp() * p.frep_mks
    if kind == 'varying':
        kw['reload_fiber_each_step'] = True
    return np.array(S.sim(local_error=1e-7, dz=1e-3).propagate(p, f, n, **kw)[3].AW)


def grid_pulse(N, T):
    p = Pulse(frep_MHz=100.0, n=N)
    p.set_center_wavelength_nm(1550.0)
    p.set_time_window_ps(T)
    return p, Grid(N, C_NMPS / 1550.0, T)


def gaussian(what, x, h):
    """x should be n(0,1) times a uniform phase: bounds far outside chance."""
    n = len(x)
    for part, y in (('all', x), ('low frequencies', x[:n // 2]), ('high frequencies', x[n // 2:])):
        m = len(y)
        rms = np.sqrt(np.mean(np.abs(y) ** 2))
        true('%s, %s: size %.3f of the nominal' % (what, part, rms), abs(rms - 1) < 6.0 / np.sqrt(2 * m) + 0.02)
        true('%s, %s: phase' % (what, part), abs(np.mean(y)) < 6.0 / np.sqrt(m))
        true('%s, %s: quadratures' % (what, part), abs(np.mean(y ** 2)) < 9.0 / np.sqrt(m))
    true(what + ': outliers', np.abs(x).max() < 7)


def do_noise(sc, rec):
    _, N, T, seed = sc
    p, g = grid_pulse(N, T)
    E = H * g.F * 1e12
    dF = 1e12 / T
    np.random.seed(seed)
    # one photon per bin whatever is there
    seen = []
    for A in (np.zeros(N), 3e-9 * np.exp(1j * g.k), 1e-8 * (1 + 0.5 * np.cos(g.k))):
        for rep in range(2):
            p.set_AW(A)
            p.add_noise('one_photon_freq')
            d = np.array(p.AW) - A
            gaussian('one photon noise', d / (E * dF), g)
            seen.append(d / E)
            rec.step()
    # sqrt(N): proportional to the square root of the photon number
    for amp in (1.0, 1e-3):
        A = amp * (1.2 + np.cos(0.3 * g.k)) * np.exp(0.1j * g.k)
        A[::7] = 0
        p.set_AW(A)
        p.add_noise('sqrt_N_freq') if amp == 1.0 else p.add_noise()
        d = np.array(p.AW) - A
        true('empty bins stay empty', not np.any(d[::7]))
        m = A != 0
        x = d[m] / (np.abs(A[m]) * np.sqrt(E[m] * dF))
        gaussian('square root noise', x, g)
        seen.append(x)
        rec.step()
    for i, a in enumerate(seen):
        for b in seen[:i]:
            k = min(len(a), len(b))
            c = abs(np.vdot(a[:k], b[:k])) / np.linalg.norm(a[:k]) / np.linalg.norm(b[:k])
            true('independent noise (correlation %.2f)' % c, c < 7 / np.sqrt(k))
    p.set_AW(np.zeros(N))
    p.add_noise('sqrt_N_freq')
    true('no field, no noise', not np.any(p.AW))
    # the generator's seed decides
    for t in ('one_photon_freq', 'sqrt_N_freq'):
        out = []
        for k in range(2):
            p.set_AW(np.full(N, 1e-8))
            np.random.seed(seed + 1)
            p.add_noise(t)
            out.append(np.array(p.AW))
        true('same generator state, same noise', np.array_equal(*out))
    rec.state(p)


def do_reject(sc, rec):
    p, g = S.pulse('two', sc[1], 3.0)
    ob = observe(p)
    f = fiber('plain')
    for bad in ('', 'none', 'sqrt_N', 'one_photon', 'SQRT_N_FREQ', None):
        raises('noise type %r' % (bad,), Exception, p.add_noise, bad)
        unchanged('rejected noise type', ob, p)
        raises('noise type %r' % (bad,), Exception, S.sim().calculate_coherence, p, f, 2, 0, bad, 1)
        unchanged('rejected noise type', ob, p)
        rec.step(2)
    rec.state(p)


class M(Machine):
    """Seeded results do not depend on what happened before."""
    def __init__(self, init):
        self.p = S.pulse('two', 32, 3.0, P=1e-7)[0]
        self.f = fiber('plain')
        self.sims = [S.sim(local_error=1e-6, dz=1e-2), S.sim(local_error=1e-6, dz=1e-2, disable_Raman=True)]
        self.results = {}
        self.kept = []
        self.ob = observe(self.p)

    def ops(self):
        return [['coh', 0, 3], ['coh', 1, 3], ['coh', 0, 4], ['coh', 0, None], ['rand', 0, 0], ['seed', 0, 3], ['noise', 0, 0],
                ['prop', 0, 0], ['prop', 1, 0]]

    def apply(self, op):
        k, i, seed = op
        if k == 'coh':
            gW, res = self.sims[i].calculate_coherence(self.p, self.f, 2, seed, 'one_photon_freq', 1)
            AW = np.array([r[1] for r in res])
            if seed is not None:
                if (i, seed) in self.results:
                    a, b = self.results[i, seed]
                    # one photon of noise has a random phase: compare the fields
                    same('seeded fields', AW, b, rtol=1e-4)
                else:
                    self.results[i, seed] = (np.array(gW), AW)
            self.kept.append((gW, res, np.array(gW), AW))
        elif k == 'rand':
            np.random.rand(3)
        elif k == 'seed':
            np.random.seed(seed)
        elif k == 'noise':
            q = self.p.create_cloned_pulse()
            q.add_noise('one_photon_freq')
        else:
            self.sims[i].propagate(self.p, self.f, 1)

    def probe(self):
        unchanged('input pulse', self.ob, self.p)
        for gW, res, g0, A0 in self.kept:
            true('earlier coherence results', np.array_equal(gW, g0))
            true('earlier coherence results', np.array_equal(np.array([r[1] for r in res]), A0))
        gW, res = S.sim(local_error=1e-6, dz=1e-2).calculate_coherence(self.p, self.f, 2, 3, 'one_photon_freq', 1)
        np.random.rand(5)
        gV, rev = S.sim(local_error=1e-6, dz=1e-2).calculate_coherence(self.p, self.f, 2, 3, 'one_photon_freq', 1)
        true('seeded run repeated', np.array_equal(gW, gV))
        true('seeded run repeated', all(np.array_equal(a[1], b[1]) for a, b in zip(res, rev)))


MACHINES = {'history': M}


def machines(tier):
    yield 'history', 0, 3 if tier == 'quick' else 4
