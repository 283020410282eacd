"""C14: the adaptive integrator covers exactly the requested distance."""
import itertools

import numpy as np

from mc import fibers as F
from mc import ssfm as S
from mc.core import Violation, same, true

LEVEL = 'model_checking'
BOUNDS = ('every sequence of up to 5 (thorough: 7) outcomes {reject, shrink, keep, grow} of the error estimate, forced on the real integrator '
          '(outcome environment scripted through its error-estimate method), x minimum step bound hit or not x direction x tail behaviour x 1-3 outputs; '
          'and the real estimate on a grid of tolerance x initial step x length (also 0.3 nm, 1 um, 40 km) x outputs x method')
ASSUMPTIONS = ['Scripted outcomes are injected by overriding SSFM.CalculateLocalError; if a tree does not call it, only the real estimate is explored.']
CHUNK = 12
FACT = {'r': 3.0, 's': 1.5, 'k': 0.7, 'g': 0.1}
LIMIT = 20000


class Scripted(S.SSFM):
    script = ''
    tail = 'g'

    def CalculateLocalError(self):
        i = self.calls = getattr(self, 'calls', 0) + 1
        if i > LIMIT:
            raise Violation('integration does not end: %d steps tried' % i)
        c = self.script[i - 1] if i <= len(self.script) else self.tail
        if i > len(self.script) and self.tail == 'a':
            c = 'gk'[i % 2]
        self.trace.append(c)
        return FACT[c] * self.local_error


def scenarios(tier):
    q = tier == 'quick'
    d = 5 if q else 7
    pre = [''.join(x) for x in itertools.product('rskg', repeat=2)]
    for dzmin in (0.0, 1.0):
        for direc in (1, -1):
            for start in ((0.04, 0.3, 5.0) if q else (0.04, 0.11, 0.3, 0.5, 5.0)):
                for x in pre:
                    yield ['script', d, dzmin, direc, start, x]
    for m in ('rk', 'ssfm'):
        for n in (1, 2, 3) if q else (1, 2, 3, 7):
            for L in (0.01, 0.3, 1.0, 2.7):
                for dz in (1e-5, 1e-3, 0.05, 0.5, 30.0):
                    yield ['real', m, n, L, dz, 25 if q else 80]
            for L in (3e-10, 1e-6, 4e4):
                for dz in (1e-3, 1.0):
                    yield ['real', m, n, L, dz * L, 4]
                yield ['real', m, n, L, 0.01, 4]


def run(sc, rec):
    if sc[0] == 'real':
        return real(sc, rec)
    kind, d, dzmin, direc, start, pre = sc
    L, gam, P = 0.7, 0.002, 1.0
    lin = S.fiber(L, [0.05], 0.0)
    cw = S.fiber(L, [0.05], gam)
    p1, g = F.pulse(8, 1.2, 1550.0)
    p2, g = F.pulse(8, 1.2, 1550.0)
    p2.set_AT(S.shape('cw', g, P))
    beta = np.array(lin.get_betas(p1))
    AW1, AT2 = np.array(p1.AW), np.array(p2.AT)
    for script in itertools.product('rskg', repeat=d - 2):
        script = pre + ''.join(script)
        for tail in ('g', 'a'):
            for which, p, f in (('lin', p1, lin), ('cw', p2, cw)):
                s = Scripted(local_error=1e-3, dz=start, disable_Raman=True, disable_self_steepening=True)
                s.script, s.tail, s.trace = script, tail, []
                s.dz_min = start * 0.2 * dzmin + 1e-12
                if direc == 1:
                    n = 1 + len(script.rstrip('g')) % 3
                    z, AW, AT, po = s.propagate(p, f, n)
                    if not s.trace:
                        rec.notes['error estimate not intercepted'] += 1
                    aw, at = np.array(po.AW), np.array(po.AT)
                else:
                    if not all(hasattr(s, a) for a in ('setup_fftw', 'load_fiber_parameters', 'integrate_over_dz', 'A')):
                        rec.notes['no direct access to the integrator'] += 1
                        continue
                    s.setup_fftw(p, f, None)
                    s.load_fiber_parameters(p, f, None)
                    s.integrate_over_dz(L, -1)
                    at = np.array(s.A)
                    if S.global_variables.PRE_FFTSHIFT:
                        at = np.fft.ifftshift(at)
                    p3 = p.create_cloned_pulse()
                    p3.set_AT(at)
                    aw = np.array(p3.AW)
                w = 'steps %s' % ''.join(s.trace[:30])
                if which == 'lin':
                    same(w + ': dispersion over the length', aw, AW1 * np.exp(1j * beta * L * direc), rtol=1e-9)
                else:
                    same(w + ': nonlinear phase over the length', at, AT2 * np.exp(1j * gam * P * L * direc), rtol=1e-10)
                rec.outcome(''.join(s.trace), direc)
                rec.step(len(s.trace))
            rec.trace()


def real(sc, rec):
    _, m, n, L, dz, count = sc
    gam, P = 3.0 if 1e-3 < L < 1e3 else 3.0 / L, 1.0
    p, g = F.pulse(16, 6.0, 1550.0)
    p.set_AT(S.shape('cw', g, P))
    AT = np.array(p.AT)
    for le in np.logspace(-9, -3, count):
        for sw in (0, 1):
            f = S.fiber(L, [0.01], gam)
            s = S.sim(m, dz=dz, local_error=float(le), disable_Raman=bool(sw), disable_self_steepening=True)
            po = s.propagate(p, f, n)[3]
            # the local error adds up over the steps; a few hundred at most
            same('CW phase, tolerance %.3g' % le, po.AT, AT * np.exp(1j * gam * P * L), rtol=30 * le + 1e-9)
            rec.state(po, s)
            rec.step()
