"""C21: dense output is complete, ordered and on the requested grid."""
import itertools

import numpy as np
from pynlo.util.ode_solve.steppers import ODEint, Output, StepperBase
from pynlo.util.ode_solve.dopr853 import StepperDopr853

from mc.core import Violation, same, true, raises, Machine

LEVEL = 'model_checking'
BOUNDS = ('every sequence of up to 4 (thorough: 5) step outcomes (full or partial step taken x next step shrunk/kept/grown) played to the real driver by a scripted stepper, '
          'x 8 integration ranges (and every sequence of 4 outcomes with steps 1e-7 and 1e-11 short of full) x 3 first steps x 6 output counts (up to 9000) x 3 value types; the real stepper on the same ranges and counts; recorder reuse sequences of <=3 integrations')
CHUNK = 6
RANGES = [(0.0, 1.0), (1.0, 0.0), (-1.0, 2.0), (3.0, 3.000001), (2.0, -1.5), (0.0, 1e6), (-0.3, 0.0), (0.0, 2e-9), (3e-7, -1e-8), (1.0, 1.0 + 1e-10)]
LETTERS = [(1.0, 1.0), (1.0, 0.3), (1.0, 4.0), (0.4, 0.4), (0.4, 1.0), (0.7, 3.0)]


NEARLY = [(1.0, 1.0), (1 - 1e-7, 1.0), (1 - 1e-11, 4.0), (0.4, 0.4)]     # steps that end just short


def phi(x, dtype):
    x = np.asarray(x, float)
    y = np.stack([x, 3.0 - 2 * x * x], -1)
    return (y + 1j * np.stack([x * x, -x], -1)).astype(dtype) if np.dtype(dtype).kind == 'c' else y.astype(dtype)


class RHS:
    def deriv(self, x, y, dydx):
        dydx[:] = 0


def stepper(script, log):
    class Scripted(StepperBase):
        i = 0

        def step(self, htry, rhs):
            did, nxt = script[self.i] if self.i < len(script) else (1.0, 4.0)
            self.i += 1
            if self.i > 5000:
                raise Violation('the integration does not end')
            self.xold = self.x
            self.hdid = htry if did == 1.0 else htry * did
            self.hnext = htry * nxt
            self.x = self.x + self.hdid
            self.y = phi(self.x, self.dtype)
            log.append(self.x)

        def dense_out(self, x, h):
            s = (x - self.xold) / h
            if not -1e-9 <= s <= 1 + 1e-9:
                raise Violation('value at %r taken from the step %r .. %r' % (x, self.xold, self.x))
            return phi(self.xold + s * self.hdid, self.dtype)
    return Scripted


def check_dense(what, out, x1, x2, n, dtype, f=None, tol=1e-9):
    c = out.count
    R = x2 - x1
    xs = np.real(np.asarray(out.xsave[:c]))
    true(what + ': number of records %d for %d requested' % (c, n), c in (n + 1, n + 2))
    same(what + ': positions', xs[:n + 1], x1 + R * np.arange(n + 1) / n, rtol=0, atol=1e-11 * abs(R) + n * 4e-16 * max(abs(x1), abs(x2)))
    if c == n + 2:       # the end point once more, within rounding
        same(what + ': end', xs[-1], x2, rtol=0, atol=1e-12 * max(abs(R), abs(x2)))
        same(what + ': end', xs[-2], x2, rtol=0, atol=1e-10 * max(abs(R), abs(x2)))
    true(what + ': value type', out.ysave.dtype == np.dtype(dtype))
    want = (f or (lambda x: phi(x, dtype)))(xs)
    same(what + ': values', out.ysave[:c], want, rtol=tol, scale=np.abs(want).max() + 1e-300)
    true(what + ': storage', len(out.xsave) >= c and len(out.ysave) >= c)


def scenarios(tier):
    q = tier == 'quick'
    for r in range(len(RANGES)):
        for n in (1, 3, 10, 'steps', None, 600):
            for first in range(len(LETTERS)):
                for dt in ('f8', 'c16') if n != 600 else ('f8',):
                    yield ['script', r, n, first, dt, 4 if q and n in (3, 'steps') else 3 if q else 5 if n in (3, 10, 'steps') else 4]
    for r in (0, 1, 2, 4, 5, 6, 7):
        for n in (1, 3, 10, 'steps'):
            for first in range(len(NEARLY)):
                yield ['script', r, n, first, 'f8', 4 if q else 6, 1]
    for r in range(len(RANGES) - 1):      # the last resolves only 1e-6 of the range
        for n in (1, 2, 3, 7, 50, 499, 500, 501, 1200, 'steps', None) + ((9000,) if r < 2 else ()):
            yield ['real', r, n]
    for dt in ('f8', 'c16', 'f4'):
        yield ['types', dt]
    for hist in itertools.product((0, 1, 2), repeat=3):
        for n in (1, 4, 700):
            yield ['reuse', list(hist), n]
    yield ['errors']


def recorder(n):
    return Output(0) if n == 'steps' else Output() if n is None else Output(n)


def run(sc, rec):
    globals()['do_' + sc[0]](sc, rec)


def do_script(sc, rec):
    r, n, first, dt, depth = sc[1:6]
    letters = NEARLY if len(sc) > 6 else LETTERS
    x1, x2 = RANGES[r]
    R = abs(x2 - x1)
    dense = n not in ('steps', None)
    for rest in itertools.product(letters, repeat=depth - 1):
        script = (letters[first],) + rest
        for h1 in (0.07 * R, 0.5 * R, 9 * R):
            log = []
            out = recorder(n)
            y0 = phi(x1, dt)
            o = ODEint(y0, x1, x2, 1e-9, 1e-9, h1, 0.0, out, stepper(script, log), RHS(), dense=dense)
            o.integrate()
            w = 'range %g..%g, h1 %g, steps %s' % (x1, x2, h1, script)
            same(w + ': end reached', log[-1], x2, rtol=0, atol=1e-15 * max(abs(x1), abs(x2)))
            true(w + ': direction %r' % log, all((b - a) * (x2 - x1) >= 0 for a, b in zip([x1] + log, log)))
            same(w + ': final state', y0, phi(x2, dt), rtol=1e-14, scale=np.abs(phi(x2, dt)).max())
            true(w + ': step counts', o.nok + o.nbad == len(log))
            if dense:
                check_dense(w, out, x1, x2, n, dt)
            elif n == 'steps':
                c = out.count
                true(w + ': %d records for %d steps' % (c, len(log)), c == len(log) + 1)
                same(w + ': positions', np.real(out.xsave[:c]), np.array([x1] + log), rtol=1e-15)
                same(w + ': values', out.ysave[:c], phi(np.array([x1] + log), dt), rtol=1e-13)
            else:
                true(w + ': nothing recorded', out.count == 0)
            rec.outcome(x1, h1, tuple(log), n)
            rec.step(len(log))
        rec.trace()


class Decay:
    def __init__(self, dtype='f8'):
        self.k = np.array([1.0, -0.5]) if np.dtype(dtype).kind == 'f' else np.array([1.0j, -0.5 + 0.3j])

    def deriv(self, x, y, dydx):
        dydx[:] = self.k * y / self.scale

    scale = 1.0


def solution(rhs, x1, y0):
    return lambda x: y0 * np.exp(np.multiply.outer(np.asarray(x) - x1, rhs.k / rhs.scale))


def do_real(sc, rec):
    _, r, n = sc
    x1, x2 = RANGES[r]
    for dt, h1, tol in itertools.product(('f8', 'c16'), (1e-3, 0.2, 40.0), (1e-5, 1e-10)):
        rhs = Decay(dt)
        rhs.scale = abs(x2 - x1) / 2.0
        y0 = np.array([1.0, 2.0], dt)
        ys = y0.copy()
        out = recorder(n)
        o = ODEint(ys, x1, x2, tol, tol, h1 * abs(x2 - x1), 0.0, out, StepperDopr853, rhs, dense=n not in ('steps', None))
        o.integrate()
        f = solution(rhs, x1, y0)
        w = 'real stepper %g..%g tol %g' % (x1, x2, tol)
        same(w + ': final state', ys, f(x2), rtol=50 * tol)
        if n == 'steps':
            c = out.count
            xs = np.real(out.xsave[:c])
            true(w + ': count', c == o.nok + o.nbad + 1)
            true(w + ': order', bool(np.all(np.diff(xs) * (x2 - x1) > 0)))
            same(w + ': start', xs[0], x1, rtol=0, atol=0)
            same(w + ': end', xs[-1], x2, rtol=0, atol=1e-15 * max(abs(x1), abs(x2)))
            same(w + ': values', out.ysave[:c], f(xs), rtol=50 * tol)
        elif n is not None:
            check_dense(w, out, x1, x2, n, dt, f, tol=max(100 * tol, 1e-9))
        rec.step(o.nok + o.nbad)
        rec.state(ys, out.count, o.nok)


def do_types(sc, rec):
    dt = np.dtype(sc[1])

    class Wrong(StepperBase):
        def step(self, htry, rhs):
            self.xold, self.hdid, self.hnext = self.x, htry, htry
            self.x += htry
            self.y = np.zeros(self.n, 'c16' if dt.kind == 'f' else 'f8')

        def dense_out(self, x, h):
            return self.y
    for n in (1, 5, 'steps'):
        o = ODEint(np.ones(2, dt), 0.0, 1.0, 1e-6, 1e-6, 0.3, 0.0, recorder(n), Wrong, RHS(), dense=n != 'steps')
        raises('a stepper of another type', TypeError, o.integrate)
        rec.step()
        # dtype argument
        for d2 in ('c16', 'f8'):
            if dt.kind == 'c' and d2 == 'f8':
                continue
            out = recorder(n)
            log = []
            o = ODEint(phi(0.0, dt), 0.0, 1.0, 1e-6, 1e-6, 0.3, 0.0, out, stepper((), log), RHS(), dense=n != 'steps', dtype=np.dtype(d2))
            o.integrate()
            true('record type', out.ysave.dtype == np.dtype(d2))
            rec.state(out.ysave, out.count)
            rec.step()


def do_reuse(sc, rec):
    _, hist, n = sc
    out = Output(n)
    for i, k in enumerate(hist):
        x1, x2 = ((0.0, 1.0), (2.0, -1.0), (5.0, 6.0))[k]
        dt = ('f8', 'c16', 'f8')[k]
        log = []
        ODEint(phi(x1, dt), x1, x2, 1e-9, 1e-9, 0.21, 0.0, out, stepper(LETTERS, log), RHS(), dense=True).integrate()
        check_dense('use %d of a recorder' % i, out, x1, x2, n, dt)
        rec.state(out.xsave, out.ysave, out.count)
        rec.step(len(log))
    outs = Output(0)
    for i, k in enumerate(hist):
        x1, x2 = ((0.0, 1.0), (2.0, -1.0), (5.0, 6.0))[k]
        log = []
        ODEint(phi(x1, 'f8'), x1, x2, 1e-9, 1e-9, 0.21, 0.0, outs, stepper(LETTERS, log), RHS(), dense=False).integrate()
        same('steps recorded in use %d' % i, outs.xsave[:outs.count], np.array([x1] + log), rtol=1e-15)
        rec.step(len(log))


def do_errors(sc, rec):
    # dense recording asked of a recorder that has none
    for o in (Output(), Output(0)):
        i = ODEint(np.ones(2), 0.0, 1.0, 1e-6, 1e-6, 0.3, 0.0, o, StepperDopr853, Decay(), dense=True)
        raises('dense output without a dense recorder', Exception, i.integrate)
        rec.step()
    # step below minimum: reported, unless the end is reached first
    for tail in range(6):
        for hmin in (0.01, 0.2):
            log = []
            script = ((1.0, 1.0),) * tail + ((1.0, 1e-3),)
            i = ODEint(phi(0.0, 'f8'), 0.0, 1.0, 1e-6, 1e-6, 0.25, hmin, Output(3), stepper(script, log), RHS())
            if tail < 3:
                raises('step below the minimum', RuntimeError, i.integrate)
            else:
                i.integrate()
                check_dense('small step at the end', i.out, 0.0, 1.0, 3, 'f8')
            rec.step(len(log))
    # too many steps
    for m in (1, 3, 10):
        log = []
        i = ODEint(phi(0.0, 'f8'), 0.0, 1.0, 1e-6, 1e-6, 0.001, 0.0, Output(3), stepper(((1.0, 1.0),) * 100, log), RHS())
        i.MAXSTP = m
        raises('too many steps', RuntimeError, i.integrate)
        rec.step(len(log))
    rec.state('errors')
