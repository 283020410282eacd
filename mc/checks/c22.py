"""C22: the integrator solves initial value problems to the requested tolerance."""
import itertools
import math

import numpy as np
from pynlo.util.ode_solve.steppers import ODEint, Output
from pynlo.util.ode_solve.dopr853 import StepperDopr853

from mc.core import same, true, raises

LEVEL = 'model_checking'
BOUNDS = ('library of 19 problems with closed solutions (real/complex, scalar/vector, stiff-free, zero, constant, polynomial, nonautonomous, nonlinear) x 5 tolerances x both directions '
          'x 4 first steps x 4 output choices; 3 component problems with magnitudes over 9 decades in every order, judged per component; single steps of 5 sizes from every problem against the order of the method; polynomials up to degree 8; 1, 40 and 3000 copies of 8 problems; every problem in units of 1e-12, 1e-6 and 1e9')
CHUNK = 2


class R:
    def __init__(self, f):
        self.f = f
        self.calls = 0

    def deriv(self, x, y, dydx):
        self.calls += 1
        dydx[:] = self.f(x, y)


def vec(*f):
    return lambda x, y: np.array([g(x, y) for g in f])


# name: (rhs, solution from (x1, y1), y1, x1, x2, lipschitz-like scale)
LIB = {
    'decay': (lambda x, y: -y, lambda x, x1, y1: y1 * np.exp(-(x - x1)), [1.5], 0.0, 3.0),
    'growth': (lambda x, y: 0.9 * y, lambda x, x1, y1: y1 * np.exp(0.9 * (x - x1)), [0.3], -1.0, 1.5),
    'rotate': (lambda x, y: 2j * y, lambda x, x1, y1: y1 * np.exp(2j * (x - x1)), [1 + 0.5j], 0.0, 4.0),
    'spiral': (lambda x, y: np.array([-0.3 + 1j, 0.2 - 2j, 0.5j]) * y,
               lambda x, x1, y1: y1 * np.exp(np.array([-0.3 + 1j, 0.2 - 2j, 0.5j]) * (x - x1)), [1j, 1.0, 2 - 1j], 0.0, 2.5),
    'osc': (lambda x, y: np.array([y[1], -y[0]]),
            lambda x, x1, y1: np.array([y1[0] * math.cos(x - x1) + y1[1] * math.sin(x - x1), y1[1] * math.cos(x - x1) - y1[0] * math.sin(x - x1)]),
            [1.0, 0.3], 0.0, 6.0),
    'zero': (lambda x, y: 0 * y, lambda x, x1, y1: y1, [1.0, -2.0, 0.0], 0.0, 5.0),
    'zeroc': (lambda x, y: 0 * y, lambda x, x1, y1: y1, [0j, 1j], 1.0, -2.0),
    'const': (lambda x, y: 0 * y + np.array([2.0, -3.0]), lambda x, x1, y1: y1 + (x - x1) * np.array([2.0, -3.0]), [0.0, 1.0], 0.0, 2.0),
    'constc': (lambda x, y: 0 * y + 1j, lambda x, x1, y1: y1 + 1j * (x - x1), [0j], -2.0, 2.0),
    'cos': (lambda x, y: np.array([math.cos(x)]), lambda x, x1, y1: y1 + math.sin(x) - math.sin(x1), [0.5], 0.0, 5.0),
    'gauss': (lambda x, y: -2 * x * y, lambda x, x1, y1: y1 * math.exp(x1 * x1 - x * x), [1.0], -1.0, 2.0),
    'logistic': (lambda x, y: y * (1 - y), lambda x, x1, y1: 1 / (1 + (1 / y1 - 1) * math.exp(-(x - x1))), [0.2], 0.0, 4.0),
    'riccati': (lambda x, y: 1 + y * y, lambda x, x1, y1: np.tan(np.arctan(y1) + x - x1), [0.0], 0.0, 1.2),
    'bernoulli': (lambda x, y: (-6.0 * y + 3 * x * np.power(y, 4. / 3.)) / x,
                  lambda x, x1, y1: np.power(x + x * x * ((np.power(y1, -1 / 3.) - x1) / x1 ** 2), -3.0), [2.0], 1.0, 4.0),
    'kerr': (lambda x, y: 1.5j * np.abs(y) ** 2 * y, lambda x, x1, y1: y1 * np.exp(1.5j * np.abs(y1) ** 2 * (x - x1)), [1 + 0j, 0.5j], 0.0, 3.0),
    'chirp': (lambda x, y: 2j * x * y, lambda x, x1, y1: y1 * np.exp(1j * (x * x - x1 * x1)), [1 + 0j], -1.5, 2.0),
    'power': (lambda x, y: 3 * y / x, lambda x, x1, y1: y1 * (x / x1) ** 3, [1.0], 1.0, 3.0),
    'coupled': (lambda x, y: np.array([-y[1] * (1 + math.cos(x)), y[0] * (1 + math.cos(x))]),
                lambda x, x1, y1: (lambda t: np.array([y1[0] * math.cos(t) - y1[1] * math.sin(t), y1[1] * math.cos(t) + y1[0] * math.sin(t)]))(
                    x + math.sin(x) - x1 - math.sin(x1)), [0.7, 0.1], 0.0, 3.0),
    'quad': (lambda x, y: y * y, lambda x, x1, y1: y1 / (1 - y1 * (x - x1)), [1.0], 0.0, 0.8),
}


def scenarios(tier):
    q = tier == 'quick'
    for name in LIB:
        for back in (0, 1):
            for n in (1, 7, 60, 'steps'):
                for h1 in ((1e-3, 0.1, 7.0) if q else (1e-6, 1e-3, 0.03, 0.1, 1.0, 7.0)):
                    yield ['tol', name, back, n, h1, [1e-3, 1e-5, 1e-7, 1e-9, 1e-11, 1e-13]]
        yield ['order', name]
    for d in range(9):
        for back in (0, 1):
            yield ['poly', d, back]
    for rates in RATES:
        for back in (0, 1):
            for n in (1, 9, 'steps'):
                yield ['scales', rates, back, n]
    for name in WIDE:
        for back in (0, 1):
            for h1 in (1e-3, 0.3):
                yield ['wide', name, back, h1]
    for name in LIB:
        for back in (0, 1):
            for tau in (1e-12, 1e-6, 1e9):
                yield ['time', name, back, tau]
    yield ['silent']
    yield ['fail']


def run(sc, rec):
    globals()['do_' + sc[0]](sc, rec)


def do_time(sc, rec):
    """The same problem in other units of the independent variable."""
    _, name, back, tau = sc
    f, sol, y1, a, b = exact(name, back)
    y1 = np.array(y1)
    for tol in (1e-3, 1e-7, 1e-11):
        for n in (5, 'steps'):
            res = []
            for t in (1.0, tau):
                ys = y1.copy()
                out = Output(n if n != 'steps' else 0)
                o = ODEint(ys, a * t, b * t, tol, tol, 0.1 * t, 0.0, out, StepperDopr853, R(lambda x, y: f(x / t, y) / t), dense=n != 'steps')
                o.integrate()
                res.append((ys, np.real(out.xsave[:out.count]) / t, out.ysave[:out.count].copy()))
                rec.step(o.nok + o.nbad)
            w = '%s in units of %g, tolerance %g' % (name, tau, tol)
            true(w + ': %d and %d records' % (len(res[0][1]), len(res[1][1])), n == 'steps' or abs(len(res[0][1]) - len(res[1][1])) <= 1)
            s = np.abs(res[0][0]).max() + 1e-3
            same(w + ': final state', res[1][0], res[0][0], rtol=0, atol=(100 * tol + 1e-12) * s)
            for x, y in zip(*res[1][1:]):
                same(w + ': at %g' % x, y, sol(float(x), a, y1), rtol=0, atol=(20000 * tol + 1e-10) * max(s, np.abs(sol(float(x), a, y1)).max()))
            rec.state(name, back, tau, tol, n)


def do_silent(sc, rec):
    """Components which are and stay zero or imaginary, without an absolute tolerance to speak of."""
    for y1, lam in (([1j, 2j], [-1.0, 0.5]), ([1j, 1.0], [0.0, 1.0]), ([0.5j, -3.0 + 0j], [-2.0, 1.0j])):
        for atol in (1e-300, 1e-30):
            ys = np.array(y1, complex)
            o = ODEint(ys, 0.0, 2.0, atol, 1e-8, 0.1, 0.0, Output(4), StepperDopr853, R(lambda x, y: np.array(lam) * y))
            o.integrate()
            same('end', ys, np.array(y1) * np.exp(2 * np.array(lam)), rtol=1e-6)
            true('%d steps' % (o.nok + o.nbad), o.nok + o.nbad < 100)
            rec.state(ys, atol)
            rec.step(o.nok)


WIDE = ('decay', 'growth', 'rotate', 'gauss', 'logistic', 'kerr', 'chirp', 'power')


def do_wide(sc, rec):
    """Many copies of one problem are solved as well as one."""
    _, name, back, h1 = sc
    f, sol, y1, a, b = exact(name, back)
    y1 = np.array(y1)
    for tol in (1e-2, 1e-4, 1e-6, 1e-9):
        err = []
        for n in (1, 40, 3000):
            ys = np.tile(y1, n)
            o = ODEint(ys, a, b, tol, tol, h1, 0.0, Output(0), StepperDopr853, R(f), dense=False)
            o.integrate()
            err.append(float(np.max(np.abs(ys - np.tile(sol(b, a, y1), n)))))
            rec.state(name, back, h1, tol, n)
            rec.step(o.nok + o.nbad)
        true('%s, tolerance %g: errors %r for 1, 40, 3000 copies' % (name, tol, err),
             max(err[1:]) <= 5 * err[0] + 1e-2 * tol * np.abs(sol(b, a, y1)).max() + 1e-13)


def exact(name, back):
    f, sol, y1, a, b = LIB[name]
    y1 = np.array(y1)
    if back:
        return f, sol, sol(b, a, y1), b, a
    return f, sol, y1, a, b


WORST = [0.0]


def do_tol(sc, rec):
    _, name, back, n, h1, tols = sc
    f, sol, y1, a, b = exact(name, back)
    y1 = np.array(y1)
    # how much the problem itself amplifies errors
    eps = 1e-6
    pts = [float(x) for x in np.linspace(a, b, 9)]
    cond = max(float(np.max(np.abs(sol(e, x, sol(x, a, y1) * (1 + eps) + eps) - sol(e, a, y1)))) / eps
               for i, x in enumerate(pts) for e in pts[i:])
    if name == 'bernoulli' and h1 >= 1.0:
        tols = [t for t in tols if t < 1e-6]     # far outside the asymptotic range of the error estimate
    for tol in tols:
        for atol, rtol in ((tol, tol), (tol, 0.0)) if n == 7 else ((tol, tol),):
            ys = y1.copy()
            out = Output(n if n != 'steps' else 0)
            r = R(f)
            o = ODEint(ys, a, b, atol, rtol, h1 * (1 if h1 != 7.0 else abs(b - a)), 0.0, out, StepperDopr853, r, dense=n != 'steps')
            o.integrate()
            steps = o.nok + o.nbad
            bound = 30 * tol * max(cond, 1.0) + 5e-14 * max(cond, 1.0) * (1 + np.abs(y1).max())
            w = '%s, tolerance %g' % (name, tol)
            same(w + ': final state', ys, sol(b, a, y1), rtol=0, atol=bound)
            c = out.count
            xs = np.real(out.xsave[:c])
            same(w + ': start', xs[0], a, rtol=0, atol=0)
            same(w + ': end', xs[-1], b, rtol=0, atol=6e-14 * max(abs(a), abs(b)))
            for x, y in zip(xs, out.ysave[:c]):
                same(w + ': at %g' % x, y, sol(float(x), a, y1), rtol=0, atol=bound if n == 'steps' else 20 * bound)
            rec.state(ys, o.nok, o.nbad)
            rec.step(steps)
            # an eighth order method does not crawl
            limit = 60 + 60 * (1e-3 / tol) ** (1 / 7.0) * abs(b - a)
            true(w + ': %d steps' % steps, steps < limit)


RATES = ['slow-fast', 'oscillating', 'growing']
FORMS = {'slow-fast': np.array([-0.05, -3.0, -1.0]), 'oscillating': np.array([0.1j, 4j, -2j]), 'growing': np.array([0.02, 1.5, -1.5])}


def do_scales(sc, rec):
    """A relative tolerance holds for each component, next to components of any other size."""
    _, rates, back, n = sc
    lam0 = FORMS[rates]
    a, b = (2.0, 0.0) if back else (0.0, 2.0)
    for mags in itertools.permutations((1e6, 1.0, 1e-3)):
        for perm in itertools.permutations(range(3)):
            lam = lam0[list(perm)]
            y1 = np.array(mags) * (1 if np.isrealobj(lam) else np.array([1, 1j, 0.6 - 0.8j]))
            for rtol in (1e-6, 1e-9):
                ys = y1.copy()
                out = Output(n if n != 'steps' else 0)
                o = ODEint(ys, a, b, 1e-16, rtol, 0.05, 0.0, out, StepperDopr853, R(lambda x, y: lam * y), dense=n != 'steps')
                o.integrate()
                for i in range(out.count):
                    x = float(np.real(out.xsave[i]))
                    w = y1 * np.exp(lam * (x - a))
                    d = np.abs(out.ysave[i] - w) / np.abs(w)
                    WORST[0] = max(WORST[0], d.max() / rtol)
                    true('%s %s %s, rtol %g: relative deviations %s at %g' % (rates, perm, mags, rtol, d, x),
                         bool(np.all(d <= (300 if n != 9 else 1000) * rtol)))
                same('end', ys, y1 * np.exp(lam * (b - a)), rtol=300 * rtol)
                rec.state(ys, o.nok, o.nbad)
                rec.step(o.nok + o.nbad)
                limit = 60 + 60 * (1e-3 / rtol) ** (1 / 7.0) * abs(b - a)
                true('%d steps' % (o.nok + o.nbad), o.nok + o.nbad < limit)


def do_order(sc, rec):
    name = sc[1]
    f, sol, y1, a, b = exact(name, 0)
    prev = {}
    for h in (0.2, 0.1, 0.05, 0.025, -0.05):
        ys = np.array(y1).copy()
        h = h if abs(h) < abs(b - a) else abs(b - a) / 2
        out = Output(8)
        o = ODEint(ys, a, a + h, 1e6, 1e6, 1.0, 0.0, out, StepperDopr853, R(f))
        o.integrate()
        true('one step', o.nok + o.nbad <= 2)
        e8 = np.max(np.abs(ys - sol(a + h, a, y1)))
        e7 = max(np.max(np.abs(out.ysave[i] - sol(float(np.real(out.xsave[i])), a, y1))) for i in range(out.count))
        s = 1 + np.abs(y1).max()
        # order 8: error ~ (L h)^9 with L a few for all problems here
        true('%s, one step of %g: error %.3g' % (name, h, e8), e8 <= s * (K8.get(name, 4.0) * abs(h)) ** 9 * 1e-4 + 4e-16 * s * 4)
        true('%s, inside a step of %g: error %.3g' % (name, h, e7), e7 <= s * (K8.get(name, 4.0) * abs(h)) ** 8 * 1e-4 + 4e-16 * s * 4)
        rec.state(ys, e8)
        rec.step()


K8 = {'quad': 7.0, 'bernoulli': 9.0, 'riccati': 7.0, 'gauss': 8.0, 'chirp': 8.0, 'kerr': 7.0, 'growth': 3.0}


def do_poly(sc, rec):
    _, d, back = sc
    for lo, hi in ((-1.0, 1.0), (0.0, 2.0), (1.0, 1.5)):
        a, b = (hi, lo) if back else (lo, hi)
        for dt in ('f8', 'c16'):
            c = 1.0 + (2j if dt == 'c16' else 0)
            for n, h1 in itertools.product((1, 9), (5.0, 0.3)):
                ys = np.array([c * a ** d, 0.0], dt)
                out = Output(n)
                # degree d solution: right-hand side of degree d-1
                r = R(lambda x, y: np.array([c * d * x ** (d - 1) if d else 0.0 * c, 0.0], dt))
                o = ODEint(ys, a, b, 1e6, 1e6, h1, 0.0, out, StepperDopr853, r)
                o.integrate()
                same('degree %d' % d, ys, np.array([c * b ** d, 0]), rtol=0, atol=2e-14 * 2 ** d)
                if d <= 7:
                    for i in range(out.count):
                        x = float(np.real(out.xsave[i]))
                        same('degree %d, between steps' % d, out.ysave[i], np.array([c * x ** d, 0]), rtol=0, atol=2e-14 * 2 ** d)
                rec.state(ys)
                rec.step(o.nok + o.nbad)


def do_fail(sc, rec):
    f = lambda x, y: y * y            # singular at 1
    for h1, tol, n in itertools.product((0.01, 0.3), (1e-4, 1e-9), (1, 5, 'steps')):
        with np.errstate(all='ignore'):
            o = ODEint(np.array([1.0]), 0.0, 2.0, tol, tol, h1, 0.0, Output(n if n != 'steps' else 0), StepperDopr853, R(f), dense=n != 'steps')
            o.MAXSTP = 2000
            raises('integration across a singularity', Exception, o.integrate)
        rec.step()
    for name in ('osc', 'rotate', 'gauss'):
        f, sol, y1, a, b = exact(name, 0)
        for hmin in (1.0, 5.0):
            o = ODEint(np.array(y1), a, b, 1e-12, 1e-12, 0.1, hmin, Output(3), StepperDopr853, R(f))
            raises('step below the minimum', RuntimeError, o.integrate)
            rec.step()
        o = ODEint(np.array(y1), a, b, 1e-12, 1e-12, 1e-3, 0.0, Output(3), StepperDopr853, R(f))
        o.MAXSTP = 3
        raises('too many steps', RuntimeError, o.integrate)
        o = ODEint(np.array(y1), a, b, 1e-9, 1e-9, 0.1, 0.0, Output(3), StepperDopr853, R(lambda x, y: y * np.nan))
        with np.errstate(all='ignore'):
            o.MAXSTP = 50
            raises('undefined right-hand side', Exception, o.integrate)
    rec.state('fail')
