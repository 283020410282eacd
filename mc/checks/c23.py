"""C23: integrations never influence each other."""
import itertools

import numpy as np
from pynlo.util.ode_solve.steppers import ODEint, Output
from pynlo.util.ode_solve.dopr853 import StepperDopr853

from mc.baton import Baton
from mc.core import Violation, true

LEVEL = 'model_checking'
BOUNDS = ('6 problems; all interleavings of 2 steppers x up to 5 (thorough: 6) steps each (and 3 x 3); all schedules of two integrations with <=2 switches at right-hand-side evaluations '
          '(position pairs on a staggered grid of strides 4 x 17, thorough 1 x 5), nesting of one integration in the other and abort followed by re-runs at evaluation 1..26 and up to 60 more (thorough: every evaluation); bitwise comparison with running alone')
CHUNK = 6


class Abort(Exception):
    pass


PROB = {
    'osc': (lambda x, y: np.array([y[1], -4 * y[0]]), [1.0, 0.3], 0.0, 2.0, 1e-7, 0.05, 5),
    'back': (lambda x, y: -2 * x * y, [1.0], 1.5, -0.5, 1e-9, 0.4, 3),
    'kerr': (lambda x, y: 1.5j * np.abs(y) ** 2 * y - 0.3 * y, [1 + 0j, 0.5j, 2.0], 0.0, 1.0, 1e-6, 5.0, 4),
    'sharp': (lambda x, y: np.array([40 * np.tanh(20 * (x - 0.4)) * np.exp(-y[0] ** 2)]), [0.1], 0.0, 1.0, 1e-6, 1.0, 2),
    'steps': (lambda x, y: np.array([np.cos(7 * x), y[0]]), [0.0, 1.0], 0.0, 1.0, 1e-8, 0.01, 'steps'),
    'wide': (lambda x, y: np.arange(1, 7) * 1j * y, [1.0 + 0j] * 6, 0.0, 1.0, 1e-5, 0.3, 2),
}


class R:
    def __init__(self, f, hook=None):
        self.f, self.hook, self.calls = f, hook, 0

    def deriv(self, x, y, dydx):
        self.calls += 1
        if self.hook:
            self.hook(self.calls)
        dydx[:] = self.f(x, y)


def make(name, hook=None):
    f, y0, a, b, tol, h1, n = PROB[name]
    ys = np.array(y0)
    r = R(f, hook)
    o = ODEint(ys, a, b, tol, tol, h1, 0.0, Output(n if n != 'steps' else 0), StepperDopr853, r, dense=n != 'steps')
    return o, ys, r


def result(o, ys):
    return (o.out.count, np.array(o.out.xsave[:o.out.count]), np.array(o.out.ysave[:o.out.count]), ys.copy(), o.nok, o.nbad)


def equal(what, a, b):
    true(what, all(np.array_equal(x, y) for x, y in zip(a, b)))


ALONE = {}


def alone(name):
    if name not in ALONE:
        o, ys, r = make(name)
        o.integrate()
        ALONE[name] = result(o, ys), r.calls
    return ALONE[name]


def scenarios(tier):
    q = tier == 'quick'
    names = list(PROB)
    pairs = list(itertools.product(names, repeat=2))
    for a, b in pairs:
        for first in (0, 1):
            yield ['steps', a, b, 5 if q else 6, first]
        yield ['nest', a, b, 60 if q else 10**6]
        yield ['abort', a, b, 30 if q else 10**6]
    for t in itertools.combinations(names, 3):
        yield ['steps3', list(t), 2 if q else 3]
    # the first stretch is enumerated here, the second inside
    for a, b in pairs if not q else [(a, b) for a, b in pairs if names.index(a) <= names.index(b)]:
        na = alone(a)[1]
        for i in range(1, na + 1, 4 if q else 1):
            yield ['switch', a, b, i, 17 if q else 5]
    for h in itertools.product(names, repeat=2 if q else 3):
        yield ['seq', list(h)]


def run(sc, rec):
    globals()['do_' + sc[0]](sc, rec)


def stepper(name):
    o, ys, r = make(name)
    r.deriv(o.x1, o.y, o.dydx)
    return [o.s, r, o.h, []]


def one(s):
    st, r, h, log = s
    st.step(h, r)
    s[2] = st.hnext
    d = st.dense_out(st.xold + 0.37 * st.hdid, st.hdid)
    log.append((st.x, np.array(st.y), st.hdid, st.hnext, np.array(d)))


def same_log(what, a, b):
    for x, y in zip(a, b):
        true(what, all(np.array_equal(p, q) for p, q in zip(x, y)))


def do_steps(sc, rec):
    _, a, b, k, first = sc
    ref = {}
    for n in (a, b):
        s = stepper(n)
        for _ in range(k):
            one(s)
        ref[n] = s[3]
    for pos in itertools.combinations(range(2 * k), k):
        if (0 in pos) != (first == 0):
            continue
        s = [stepper(a), stepper(b)]
        for i in range(2 * k):
            one(s[0] if i in pos else s[1])
        same_log('%s interleaved with %s' % (a, b), s[0][3], ref[a])
        same_log('%s interleaved with %s' % (b, a), s[1][3], ref[b])
        rec.trace()
        rec.step(2 * k)
        rec.outcome(pos, s[0][3], s[1][3])


def do_steps3(sc, rec):
    _, names, k = sc
    ref = {}
    for n in names:
        s = stepper(n)
        for _ in range(k):
            one(s)
        ref[n] = s[3]
    for order in sorted(set(itertools.permutations([0, 1, 2] * k))) if k == 2 else orders3(k):
        s = [stepper(n) for n in names]
        for i in order:
            one(s[i])
        for j in range(3):
            same_log('%s interleaved' % names[j], s[j][3], ref[names[j]])
        rec.trace()
        rec.step(3 * k)


def orders3(k):
    def go(left):
        if not any(left):
            yield ()
        for i in range(3):
            if left[i]:
                l2 = list(left)
                l2[i] -= 1
                for r in go(l2):
                    yield (i,) + r
    return go([k] * 3)


def do_switch(sc, rec):
    _, a, b, i, stride = sc
    (wa, na), (wb, nb) = alone(a), alone(b)
    for j in range(1 + (i % stride), nb + 1, stride):
        def body(name):
            def f(point):
                o, ys, r = make(name, lambda c: point())
                o.integrate()
                return result(o, ys)
            return f
        ra, rb = Baton([body(a), body(b)], [(0, i), (1, j), (0, -1), (1, -1)]).run()
        equal('%s, interrupted at evaluation %d by %s' % (a, i, b), ra, wa)
        equal('%s, interrupted at evaluation %d, inside %s' % (b, j, a), rb, wb)
        rec.trace()
        rec.step(na + nb)
        rec.state(a, b, i, j)


def do_nest(sc, rec):
    _, a, b, most = sc
    (wa, na), (wb, nb) = alone(a), alone(b)
    for i in sorted(set(range(1, 27)) | set(range(1, na + 1, 1 + na // most))):
        inner = []

        def hook(c):
            if c == i:
                o, ys, r = make(b)
                o.integrate()
                inner.append(result(o, ys))
        o, ys, r = make(a, hook)
        o.integrate()
        equal('%s with %s nested in evaluation %d' % (a, b, i), result(o, ys), wa)
        equal('%s nested in %s' % (b, a), inner[0], wb)
        rec.trace()
        rec.step(na + nb)


def do_abort(sc, rec):
    _, a, b, most = sc
    (wa, na), (wb, nb) = alone(a), alone(b)
    for i in sorted(set(range(1, 27)) | set(range(1, na + 1, 1 + na // most))):
        def hook(c):
            if c == i:
                raise Abort()
        o, ys, r = make(a, hook)
        try:
            o.integrate()
            raise Violation('an exception of the right-hand side is swallowed')
        except Abort:
            pass
        for n, w in ((b, wb), (a, wa)):
            o2, y2, r2 = make(n)
            o2.integrate()
            equal('%s after %s was aborted at evaluation %d' % (n, a, i), result(o2, y2), w)
        rec.trace()
        rec.step(na + nb)
    # made before, run after
    o2, y2, r2 = make(b)
    o, ys, r = make(a)
    o.integrate()
    first = result(o, ys)
    o2.integrate()
    equal('%s made before %s ran' % (b, a), result(o2, y2), wb)
    equal('%s is still what it was' % a, result(o, ys), first)


def do_seq(sc, rec):
    kept = []
    for n in sc[1] + sc[1][::-1]:
        o, ys, r = make(n)
        o.integrate()
        kept.append((n, o, ys))
        for m, p, y in kept:
            equal('%s after others' % m, result(p, y), alone(m)[0])
        rec.step(r.calls)
