"""C25: mixing products are exact discrete convolutions and correlations."""
import copy
import itertools
import pickle

import numpy as np

from mc import dfg as D
from mc.core import Machine, exact, same, true

LEVEL = 'model_checking'
BOUNDS = ('all ordered pairs of basis vectors, each with 4 phases, for every even size 2..16 (thorough 2..64: bilinearity extends this to every input of the size), with and without pyfftw, plus all pairs from '
          '12 dense fields of magnitudes from 1e-20 to 1e9 per size up to 1024 (thorough 4096); all sequences of <=3 (thorough 4) conv/corr calls, copies and input array refills on two computers of equal or different size with arrays handed out earlier being overwritten')
CHUNK = 4
PH = (1.0, -1.0, 1j, -0.6 + 0.8j)


def sizes(tier):
    return list(range(2, 18, 2)) if tier == 'quick' else list(range(2, 66, 2))


def scenarios(tier):
    for fftw in (True, False):
        for N in sizes(tier):
            for i in range(N):
                yield ['basis', N, i, fftw]
        for N in (2, 4, 6, 8, 10, 12, 16, 20, 32, 48, 64, 100, 128, 250, 256, 1000, 1024) + (() if tier == 'quick' else (512, 2048, 4096)):
            yield ['dense', N, fftw]


def run(sc, rec):
    globals()['do_' + sc[0]](sc, rec)


def do_basis(sc, rec):
    _, N, i, fftw = sc
    with D.fftw(fftw):
        f = D.fftcomputer(N)
    a = np.zeros(N, complex)
    b = np.zeros(N, complex)
    for j in range(N):
        for pa, pb in itertools.product(PH, PH):
            a[:] = 0
            b[:] = 0
            a[i] = pa
            b[j] = pb
            a0, b0 = a.copy(), b.copy()
            w = 'N=%d, e_%d * %r with e_%d * %r' % (N, i, pa, j, pb)
            c = f.conv(a, b)
            r = f.corr(a, b)
            cw = np.zeros(N, complex)
            rw = np.zeros(N, complex)
            k = i + j - N // 2
            if 0 <= k < N:
                cw[k] = pa * pb
            k = i - j + N // 2
            if 0 <= k < N:
                rw[k] = pa * np.conj(pb)
            same(w + ': convolution', c, cw, rtol=0, atol=1e-13)
            same(w + ': correlation', r, rw, rtol=0, atol=1e-13)
            exact(w + ': first input', a, a0)
            exact(w + ': second input', b, b0)
            rec.step(2)
        rec.state(N, i, j)
    rec.outcome(N, i)


def dense(N):
    k = np.arange(N)
    x = (k - N / 2.0) / N
    return [np.ones(N, complex), (-1.0) ** k + 0j, np.exp(1j * k ** 2 / 3.0), np.exp(-30 * x ** 2) * (1 + 2j), 1e-9 * np.exp(2j * k), 1e-20 * np.exp(-30 * x ** 2 + 1j * k),
            1e9 * x + 1j, np.where(k < N // 2, 1.0, 1j), np.where(k == 0, 1e6, 1.0) + 0j, np.cos(k * 1.7) + 1j * np.sin(k * k), np.zeros(N, complex), np.exp(-100 * x ** 2 + 1j * k)]


def do_dense(sc, rec):
    _, N, fftw = sc
    with D.fftw(fftw):
        f = D.fftcomputer(N)
    V = dense(N)
    for ia, ib in itertools.product(range(len(V)), repeat=2):
        a, b = V[ia].copy(), V[ib].copy()
        s = np.abs(a).max() * np.abs(b).max() * N
        c = f.conv(a, b)
        same('N=%d: convolution of fields %d, %d' % (N, ia, ib), c, D.conv_ref(a, b), rtol=1e-13, scale=s)
        r = f.corr(a, b)
        same('N=%d: correlation of fields %d, %d' % (N, ia, ib), r, D.corr_ref(a, b), rtol=1e-13, scale=s)
        exact('first input', a, V[ia])
        exact('second input', b, V[ib])
        if ia == ib:        # one array for both inputs
            same('N=%d: convolution of field %d with itself' % (N, ia), f.conv(a, a), c, rtol=1e-13, scale=s)
            same('N=%d: correlation of field %d with itself' % (N, ia), f.corr(a, a), r, rtol=1e-13, scale=s)
            exact('the input', a, V[ia])
        rec.step(2)
        rec.state(N, c)
        rec.state(N, r)


class Calls(Machine):
    """Two computers, calls in any order, results kept and scribbled on."""
    def __init__(self, init):
        Machine.__init__(self, init)
        n1, n2, fftw = init
        self.out = []
        with D.fftw(fftw):
            self.f = [D.fftcomputer(n1), D.fftcomputer(n2)]
        self.V = [dense(n1), dense(n2)]
        self.kept = []

    def ops(self):
        return [[o, k, i, j] for o in ('conv', 'corr') for k in (0, 1) for i, j in ((2, 8), (6, 3), (7, 9))] + [['same', 0, 2], ['scribble'], ['refill'], ['copy', 'deepcopy'], ['copy', 'pickle'], ['copy', 'problem']]

    def apply(self, op):
        if op[0] == 'scribble':
            for g, w in self.kept:
                g[:] = 77.0
            self.kept = []
            return
        if op[0] == 'refill':    # same arrays, other contents
            for V in self.V:
                for i, v in enumerate(V):
                    v *= 1.5 - 0.25 * i
            return
        if op[0] == 'copy':      # the second computer is replaced by a copy of the first
            if op[1] == 'pickle':
                self.f[1] = pickle.loads(pickle.dumps(self.f[0]))
            elif op[1] == 'deepcopy':
                self.f[1] = copy.deepcopy(self.f[0])
            else:
                self.f = copy.deepcopy(self.f)
                return
            self.V[1] = [v.copy() for v in self.V[0]]
            return
        if op[0] == 'same':      # both arguments are the same array
            a = self.V[op[1]][op[2]]
            c, r = self.f[op[1]].conv(a, a), self.f[op[1]].corr(a, a)
            got = [(c, D.conv_ref(a, a)), (r, D.corr_ref(a, a))]
        else:
            o, k, i, j = op
            a, b = self.V[k][i], self.V[k][j]
            got = [(getattr(self.f[k], o)(a, b), getattr(D, o + '_ref')(a, b))]
        for g, w in got:
            same('result of %r' % (op,), g, w, rtol=1e-12, scale=max(1.0, np.abs(w).max()))
            self.kept.append((g, w))

    def probe(self):
        for g, w in self.kept:
            same('result obtained earlier', g, w, rtol=1e-12, scale=max(1.0, np.abs(w).max()))


MACHINES = {'Calls': Calls}


def machines(tier):
    for fftw in (True, False):
        for n1, n2 in ((4, 4), (8, 4)):
            yield 'Calls', [n1, n2, fftw], 3 if tier == 'quick' else 4
