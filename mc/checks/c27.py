"""C27: saved mixing runs are read back exactly, in order, and survive a crash."""
import itertools
import os
import pickle
import shutil
import signal
import tempfile

import numpy as np
from pynlo.interactions.ThreeWaveMixing.multi_run_rw import DFGReader, DFGWriter

from mc import dfg as D
from mc.core import Violation, exact, raises, same, true

LEVEL = 'model_checking'
BOUNDS = ('all histories of <=5 (thorough 6; 6 and 7 without death inside add_run) operations out of opening either of two parameter names, adding one of two runs, closing, killing the process, and dying inside add_run at each of 5 points, every process run for real and killed with _exit, '
          'then everything read back; all sequences of <=3 (thorough 4) reader calls on two readers of one file; runs of 6 shapes x 4 repetition rates; 112 runs in one file, runs of up to 300 positions')
CHUNK = 24
DIR = None
NAME = {'A': 'power', 'B': 'power_mW'}      # one begins like the other


def setup():
    global DIR
    DIR = tempfile.mkdtemp(prefix='verif-c27-')


def teardown():
    shutil.rmtree(DIR, ignore_errors=True)


class Out:
    pass


class Wave:
    """Stand-in for a pulse of the problem; may end the process when asked."""
    def __init__(self, T, wl, frep, bomb=None):
        self._d = {'time_window_ps': T, 'center_wavelength_nm': wl, 'frep_mks': frep * 1e6, 'frep_MHz': frep, 'NPTS': None}
        self.bomb = bomb

    def __getattr__(self, n):
        if n.startswith('__') or n not in self.__dict__.get('_d', {}):
            raise AttributeError(n)
        if self.bomb:
            self.bomb()
        return self._d[n]


def run_data(k):
    """One finished run: (N, rows, fields, windows, centers, frep, param)."""
    N = (4, 8, 2, 6, 16, 4)[k % 6]
    rows = (2, 3, 1, 4, 2, 7)[k % 6] if k < 12 else (130, 300)[k % 2]
    j = np.arange(3 * N)
    y = np.array([np.exp(1j * (r + 1 + k) * j * 0.7) * (1 + r + j % 7) / (1 + k) * 10.0 ** (-((j * 5) % 23) if k % 3 == 1 else 0) for r in range(rows + 2)])
    wl = (1064.0 + k, 1550.0 - 3 * k)
    return {'N': N, 'rows': rows, 'y': y, 'T': 1.5 + 0.25 * k, 'Ts': [(1.5 + 0.25 * k) * (1 + 0.1 * j * (k % 2)) for j in range(3)], 'wl': wl + (1 / (1 / wl[0] - 1 / wl[1]),), 'frep': (100.0, 250.0, 1.0, 0.3712345678)[k % 4], 'param': 0.1 + 1.7 * k}


def objects(k, bomb=None):
    r = run_data(k)
    q, o = Out(), Out()
    q.pump, q.sgnl, q.idlr = [Wave(T, w, r['frep'], bomb) for w, T in zip(r['wl'], r['Ts'])]
    o.nvar = 3 * r['N']
    o.out = Out()
    o.out.count = r['rows']
    o.out.ysave = r['y']
    o.out.xsave = np.arange(len(r['y'])) * 1.0
    return q, o, r['param']


def add(w, k, bomb=None):
    q, o, p = objects(k, bomb)
    y0 = o.out.ysave.copy()
    w.add_run(q, o, p)
    exact('fields of the solver', o.out.ysave, y0)


class Bomb:
    def __init__(self, n):
        self.n = n

    def __call__(self):
        self.n -= 1
        if self.n <= 0:
            os._exit(17)


def check_run(what, got, k, row):
    r = run_data(k)
    true(what + ': three pulses', len(got) == 3)
    for j, pu in enumerate(got):
        w = what + ', ' + ('pump', 'signal', 'idler')[j]
        exact(w + ': points', int(pu.NPTS), r['N'])
        exact(w + ': field', np.asarray(pu.AW), r['y'][row, j * r['N']:(j + 1) * r['N']])
        same(w + ': window', pu.time_window_ps, r['Ts'][j], rtol=1e-12)
        same(w + ': center', pu.center_wavelength_nm, r['wl'][j], rtol=1e-12)
        same(w + ': repetition rate', pu.frep_MHz, r['frep'], rtol=1e-12)


def check_file(what, path, want):
    """want: name -> list of run kinds, complete."""
    for name, ks in want.items():
        if not ks:
            continue
        rd = DFGReader(path, NAME.get(name, name))
        try:
            w = '%s: %s' % (what, name)
            exact(w + ': number of runs', rd.run_ctr, len(ks))
            for i, k in enumerate(ks):
                r = run_data(k)
                same(w + ': parameter of run %d' % i, rd.get_run_param(i), r['param'], rtol=1e-14)
                for z in range(r['rows']):
                    check_run('%s run %d position %d' % (w, i, z), rd.get_run(i, z), k, z)
                check_run('%s run %d, last position' % (w, i), rd.get_run(i), k, r['rows'] - 1)
            check_run(w + ': last run', rd.get_run(), ks[-1], run_data(ks[-1])['rows'] - 1)
            same(w + ': last parameter', rd.get_run_param(), run_data(ks[-1])['param'], rtol=1e-14)
            for i, k in enumerate(ks):
                check_run('%s: run %d in sequence' % (w, i), rd.get_next_run(), k, run_data(k)['rows'] - 1)
            true(w + ': nothing after the last run', rd.get_next_run() is None)
            for bad in (-1, len(ks), len(ks) + 5):
                raises('%s: run %d' % (w, bad), IndexError, rd.get_run, bad)
                raises('%s: parameter %d' % (w, bad), IndexError, rd.get_run_param, bad)
        finally:
            rd.tables_file.close()


OPS = ['A', 'B', '0', '1', 'close', 'kill'] + ['die%d' % j for j in (1, 3, 4, 6, 7)]


def legal(h):
    """Histories in which each operation is possible (a process that died
    before anything was ever saved leaves no usable file behind)."""
    open_ = saved = False
    lost = False
    for o in h:
        if lost:
            return False
        saved = saved or o in ('0', '1', 'close')
        lost = not saved and (o == 'kill' or o.startswith('die'))
        if o in 'AB':
            if open_:
                return False
            open_ = True
        else:
            if not open_:
                return False
            if o in ('close', 'kill') or o.startswith('die'):
                open_ = False
    return True


def histories(n, ops):
    def rec(h):
        if h:
            yield h
        if len(h) < n:
            for o in ops:
                if legal(h + [o]):
                    yield from rec(h + [o])
    return rec([])


def scenarios(tier):
    q = tier == 'quick'
    for h in histories(5 if q else 6, OPS):
        yield ['history', h]
    for h in histories(6 if q else 7, OPS[:6]):
        if len(h) >= (6 if q else 7):
            yield ['history', h]
    for first in itertools.product(range(len(CALLS)), repeat=2):
        yield ['reader', list(first), 3 if q else 4]
    for ks in itertools.product(range(4), repeat=3):
        yield ['kinds', list(ks)]
    yield ['kinds', [12, 0]]
    yield ['kinds', [13]]
    yield ['many']
    for kind in ('int', 'float32', 'negative', 'huge'):
        yield ['param', kind]
    yield ['real']


def run(sc, rec):
    d = tempfile.mkdtemp(dir=DIR)
    try:
        globals()['do_' + sc[0]](sc, rec, os.path.join(d, 'runs.h5'))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def child(fn):
    """fn() in a process of its own; returns its exit code."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            fn()
            os._exit(0)
        except BaseException as e:      # noqa
            try:
                os.write(w, pickle.dumps('%s: %s' % (type(e).__name__, e))[:4000])
            finally:
                os._exit(99)
    os.close(w)
    msg = b''
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        msg += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        raise Violation('the process was ended by signal %d' % os.WTERMSIG(st))
    code = os.WEXITSTATUS(st)
    if code == 99:
        raise Violation('in the writing process: ' + pickle.loads(msg))
    return code


def do_history(sc, rec, path):
    h = sc[1]
    # split into processes
    procs, cur = [], []
    for o in h:
        cur.append(o)
        if o == 'kill' or o.startswith('die'):
            procs.append(cur)
            cur = []
    if cur:
        procs.append(cur)
    want = {'A': None, 'B': None}       # None: unknown
    sure = {'A': [], 'B': []}
    name = None
    for ops in procs:
        def go(ops=ops):
            w = None
            for o in ops:
                if o in 'AB':
                    w = DFGWriter(path, NAME[o])
                elif o in '01':
                    add(w, int(o))
                elif o == 'close':
                    w.tables_file.close()
                    w = None
                elif o == 'kill':
                    os._exit(17)
                else:
                    add(w, 2, Bomb(int(o[3:])))
                    raise Violation('the process should have died')
            if w is not None:
                w.tables_file.close()
        code = child(go)
        died = ops[-1] == 'kill' or ops[-1].startswith('die')
        true('exit code %d' % code, code == (17 if died else 0))
        for o in ops:
            if o in 'AB':
                name = o
                sure[name] = []
                pending = True
            elif o in '01':
                sure[name] = sure[name] + [int(o)]
                pending = False
        rec.step(len(ops))
    last = h[-1]
    # what was added and flushed must be there; a file or name without any run
    # added yet need not exist, and a run during which the process died may be
    # missing or unreadable
    partial = None
    open_name, partial_names = None, set()
    fresh = {'A': 0, 'B': 0}
    for o in h:
        if o in 'AB':
            open_name = o
            partial_names.discard(o)
        elif o.startswith('die'):
            partial_names.add(open_name)
    for nm in 'AB':
        ks = sure[nm]
        if not ks:
            continue
        w = 'after %s' % ' '.join(h)
        if nm in partial_names:
            rd = DFGReader(path, NAME[nm])
            try:
                true(w + ': runs of %s' % nm, rd.run_ctr in (len(ks), len(ks) + 1))
                for i, k in enumerate(ks):
                    check_run('%s: %s run %d' % (w, nm, i), rd.get_run(i), k, run_data(k)['rows'] - 1)
                    check_run('%s: %s run %d' % (w, nm, i), rd.get_run(i, 0), k, 0)
                    same('%s: parameter' % w, rd.get_run_param(i), run_data(k)['param'], rtol=1e-14)
                    check_run('%s: %s run %d in sequence' % (w, nm, i), rd.get_next_run(), k, run_data(k)['rows'] - 1)
            finally:
                rd.tables_file.close()
        else:
            check_file(w, path, {nm: ks})
    rec.state(sorted((n, tuple(k)) for n, k in sure.items()), sorted(partial_names), last)
    rec.outcome(sorted((n, tuple(k)) for n, k in sure.items()))


CALLS = [('run', 0, 0), ('run', 1, 1), ('run', None, None), ('param', 0), ('param', None), ('next', None), ('next', 0), ('bad',)]


def do_reader(sc, rec, path):
    """Reader calls in any order on two readers of the same file."""
    _, first, depth = sc
    names = {'A': [0, 1, 5], 'B': [1, 4]}
    for nm, ks in names.items():
        w = DFGWriter(path, NAME.get(nm, nm))
        for k in ks:
            add(w, k)
        w.tables_file.close()
    for rest in itertools.product(range(len(CALLS)), repeat=depth - 2):
        seq = list(first) + list(rest)
        R = {nm: DFGReader(path, NAME[nm]) for nm in names}
        pos = {nm: 0 for nm in names}
        try:
            for i, c in enumerate(seq):
                for nm in ('A', 'B') if i % 2 else ('A',):
                    call(R[nm], names[nm], pos, nm, CALLS[c], str(seq))
                    rec.step()
        finally:
            for r in R.values():
                r.tables_file.close()
        rec.trace()
        rec.state(seq[-2:], sorted(pos.items()))


def call(r, ks, pos, nm, c, what):
    rows = lambda k: run_data(k)['rows']
    if c[0] == 'run':
        i = len(ks) - 1 if c[1] is None else c[1]
        z = rows(ks[i]) - 1 if c[2] is None else c[2]
        check_run(what, r.get_run(c[1], c[2]), ks[i], z)
    elif c[0] == 'param':
        i = len(ks) - 1 if c[1] is None else c[1]
        same(what, r.get_run_param(c[1]), run_data(ks[i])['param'], rtol=1e-14)
    elif c[0] == 'next':
        if pos[nm] >= len(ks):
            true(what, r.get_next_run(c[1]) is None)
        else:
            k = ks[pos[nm]]
            check_run(what, r.get_next_run(c[1]), k, rows(k) - 1 if c[1] is None else c[1])
            pos[nm] += 1
    else:
        raises(what, IndexError, r.get_run, len(ks))
        raises(what, IndexError, r.get_run_param, -1)


def do_kinds(sc, rec, path):
    ks = sc[1]
    for nm in ('x', 'xx_mW'):
        w = DFGWriter(path, NAME.get(nm, nm))
        for k in ks:
            add(w, k)
        w.tables_file.close()
    check_file('runs %s' % ks, path, {'x': ks, 'xx_mW': ks})
    w = DFGWriter(path, 'x')
    add(w, ks[0] + 1)
    w.tables_file.close()
    check_file('runs %s, replaced' % ks, path, {'x': [ks[0] + 1], 'xx_mW': ks})
    rec.state(ks)
    rec.step(3)


def do_many(sc, rec, path):
    ks = [(7 * i) % 6 for i in range(112)]
    w = DFGWriter(path, 'many')
    for i, k in enumerate(ks):
        add(w, k)
        rec.step()
    w.tables_file.close()
    check_file('112 runs', path, {'many': ks})
    rec.state('many')


def do_param(sc, rec, path):
    v = {'int': 7, 'float32': np.float32(0.5), 'negative': -1.25e-9, 'huge': 1e300}[sc[1]]
    w = DFGWriter(path, 'p')
    q, o, _ = objects(1)
    for x in (v, 0.0):
        w.add_run(q, o, x)
    w.tables_file.close()
    r = DFGReader(path, 'p')
    try:
        exact('parameter', float(r.get_run_param(0)), float(v))
        exact('parameter', float(r.get_run_param()), 0.0)
    finally:
        r.tables_file.close()
    rec.state(sc[1])
    rec.step()


def do_real(sc, rec, path):
    """A real integration saved and read back."""
    from pynlo.util.ode_solve.steppers import ODEint, Output
    from pynlo.util.ode_solve.dopr853 import StepperDopr853
    runs = []
    w = DFGWriter(path, 'power')
    for P in (1.0, 4.0):
        k = np.arange(8) - 4
        p = D.blank(8, 1.6, 1064.0, 130.0, np.exp(-(k / 1.5) ** 2) * P)
        s = D.blank(8, 1.6, 1550.0, 130.0, np.exp(-(k / 1.5) ** 2 + 1j * k))
        q = D.dfg_problem(p, s, D.Simple(1e-3), disable_SPM=True, wg_mode=True, Aeff_squm=12.0)
        o = ODEint(q.ystart, 0.0, 1e-3, 1e-8, 1e-8, 1e-5, 0.0, Output(4), StepperDopr853, q)
        o.integrate()
        w.add_run(q, o, P)
        runs.append((q, o, P))
    w.tables_file.close()
    r = DFGReader(path, 'power')
    try:
        for i, (q, o, P) in enumerate(runs):
            exact('parameter', float(r.get_run_param(i)), P)
            for z in range(o.out.count):
                for j, (pu, ref) in enumerate(zip(r.get_run(i, z), (q.pump, q.sgnl, q.idlr))):
                    exact('field', np.asarray(pu.AW), o.out.ysave[z, 8 * j:8 * j + 8])
                    same('frequencies', pu.W_mks, ref.W_mks, rtol=1e-12)
                    same('repetition rate', pu.frep_MHz, 130.0, rtol=1e-12)
                rec.step()
    finally:
        r.tables_file.close()
    rec.state('real')
