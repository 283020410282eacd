"""C10: fibers, loaders and the database are isolated from each other."""
import json
import os
import shutil
import tempfile

import numpy as np
from pynlo.media.fibers.fiber import FiberInstance
from pynlo.media.fibers.JSONFiberLoader import JSONFiberLoader

from mc import fibers as F
from mc.core import Machine, Violation, same, true
from mc.ref import Grid

LEVEL = 'model_checking'
BOUNDS = ('two fibers on one database; all sequences of length <=3 (thorough: 4) of 16 configuration calls on the first and 8 on the second, in-place changes of what a '
          'fiber or loader handed out, and queries; 3 collection files, two of the same name, all sequences of length <=4 (thorough: 5) of opening, rewriting and using; after each every query on both fibers against the reference of its last '
          'configuration')
SCRATCH = None
GENS = {'g1': dict(fmt='GVD', wl=1550.0, betas=[-0.02, 1e-4], gamma=0.01, gain=None, length=2.0),
        'g2': dict(fmt='GVD', wl=1064.0, betas=[0.015], gamma=0.003, gain=0.7, length=0.5)}


def setup():
    global SCRATCH
    SCRATCH = tempfile.mkdtemp(prefix='verif-c10-')
    F.write_db(SCRATCH)
    F.write_dfile(os.path.join(SCRATCH, 'disp.csv'), [-0.008, 7e-5], 1500.0)


def teardown():
    if SCRATCH:
        shutil.rmtree(SCRATCH, ignore_errors=True)


SECOND = {('gen', 'g2'), ('gen', 'shared'), ('load', 'gvd_km'), ('load', 'gain'), ('file', 'disp'), ('scribble', 'fiberspecs'),
          ('fun', 'd'), ('query', '')}
SHARED = np.array([0.03, -2e-4])


class M(Machine):
    def __init__(self, init):
        self.f = [FiberInstance('mydb', SCRATCH), FiberInstance('mydb', SCRATCH)]
        self.spec = [None, None]
        self.fun = [False, False]
        self.loader = JSONFiberLoader('mydb', SCRATCH)
        self.arr, self.one = SHARED.copy(), np.array([0.04])
        self.p = F.pulse(16, 1.5, 1550.0)
        self.apply([0, 'gen', 'g1'])
        self.apply([1, 'load', 'gvd_km'])

    def ops(self):
        o = []
        for i in (0, 1):
            o += [[i, 'gen', 'g1'], [i, 'gen', 'g2'], [i, 'gen', 'shared'], [i, 'gen', 'one'], [i, 'load', 'gvd_km'], [i, 'load', 'gvd_m'],
                  [i, 'load', 'dtab'], [i, 'load', 'gain'], [i, 'file', 'disp'], [i, 'filegain', 'disp'],
                  [i, 'query', ''], [i, 'scribble', 'fiberspecs'], [i, 'scribble', 'betas'], [i, 'scribble', 'data'],
                  [i, 'new', '']]
            if self.spec[i] is not None:
                o += [[i, 'fun', 'd'], [i, 'fun', 'g']]
        # the fibers are interchangeable: a smaller menu for the second one
        o = [x for x in o if x[0] == 0 or (x[1], x[2]) in SECOND]
        o += [[0, 'loader', n] for n in ('gvd_km', 'gain')] + [[0, 'arg', '']]
        return o

    def apply(self, op):
        i, k, a = op
        f, s = self.f[i], self.spec[i]
        if self.fun[i] and k in ('gen', 'load', 'file', 'filegain'):
            self.fun[i] = False
            # configuration of a fiber which has functions: make a new one
            f = self.f[i] = FiberInstance('mydb', SCRATCH)
        if k == 'gen':
            if a == 'one':
                f.generate_fiber(1.0, 1550.0, self.one, 0.02)
                self.spec[i] = dict(fmt='GVD', wl=1550.0, betas=[float(self.one[0])], gamma=0.02, gain=None, length=1.0)
            elif a == 'shared':
                f.generate_fiber(1.0, 1550.0, self.arr, 0.02)
                self.spec[i] = dict(fmt='GVD', wl=1550.0, betas=[float(x) for x in self.arr], gamma=0.02, gain=None,
                                    length=1.0)
            else:
                g = GENS[a]
                f.generate_fiber(g['length'], g['wl'], g['betas'], g['gamma'], gain=g['gain'] or 0)
                self.spec[i] = dict(g)
        elif k == 'load':
            f.load_from_db(1.25, a, poly_order=2)
            self.spec[i] = dict(F.DB_SPEC[a], length=1.25)
        elif k in ('file', 'filegain'):
            gain = 0.4 if k == 'filegain' else None
            f.load_from_file(os.path.join(SCRATCH, 'disp.csv'), length=0.8, gamma_W_m=0.006, gain=gain or 0, poly_order=2)
            self.spec[i] = dict(fmt='D', wl=1500.0, betas=[-0.008, 7e-5], gamma=0.006, gain=gain, length=0.8)
        elif k == 'query':
            self.query(i)
        elif k == 'new':
            self.fun[i] = False
            self.f[i] = FiberInstance('mydb', SCRATCH)
            self.f[i].load_from_db(1.25, 'gvd_m')
            self.spec[i] = dict(F.DB_SPEC['gvd_m'], length=1.25)
        elif k == 'fun':
            self.fun[i] = True
            if a == 'd':
                if s['fmt'] == 'D':
                    f = self.f[i] = FiberInstance('mydb', SCRATCH)
                    f.generate_fiber(1.0, 1550.0, [0.1], s['gamma'])
                    self.spec[i] = s = dict(fmt='GVD', wl=1550.0, gamma=s['gamma'], gain=None, length=1.0)
                f.set_dispersion_function(lambda z: [0.01 * (1 + z), 1e-4])
                s = self.spec[i] = dict(s, betas=lambda z: [0.01 * (1 + z), 1e-4], fun=True)
            else:
                f.set_gamma_function(lambda z: 0.05 + z)
                self.spec[i] = dict(s, gammafun=True, fun=True)
        elif k == 'scribble':
            # the caller changes what belongs to this fiber: undefined for it,
            # invisible for everybody else; then it is configured anew
            if a == 'fiberspecs':
                for q, v in list(f.fiberspecs.items()):
                    if isinstance(v, list):
                        v[:] = [5.0] * len(v)
                    elif isinstance(v, np.ndarray):
                        v[...] = 5.0
                f.fiberspecs['gamma'] = -1.0
                f.fiberspecs['is_gain'] = True
                f.fiberspecs['gain_x_data'] = None
                f.gain = 99.0
            elif a == 'betas':
                b = getattr(f, 'betas', None)
                if isinstance(b, np.ndarray) and b.dtype.kind == 'f' and b.flags.writeable:
                    b[...] = 7.0
            else:
                for q in ('x', 'y'):
                    v = getattr(f, q, None)
                    if isinstance(v, (list, np.ndarray)):
                        v[:] = [1.0] * len(v)
            self.spec[i] = None
        elif k == 'loader':
            d = self.loader.get_fiber(a)
            self.same_db(d, a)
            for q, v in list(d.items()):
                if isinstance(v, list):
                    v[:] = [5.0] * len(v)
            d['gamma'] = 12.0
            del d['is_gain']
            self.same_db(self.loader.get_fiber(a), a)
        elif k == 'arg':
            self.arr[0] += 0.5
            self.one[0] += 0.5
            for s in self.spec:
                pass

    def same_db(self, d, a):
        want = F.DB[a]
        for q in want:
            if q not in d:
                raise Violation('database entry %s lacks %s' % (a, q))
            if isinstance(want[q], list):
                same(q, d[q], want[q], rtol=1e-12)
            elif d[q] != want[q]:
                raise Violation('database entry %s: %s is %r' % (a, q, d[q]))

    def query(self, i):
        f, s = self.f[i], self.spec[i]
        if s is None:
            return
        p, g = self.p
        same('length', f.length, s['length'], rtol=1e-12)
        for z in (0.0, 0.4):
            full = F.curve(s, g, z)
            rt = 1e-5 if s['fmt'] == 'D' else 1e-9
            F.check_betas('fiber %d beta' % i, f.get_betas(p, z), full, g, rt)
            same('fiber %d gamma' % i, f.get_gamma(z), 0.05 + z if s.get('gammafun') else s['gamma'], rtol=1e-12)
        if s['gain'] is None:
            same('fiber %d gain' % i, f.get_gain(p), np.zeros(g.N), rtol=1e-12)
        elif isinstance(s['gain'], float):
            same('fiber %d gain' % i, f.get_gain(p), np.full(g.N, s['gain']), rtol=1e-12)
        else:
            same('fiber %d gain spectrum' % i, gain_shape(f, p, g), 1.0, rtol=1e-6)

    def canon(self):
        from mc.state import fingerprint
        return fingerprint([vars(f) for f in self.f], [repr(s) for s in self.spec], self.arr, self.one, self.loader)

    def probe(self):
        self.query(0)
        self.query(1)
        self.query(0)
        # later loads see the database as it is on disk
        f = FiberInstance('mydb', SCRATCH)
        for a in ('gvd_km', 'dtab'):
            f.load_from_db(1.0, a)
            self.same_db(f.fiberspecs, a)
        for a in F.DB:
            self.same_db(self.loader.get_fiber(a), a)
        for i in (0, 1):
            if self.spec[i] is None:
                if not self.fun[i]:
                    self.f[i].load_from_db(1.25, 'gvd_m')
                for a in F.DB:
                    self.same_db(self.f[i].fiberloader.get_fiber(a), a)


def gain_shape(f, p, g):
    """Ratio of the spectrum at two table points to the tabulated ratio."""
    x, y = np.array(F.DB['gain']['gain_x_data']), np.array(F.DB['gain']['gain_y_data'])
    G = np.asarray(f.get_gain(p, 2 * p.calc_epp() * p.frep_mks))
    wl = g.wl * 1e-9
    inside = np.where((wl > x[1]) & (wl < x[-2]))[0]
    out = np.where((wl < x[0]) | (wl > x[-1]))[0]
    same('gain outside the table', G[out], np.zeros(len(out)), rtol=0, atol=1e-12)
    a, b = inside[0], inside[-1]
    want = np.interp(wl[a], x, y) / np.interp(wl[b], x, y)
    r = (G[a] / G[b]) / want
    return 1.0 if abs(r - 1) < 0.05 else r


class Files(Machine):
    """Several collections, some with the same name; each object sees the
    file it was given, as the file was when the object was made."""
    WHERE = [('lab', 'a'), ('lab', 'b'), ('other', 'a')]

    def __init__(self, init):
        self.dir = tempfile.mkdtemp(prefix='db-', dir=SCRATCH)
        self.val = {}
        for i, (n, d) in enumerate(self.WHERE):
            os.makedirs(os.path.join(self.dir, d), exist_ok=True)
            self.write(i, i + 1.0)
        self.obj = []
        self.p = F.pulse(16, 1.5, 1550.0)

    def write(self, i, v):
        n, d = self.WHERE[i]
        e = dict(F.DB['gvd_m'], gamma=0.01 * v, dispersion_data=[0.01 * v, 1e-4])
        with open(os.path.join(self.dir, d, n + '.txt'), 'w') as f:
            json.dump({'x': e, 'only%d' % i: e}, f)
        self.val[i] = v

    def ops(self):
        o = [[k, i] for k in ('fiber', 'loader', 'write') for i in range(3)]
        return o + [['use', j] for j in range(len(self.obj))]

    def apply(self, op):
        k, i = op
        if k == 'write':
            self.write(i, self.val[i] + 10.0)
        elif k in ('fiber', 'loader'):
            n, d = self.WHERE[i]
            c = FiberInstance if k == 'fiber' else JSONFiberLoader
            self.obj.append((k, i, self.val[i], c(n, os.path.join(self.dir, d))))
        else:
            self.use(*self.obj[i])

    def use(self, k, i, v, x):
        l = x.fiberloader if k == 'fiber' else x
        same('gamma in the database', l.get_fiber('x')['gamma'], 0.01 * v, rtol=1e-12)
        same('its own fiber', l.get_fiber('only%d' % i)['gamma'], 0.01 * v, rtol=1e-12)
        if k == 'fiber':
            x.load_from_db(1.0, 'x')
            p, g = self.p
            same('gamma', x.get_gamma(), 0.01 * v, rtol=1e-12)
            wl = F.DB['gvd_m']['dispersion_gvd_center_wavelength']
            F.check_betas('beta', x.get_betas(p), F.taylor([0.01 * v, 1e-4], wl, g.W), g, 1e-9)

    def probe(self):
        for o in self.obj:
            self.use(*o)

    def canon(self):
        from mc.state import fingerprint
        return fingerprint([o[:3] for o in self.obj], [vars(o[3]) for o in self.obj], sorted(self.val.items()))


MACHINES = {'two fibers': M, 'files': Files}


def machines(tier):
    yield 'two fibers', 0, 3 if tier == 'quick' else 4
    yield 'files', 0, 4 if tier == 'quick' else 5
