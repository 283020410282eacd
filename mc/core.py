"""Explorer core: exhaustive enumeration of bounded histories of real pynlo code.

A check module defines

  ID, LEVEL, BOUNDS (text)
  machines(tier)   -> iterable of (machine name, init descriptor, depth)
  MACHINES         -> {name: class}      operation-sequence exploration
  scenarios(tier)  -> iterable of JSON-able descriptors
  run(sc, rec)     -> executes one descriptor on the real code and judges it

Machines are explored breadth first.  Every node of the search tree is a fresh
execution on fresh objects (history replayed from the first operation, global
state of pynlo restored before), so live objects are never shared between
branches; two nodes are merged only when the complete implementation state and
the reference model state are identical.
"""
import collections
import concurrent.futures as cf
import contextlib
import gc
import json
import multiprocessing
import os
import resource
import signal
import sys
import time
import traceback

import numpy as np

from mc.state import GlobalState, fingerprint, global_fingerprint

STOP = int(os.environ.get('VERIF_STOP') or 6)
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class Violation(Exception):
    def __init__(self, what, key=None):
        Exception.__init__(self, what)
        self.what = what
        self.key = key


class Timeout(BaseException):
    pass


class HarnessError(Exception):
    pass


# --------------------------------------------------------------------------
# judging helpers

def _desc(x):
    a = np.asarray(x)
    if a.size <= 4:
        return repr(x if not isinstance(x, np.ndarray) else x.tolist())
    return 'array%s[%r .. %r]' % (a.shape, a.ravel()[0], a.ravel()[-1])


def same(what, got, want, rtol=1e-9, atol=0.0, scale=None):
    """Numerical agreement relative to the largest reference magnitude."""
    if type(want) is float or type(want) is int:
        if isinstance(got, (float, int)) or (isinstance(got, np.generic) and got.ndim == 0):
            s = scale if scale is not None else abs(want)
            if abs(got - want) <= rtol * s + atol:
                return
    g = np.asarray(got)
    w = np.asarray(want)
    if g.dtype == object:
        raise Violation('%s: got %r, expected %s' % (what, got, _desc(want)))
    if g.shape != w.shape:
        raise Violation('%s: shape %s, expected %s' % (what, g.shape, w.shape))
    if g.size == 0:
        return
    s = scale if scale is not None else float(np.abs(w).max())
    d = np.abs(g - w)
    tol = rtol * s + atol
    if not (d.max() <= tol):
        dd = np.where(np.isfinite(d), d, np.inf)
        i = int(np.argmax(dd))
        raise Violation('%s: element %d is %r, expected %r (tolerance %.3g)'
                        % (what, i, g.ravel()[i], w.ravel()[i], tol))


def exact(what, got, want):
    if isinstance(want, np.ndarray) or isinstance(got, np.ndarray):
        if np.shape(got) != np.shape(want) or not np.array_equal(got, want):
            raise Violation('%s: got %s, expected %s' % (what, _desc(got), _desc(want)))
    elif got != want:
        raise Violation('%s: got %r, expected %r' % (what, got, want))


def true(what, cond):
    if not cond:
        raise Violation(what)


def raises(what, exc, fn, *a, **k):
    try:
        r = fn(*a, **k)
    except exc as e:
        return e
    except (Violation, Timeout):
        raise
    except Exception as e:
        raise Violation('%s: raised %s: %s' % (what, type(e).__name__, e))
    raise Violation('%s: no error, returned %s' % (what, _desc(r) if r is not None else None))


# --------------------------------------------------------------------------
# recording

class Rec:
    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self.samples = []
        self.violations = []
        self.notes = collections.Counter()

    def state(self, *objs):
        f = fingerprint(*objs)
        new = f not in self.states
        self.states.add(f)
        return new

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, *objs):
        self.outcomes.add(fingerprint(*objs))

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s)

    def export(self):
        return (self.states, self.transitions, self.traces, self.outcomes,
                self.samples, self.violations, self.notes)

    def merge(self, ex):
        self.states |= ex[0]
        self.transitions += ex[1]
        self.traces += ex[2]
        self.outcomes |= ex[3]
        if len(self.samples) < 4:
            self.samples += ex[4][:1]
        self.violations += ex[5]
        self.notes += ex[6]


GS = None
CPU_LIMIT = 150.0      # CPU seconds for one history; the slowest takes a few


def _alarm(signum, frame):
    raise Timeout()


@contextlib.contextmanager
def guarded():
    """One execution: pristine program state, CPU-time watchdog."""
    GS.restore()
    np.random.seed(int(os.environ.get('VERIF_SEED', '1') or 1) % (2**32))
    try:
        import matplotlib.pyplot as plt
        if plt.get_fignums():
            plt.close('all')
    except Exception:
        pass
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def judge(rec, where, fn):
    """Run fn() as one execution; record a violation for anything but success."""
    try:
        with guarded():
            fn()
        return True
    except Violation as v:
        rec.violations.append(dict(where, what=v.what, key=v.key))
    except Timeout:
        rec.violations.append(dict(where, what='does not terminate (%.0f s of CPU time)' % CPU_LIMIT,
                                   key=None))
    except HarnessError:
        raise
    except MemoryError:
        rec.violations.append(dict(where, what='memory exhausted', key=None))
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        at = ['%s:%d %s' % (os.path.basename(f.filename), f.lineno, f.name) for f in tb[-3:]]
        rec.violations.append(dict(where, what='%s: %s [%s]' % (type(e).__name__, e, ' < '.join(reversed(at))),
                                   key=None))
    return False


# --------------------------------------------------------------------------
# operation sequence machines

class Machine:
    """One real object (or several) together with its reference model."""
    def __init__(self, init):
        self.init = init

    def ops(self):
        return []

    def apply(self, op):
        raise NotImplementedError

    def probe(self):
        pass

    def canon(self):
        return fingerprint(self.__dict__)


def replay(cls, init, hist):
    m = cls(init)
    for op in hist:
        m.apply(op)
    return m


def explore_machine(cls, name, init, depth, rec, first=None, max_viol=3):
    """Breadth first over all operation sequences up to depth."""
    start = [] if first is None else [first]
    holder = {}

    def run(hist):
        def body():
            m = replay(cls, init, hist)
            holder['canon'] = m.canon() + global_fingerprint()
            holder['ops'] = list(m.ops())
            m.probe()
        where = {'machine': name, 'init': init, 'history': hist}
        ok = judge(rec, where, body)
        rec.traces += 1
        rec.transitions += 1
        return ok

    if not run(start):
        return
    if rec.states is not None:
        rec.states.add(holder['canon'])
    seen = {holder['canon']}
    frontier = collections.deque([(start, holder['ops'])])
    while frontier:
        hist, ops = frontier.popleft()
        if len(hist) >= depth:
            continue
        for op in ops:
            h2 = hist + [op]
            if not run(h2):
                if len(rec.violations) >= max_viol:
                    return
                continue
            c = holder['canon']
            if c in seen:
                continue
            seen.add(c)
            rec.states.add(c)
            if len(h2) == depth and len(rec.samples) < 1:
                rec.samples.append({'machine': name, 'init': init, 'history': h2})
            frontier.append((h2, holder['ops']))


# --------------------------------------------------------------------------
# running a whole check

def _do(task):
    mod, kind, payload = _STATE['mod'], task[0], task[1]
    rec = Rec()
    if kind == 'm':
        name, init, depth, first = payload
        explore_machine(mod.MACHINES[name], name, init, depth, rec, first)
    else:
        for sc in payload:
            judge(rec, {'scenario': sc}, lambda: mod.run(sc, rec))
            rec.traces += 1
            if len(rec.samples) < 1:
                rec.samples.append(sc)
            if len(rec.violations) >= 3:
                break
    return rec.export()


_STATE = {}


def _tasks(mod, tier, rec):
    tasks = []
    if hasattr(mod, 'machines'):
        for name, init, depth in mod.machines(tier):
            depth += int(os.environ.get('VERIF_DEPTH') or 0)     # for mutation sweeps
            holder = {}

            def body():
                m = replay(mod.MACHINES[name], init, [])
                holder['c'] = m.canon()
                holder['ops'] = list(m.ops())
                m.probe()
            rec.traces += 1
            if not judge(rec, {'machine': name, 'init': init, 'history': []}, body):
                continue
            rec.states.add(holder['c'])
            if depth > 0:
                for op in holder['ops']:
                    tasks.append(('m', (name, init, depth, op)))
    if hasattr(mod, 'scenarios'):
        scs = list(mod.scenarios(tier))
        k = int(os.environ.get('VERIF_SCEN') or 1)               # likewise: a first pass over every k-th scenario
        scs = scs[k // 2::k] or scs
        n = max(1, min(getattr(mod, 'CHUNK', 50), len(scs) // 32 or 1))
        for i in range(0, len(scs), n):
            tasks.append(('s', scs[i:i + n]))
    return tasks


def known_findings():
    out = {}
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding:'):
                d = dict(x.split('=', 1) for x in line.split()[1:3])
                out[(d['property'], d['key'])] = line.split(None, 3)[3]
    return out


def import_pynlo():
    # stale byte code must never be read: numpy and friends first, then pynlo
    # itself with an empty byte code cache
    import scipy.fftpack, scipy.interpolate, scipy.optimize, scipy.signal  # noqa
    import scipy.ndimage, scipy.special, scipy.integrate, scipy.misc  # noqa
    import matplotlib.pyplot  # noqa
    import jsonpickle  # noqa
    for opt in ('pyfftw', 'tables'):
        try:
            __import__(opt)
        except Exception:
            pass
    sys.dont_write_bytecode = True
    old = sys.pycache_prefix
    sys.pycache_prefix = '/nonexistent/verif-pycache'
    sys.path.insert(0, os.path.join(REPO, 'src'))
    import importlib
    import pynlo
    import pynlo.light.DerivedPulses, pynlo.media.fibers.fiber, pynlo.media.fibers.calculators  # noqa
    import pynlo.interactions.FourWaveMixing.SSFM, pynlo.interactions.ThreeWaveMixing.DFG_integrand  # noqa
    import pynlo.util.ode_solve.dopr853, pynlo.devices.grating_compressor  # noqa
    import pynlo.media.crystals.XTAL_PPLN, pynlo.media.crystals.XTAL_AgGaSe2  # noqa
    for m in ('pynlo.media.crystals.XTAL_AgGaS', 'pynlo.interactions.ThreeWaveMixing.multi_run_rw',
              'pynlo.interactions.ThreeWaveMixing.field_classes', 'pynlo.media.crystals.Boyd'):
        try:
            importlib.import_module(m)
        except Exception:
            pass
    sys.pycache_prefix = old
    if not os.path.abspath(pynlo.__file__).startswith(os.path.abspath(REPO) + os.sep):
        raise HarnessError('pynlo imported from ' + pynlo.__file__)


def main(modname, argv):
    global GS
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    if '--thorough' in argv:
        tier = 'thorough'
    if '--quick' in argv:
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    real = os.dup(1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    if '--debug' not in argv:
        sys.stdout.flush()
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)

    def say(s):
        os.write(real, (s + '\n').encode())

    rec = Rec()
    mod = None
    try:
        import importlib
        try:
            import_pynlo()
        except HarnessError:
            raise
        except BaseException as e:
            rec.violations.append({'scenario': 'import pynlo', 'what': '%s: %s' % (type(e).__name__, e), 'key': None})
        if not rec.violations:
            GS = GlobalState()
            try:
                mod = importlib.import_module('mc.checks.' + modname)
            except (ImportError, AttributeError) as e:
                rec.violations.append({'scenario': 'import', 'what': '%s: %s' % (type(e).__name__, e), 'key': None})
        if mod is not None:
            _STATE['mod'] = mod
            if '--replay' in argv:
                return do_replay(mod, argv[argv.index('--replay') + 1], say)
            if hasattr(mod, 'setup'):
                mod.setup()
            # the simulator runs full garbage collections: keep them cheap
            gc.collect()
            gc.freeze()
            tasks = _tasks(mod, tier, rec)
            run_tasks(mod, tasks, rec)
    except BaseException as e:
        if '--debug' in argv:
            raise
        say('ERROR of the check itself: ' + ''.join(traceback.format_exception(type(e), e, e.__traceback__)))
        return 2
    finally:
        sys.stdout.flush()
        if mod is not None and hasattr(mod, 'teardown'):
            mod.teardown()

    pid = modname.upper()
    known = known_findings()
    unknown, reported = [], set()
    for v in rec.violations:
        k = (pid, v.get('key'))
        if k in known:
            if k not in reported:
                say('KNOWN-FINDING: property=%s %s' % (pid, known[k]))
                reported.add(k)
        else:
            unknown.append(v)
    wall = time.time() - t0
    level = getattr(mod, 'LEVEL', 'model_checking')
    cov = {'states': len(rec.states), 'transitions': rec.transitions,
           'traces_validated_against_impl': rec.traces,
           'distinct_observed_outcomes': len(rec.outcomes),
           'samples': rec.samples[:4] or [{'note': 'no trace completed'}],
           'bounds': getattr(mod, 'BOUNDS', ''), 'exhaustive': not rec.violations}
    if rec.notes:
        cov['counters'] = dict(rec.notes)
    if not cov['distinct_observed_outcomes']:
        del cov['distinct_observed_outcomes']
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'wall_s': round(wall, 2),
          'violations': len(unknown)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    say('%s %s: states=%d transitions=%d traces=%d outcomes=%d violations=%d wall=%.1fs'
        % (pid, tier, len(rec.states), rec.transitions, rec.traces, len(rec.outcomes), len(unknown), wall))
    if unknown:
        unknown.sort(key=lambda v: len(json.dumps(v.get('history', v.get('scenario')), default=str)))
        v = unknown[0]
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s.json' % pid)
        with open(path, 'w') as f:
            json.dump({'property': pid, 'violation': v, 'others': unknown[1:6],
                       'replay': './check %s --replay %s' % (pid, path)}, f, indent=1, default=str)
        for u in unknown[:3]:
            say('  ' + json.dumps({k: u[k] for k in u if k != 'key'}, default=str)[:900])
        say('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    return 0


def do_replay(mod, path, say):
    v = json.load(open(path))['violation']
    rec = Rec()
    if hasattr(mod, 'setup'):
        mod.setup()
    if 'machine' in v:
        def body():
            m = replay(mod.MACHINES[v['machine']], v['init'], v['history'])
            m.canon()
            m.probe()
        judge(rec, {}, body)
    else:
        judge(rec, {}, lambda: mod.run(v['scenario'], rec))
    for x in rec.violations:
        say('reproduced: ' + x['what'])
    if not rec.violations:
        say('not reproduced')
    return 1 if rec.violations else 0


def _init_worker():
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))


def run_tasks(mod, tasks, rec):
    if not tasks:
        return
    workers = min(int(os.environ.get('VERIF_WORKERS') or getattr(mod, 'WORKERS', 8)), os.cpu_count() or 1, len(tasks))
    if workers <= 1:
        for t in tasks:
            rec.merge(_do(t))
            if len(rec.violations) >= STOP:
                break
        return
    ctx = multiprocessing.get_context('fork')
    with cf.ProcessPoolExecutor(workers, mp_context=ctx, initializer=_init_worker) as ex:
        futs = [ex.submit(_do, t) for t in tasks]
        try:
            for f in futs:
                rec.merge(f.result())
                if len(rec.violations) >= STOP:
                    for g in futs:
                        g.cancel()
                    break
        except cf.process.BrokenProcessPool:
            rec.violations.append({'scenario': 'process', 'what': 'the process running the code under test died', 'key': None})
