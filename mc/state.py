"""Global state of the program under test: snapshot, restore, fingerprints.

Every history starts from the same program state.  Module globals and class
attributes of pynlo that can be mutated (dicts, lists, arrays, instances ...)
are saved once after import and put back before every history, so that one
explored history can never influence another one; inside one history all of
that state is live, which is how sharing between objects is observed.
"""
import copy
import functools
import hashlib
import sys
import types

import numpy as np

_ATOMS = (int, float, complex, str, bytes, bool, type(None))


def _pynlo_modules():
    return [m for n, m in sorted(sys.modules.items())
            if m is not None and (n == 'pynlo' or n.startswith('pynlo.'))]


def _is_data(v):
    tm = type(v).__module__
    if tm in ('__future__', 'numpy') and not isinstance(v, (np.ndarray, np.generic)):
        return False
    if isinstance(v, (types.ModuleType, type, types.FunctionType, types.BuiltinFunctionType,
                      staticmethod, classmethod, property, types.MethodType)):
        return False
    if isinstance(v, np.ufunc):
        return False
    return True


class GlobalState:
    """Snapshot of all mutable global state of the imported pynlo modules."""

    def __init__(self):
        self.saved = []     # (namespace owner, {name: deep copy})
        self.caches = []
        seen = set()
        for mod in _pynlo_modules():
            self._take(mod, vars(mod), seen)
            for v in list(vars(mod).values()):
                if isinstance(v, type) and str(getattr(v, '__module__', '')).startswith('pynlo'):
                    self._take(v, vars(v), seen)

    def _take(self, owner, ns, seen):
        if id(owner) in seen:
            return
        seen.add(id(owner))
        d = {}
        for k, v in list(ns.items()):
            if k.startswith('__') and k.endswith('__'):
                continue
            f = getattr(v, '__func__', v)
            if isinstance(f, types.FunctionType) and not str(f.__module__).startswith('pynlo'):
                continue
            if callable(getattr(f, 'cache_clear', None)):
                self.caches.append(f)
                continue
            if _is_data(v):
                try:
                    d[k] = copy.deepcopy(v)
                except Exception:
                    pass
            elif isinstance(v, types.FunctionType):
                # mutable default arguments and function attributes
                df = v.__defaults__
                if df and any(not isinstance(x, _ATOMS) for x in df):
                    try:
                        self.saved.append((v, '__defaults__', copy.deepcopy(df)))
                    except Exception:
                        pass
                if v.__dict__:
                    try:
                        self.saved.append((v, '__fdict__', copy.deepcopy(v.__dict__)))
                    except Exception:
                        pass
        names = set(ns.keys())
        self.saved.append((owner, d, names))

    def restore(self):
        for f in self.caches:
            try:
                f.cache_clear()
            except Exception:
                pass
        for owner, d, extra in self.saved:
            if d == '__defaults__':
                owner.__defaults__ = copy.deepcopy(extra)
                continue
            if d == '__fdict__':
                owner.__dict__.clear()
                owner.__dict__.update(copy.deepcopy(extra))
                continue
            ns = vars(owner)
            if len(ns) != len(extra):
                for k in [k for k in ns.keys() if k not in extra]:
                    if not isinstance(ns[k], types.ModuleType):
                        try:
                            delattr(owner, k)
                        except Exception:
                            pass
            for k, v in d.items():
                cur = ns.get(k)
                if isinstance(v, _ATOMS):
                    if cur is v:
                        continue
                elif type(cur) is type(v) and isinstance(v, (dict, list)) and not v and not cur:
                    continue
                try:
                    setattr(owner, k, v if isinstance(v, _ATOMS) else copy.deepcopy(v))
                except Exception:
                    pass


def _feed(h, o, seen, depth=0):
    if isinstance(o, _ATOMS):
        h.update(repr(o).encode())
    elif isinstance(o, np.ndarray):
        # which arrays share memory is part of the state
        b = o
        while isinstance(b.base, np.ndarray):
            b = b.base
        k = ('mem', b.__array_interface__['data'][0])
        if b.size:
            h.update(b'%d' % seen.setdefault(k, len(seen)))
        h.update(str(o.dtype).encode() + str(o.shape).encode())
        if o.dtype == object:
            for x in o.ravel():
                _feed(h, x, seen, depth + 1)
        else:
            h.update(np.ascontiguousarray(o).tobytes())
    elif isinstance(o, np.generic):
        h.update(str(o.dtype).encode() + o.tobytes())
    elif isinstance(o, (list, tuple)):
        if type(o) is list:
            if id(o) in seen:
                h.update(b'@%d' % seen[id(o)])
                return
            seen[id(o)] = len(seen)
        h.update(b'[')
        if len(o) > 8 and all(type(x) is float for x in o):
            h.update(repr(o).encode())
            o = ()
        for x in o:
            _feed(h, x, seen, depth + 1)
            h.update(b',')
        h.update(b']')
    elif isinstance(o, (set, frozenset)):
        h.update(b'{' + ','.join(sorted(map(repr, o))).encode() + b'}')
    elif isinstance(o, dict):
        if id(o) in seen:
            h.update(b'@%d' % seen[id(o)])
            return
        seen[id(o)] = len(seen)
        h.update(b'{')
        for k in sorted(o.keys(), key=repr):
            h.update(repr(k).encode() + b':')
            _feed(h, o[k], seen, depth + 1)
        h.update(b'}')
    elif isinstance(o, (types.FunctionType, types.BuiltinFunctionType, type)):
        h.update(getattr(o, '__qualname__', '?').encode())
        cl = getattr(o, '__closure__', None)
        if cl and depth < 12:
            for c in cl:
                try:
                    _feed(h, c.cell_contents, seen, depth + 1)
                except ValueError:
                    pass
    elif isinstance(o, types.MethodType):
        h.update(o.__func__.__qualname__.encode())
        _feed(h, o.__self__, seen, depth + 1)
    elif isinstance(o, functools.partial):
        _feed(h, (o.func, o.args, o.keywords), seen, depth + 1)
    elif hasattr(o, '__dict__') and depth < 12:
        if id(o) in seen:
            h.update(b'@%d' % seen[id(o)])
            return
        seen[id(o)] = len(seen)
        h.update(type(o).__qualname__.encode())
        _feed(h, vars(o), seen, depth + 1)
    else:
        h.update(type(o).__qualname__.encode())


def fingerprint(*objs):
    """64 bit canonical hash of the complete state of the given objects.

    All attributes are included, private and cached ones too, so two states are
    merged only if the implementation itself cannot tell them apart.
    """
    h = hashlib.blake2b(digest_size=8)
    seen = {}
    for o in objs:
        _feed(h, o, seen)
        h.update(b';')
    return h.hexdigest()


def _plain(v):
    """A value which has no mutable state of its own."""
    if isinstance(v, _ATOMS) or isinstance(v, (np.generic, type, types.ModuleType, types.BuiltinFunctionType, np.ufunc)):
        return True
    f = getattr(v, '__func__', v)
    if isinstance(f, types.FunctionType):
        if not str(f.__module__).startswith('pynlo'):
            return True
        return not (f.__defaults__ and any(not isinstance(x, _ATOMS) for x in f.__defaults__))
    return not _is_data(v) and not callable(getattr(f, 'cache_info', None))


def global_fingerprint():
    """Everything that the modules and classes of pynlo hold and may change."""
    h = hashlib.blake2b(digest_size=8)
    seen = {}
    for owner, plain in _owners():
        for k, v in list(vars(owner).items()):
            if plain.get(k, owner) is v:
                if type(v) is not types.FunctionType or not v.__dict__:
                    continue
            elif k.startswith('__') and k.endswith('__'):
                continue
            elif isinstance(v, np.generic) and type(plain.get(k)) is type(v) and v == plain[k]:
                continue
            h.update(k.encode())
            f = getattr(v, '__func__', v)
            if isinstance(f, types.FunctionType):
                _feed(h, (f.__qualname__, f.__defaults__, f.__dict__), seen)
            elif callable(getattr(f, 'cache_info', None)):
                h.update(repr(f.cache_info().currsize).encode())
            elif _is_data(v):
                _feed(h, v, seen)
            else:
                _feed(h, getattr(v, '__name__', '?'), seen)
    return h.hexdigest()


_OWN = []


def _owners():
    """(module or class, those of its values which never change), as of the first call."""
    n = len(sys.modules)
    if not _OWN or _OWN[0] != n:
        seen, own = set(), []
        for mod in _pynlo_modules():
            for o in [mod] + [v for v in vars(mod).values()
                              if isinstance(v, type) and str(getattr(v, '__module__', '')).startswith('pynlo')]:
                if id(o) not in seen:
                    seen.add(id(o))
                    own.append((o, {k: v for k, v in vars(o).items() if _plain(v)}))
        _OWN[:] = [n, own]
    return _OWN[1]
