"""Observation of pulses: everything a pulse reports, as plain data."""
import numpy as np

from mc.core import Violation
from mc.ref import ACCESSORS


def observe(p, field=True):
    d = {}
    for n in ACCESSORS:
        v = getattr(p, n)
        d[n] = np.array(v, copy=True) if isinstance(v, np.ndarray) else v
    if field:
        for n in ('AW', 'AT'):
            try:
                d[n] = np.array(getattr(p, n), copy=True)
            except RuntimeError:
                d[n] = None
    return d


def differs(a, b):
    """First name on which two observations differ (bitwise), or None."""
    for n in a:
        x, y = a[n], b.get(n)
        if x is None or y is None:
            if not (x is None and y is None):
                return n
        elif isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
            x, y = np.asarray(x), np.asarray(y)
            if x.shape != y.shape or not np.array_equal(x, y, equal_nan=True):
                return n
        elif x != y:
            return n
    return None


def unchanged(what, before, p, field=True):
    n = differs(before, observe(p, field))
    if n is not None:
        raise Violation('%s: %s changed from %r to %r' % (what, n, _short(before[n]), _short(getattr(p, n))))


def _short(x):
    a = np.asarray(x)
    return a.ravel()[:4].tolist() if a.ndim else x


def close(what, before, after, rtol=1e-9, skip=()):
    for n in before:
        if n in skip:
            continue
        if before[n] is None or after[n] is None:
            if before[n] is not after[n]:
                raise Violation('%s: %s is %r, expected %r' % (what, n, after[n], before[n]))
            continue
        x, y = np.asarray(before[n]), np.asarray(after[n])
        if x.shape != y.shape:
            raise Violation('%s: %s has shape %s, expected %s' % (what, n, y.shape, x.shape))
        s = np.abs(x).max() if x.size else 0.0
        if x.size and not np.abs(x - y).max() <= rtol * s:
            i = int(np.argmax(np.abs(x - y)))
            raise Violation('%s: %s[%d] is %r, expected %r' % (what, n, i, y.ravel()[i], x.ravel()[i]))
