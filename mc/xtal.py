"""Crystals and the published index equations they are documented to follow."""
import math

import numpy as np

from pynlo.media.crystals.XTAL_PPLN import PPLN
from pynlo.media.crystals.XTAL_AgGaSe2 import AgGaSe2
from pynlo.media.crystals.XTAL_AgGaS import AgGaSe2 as AgGaS2

GAYER = dict(a=(5.756, 0.0983, 0.2020, 189.32, 12.52, 1.32e-2), b=(2.860e-6, 4.700e-8, 6.113e-8, 1.516e-4, 0.0))
DENG = dict(a=(5.39121, 0.100473, 0.20692, 100.0, 11.34927, 1.544e-2), b=(4.96827e-7, 3.862e-8, -0.89e-8, 2.657e-5, 9.62119e-10))


def n_ppln(source, T, wl_nm):
    d = GAYER if source == 'Gayer_5pctMg' else DENG
    a1, a2, a3, a4, a5, a6 = d['a']
    b1, b2, b3, b4, b5 = d['b']
    x = (np.asarray(wl_nm, float) / 1000.0) ** 2
    f = (T - 24.5) * (T + 570.82)
    return np.sqrt(a1 + b1 * f + (a2 + b2 * f) / (x - (a3 + b3 * f) ** 2) + (a4 + b4 * f) / (x - a5 ** 2) - (a6 + b5 * f) * x)


def n_oe(kind, wl_nm, axis):
    w = np.asarray(wl_nm, float) / 1000.0
    if kind == 'AgGaSe2':
        if axis == 'o':
            s = 6.849065 + 0.417863 / (w ** 1.970203 - 0.178080) + 0.000442 / (w ** 0.340086 - 0.889242) + 1.209374 / (1 - 915.345 / w ** 1.921292)
        else:
            s = 6.675232 + 0.436579 / (w ** 1.893694 - 0.229775) + 0.012063 / (w ** 4.269152 - 0.213957) + 3.252722 / (1 - 3129.32 / w ** 2.047204)
    elif axis == 'o':
        s = 5.814100 + 0.0867547 / (w ** 3.156983 - 0.0356502) + 0.0821721 / (w ** 4.430430 + 0.315646) + 0.506566 / (w ** 6.604280 + 6.582197) + 176380.0 / (1 - 112586195.0 / w ** 2.225043)
    else:
        s = 5.530050 + 0.0510941 / (w ** 2.359877 - 0.141109) + 0.195314 / (w ** 2.566664 + 0.0910735) + 4253.78 / (1 - 4304924.0 / w ** 2.383834)
    return np.sqrt(s)


def n_mix(kind, wl_nm, theta):
    o, e = n_oe(kind, wl_nm, 'o'), n_oe(kind, wl_nm, 'e')
    return 1 / np.sqrt(math.sin(theta) ** 2 / e ** 2 + math.cos(theta) ** 2 / o ** 2)


class Model:
    """Reference crystal: plain parameters, index from the equations."""
    def __init__(self, kind, **kw):
        self.kind = kind
        self.T = 45.0
        self.theta = 0.8
        self.source = 'Gayer_5pctMg'
        self.__dict__.update(kw)

    def n(self, wl_nm, axis=None):
        if self.kind == 'PPLN':
            return n_ppln(self.source, self.T, wl_nm)
        if axis in (None, 'mix'):
            return n_mix(self.kind, wl_nm, self.theta)
        return n_oe(self.kind, wl_nm, axis)


def make(kind, m=None, length=0.005, caching=False):
    m = m or Model(kind)
    if kind == 'PPLN':
        c = PPLN(m.T, length=length, enable_caching=caching)
        if m.source != 'Gayer_5pctMg':
            c.load(m.T, data_source=m.source)
    else:
        c = (AgGaSe2 if kind == 'AgGaSe2' else AgGaS2)(m.theta, length=length, enable_caching=caching)
    return c
