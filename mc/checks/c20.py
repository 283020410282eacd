"""C20: amplifier goal seeking ends at the requested power."""
import itertools
import os
import shutil
import tempfile

import numpy as np
from pynlo.media.fibers.fiber import FiberInstance

from mc import fibers as F
from mc import ssfm as S
from mc.core import same, true, Machine
from mc.pulses import observe, unchanged

LEVEL = 'model_checking'
BOUNDS = ('4 amplification factors x 3 guesses x 3 tolerances x 3 repetition rates x 3 nonlinearities x 2 gain spectra x 2 lengths x 1..3 outputs; '
          'each goal preceded by another goal on the same simulator')
ASSUMPTIONS = ['Goals and guessed powers are above the input power (amplification).']
CHUNK = 2
SCRATCH = None


def setup():
    global SCRATCH
    SCRATCH = tempfile.mkdtemp(prefix='verif-c20-')
    F.write_db(SCRATCH)


def teardown():
    if SCRATCH:
        shutil.rmtree(SCRATCH, ignore_errors=True)


def scenarios(tier):
    q = tier == 'quick'
    for name, frep, gam, L in itertools.product(('gain', 'gain_d'), (100.0, 10.0, 1000.0), (0.0, 0.002, 0.02), (0.5, 2.0)):
        for r, guess, tol in itertools.product((2.0, 5.0, 20.0, 200.0), (None, 1.3, 0.8), (0.05, 0.01, 0.002)):
            if q and ([2.0, 5.0, 20.0, 200.0].index(r) + [None, 1.3, 0.8].index(guess) + [0.05, 0.01, 0.002].index(tol)) % 3 != int(L):
                if frep != 10.0 or gam != 0.02:
                    continue
            yield [name, frep, gam, L, r, guess, tol]
        if frep == 10.0:
            for r, guess, tol in ((5.0, 1.35, 0.3), (5.0, 0.75, 0.3), (5.0, 1.7, 0.6), (20.0, 1.35, 0.3), (20.0, 30.0, 1e-3), (20.0, 0.1, 1e-3), (200.0, 200.0, 1e-3), (200.0, None, 3e-4)):
                yield [name, frep, gam, L, r, guess, tol]


def run(sc, rec):
    name, frep, gam, L, r, guess, tol = sc
    p, g = F.pulse(64, 8.0, 1548.0, frep=frep)
    p.set_AT(S.shape('sech', g, 1.0))
    p.set_epp(4e-11)             # about 80 W peak, gamma P L up to a few
    p0 = p.calc_epp() * p.frep_mks
    ob = observe(p)
    f = FiberInstance('mydb', SCRATCH)
    f.load_from_db(L, name)
    f.gamma = gam / (1 + r * L / 20)
    s = S.sim(local_error=1e-4, dz=1e-2)
    n = 1 + int(10 * r) % 3
    for goal in (p0 * r, p0 * r * 1.4):
        out = s.propagate_to_gain_goal(p, f, n, power_goal=goal, scalefactor_guess=guess, powertol=tol)
        true('what is returned', len(out) == 2 and len(out[0]) == 4)
        (z, AW, AT, po), scale = out
        P = po.calc_epp() * po.frep_mks
        # the final run may use other steps than the one that met the goal
        true('output power %g for goal %g (tolerance %g)' % (P, goal, tol), abs(P - goal) <= (tol + 2e-3) * goal)
        S.outputs('goal', out[0], g, L, n)
        same('columns and pulse', AT[:, -1], po.AT, rtol=1e-5)
        unchanged('input', ob, p)
        again = S.sim(local_error=1e-4, dz=1e-2).propagate(p, f, n, output_power=goal * scale)
        same('reproduced with the scale factor', again[3].AT, po.AT, rtol=5e-3)
        same('reproduced with the scale factor', again[2], AT, rtol=5e-3)
        same('repetition rate', po.frep_MHz, frep, rtol=1e-12)
        rec.state(po, s)
        rec.step(2)
