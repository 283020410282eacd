"""C02: no sharing of mutable data between pulses, callers and derived pulses."""
import copy
import os
import pickle
import shutil
import tempfile

import numpy as np
from pynlo.light.PulseBase import Pulse
from pynlo.light.DerivedPulses import SechPulse, GaussianPulse, CWPulse

from mc.core import Machine, Violation, true
from mc.pulses import observe, unchanged
from mc.ref import ACCESSORS, field

LEVEL = 'model_checking'
BOUNDS = ('up to three pulses (one constructed, the others derived from it in 6 ways or cloned into); all sequences '
          'of <= 3 (thorough: 4) operations out of: reading arrays and writing into them at once or later, handing arrays and dictionaries '
          'in and writing into them later, deriving, 19 mutating methods, 8 diagnostics; after every operation every '
          'pulse except the mutated one and every array handed out must be bitwise unchanged')

ARRAYS = ['T_ps', 'T_mks', 'V_THz', 'V_mks', 'W_THz', 'W_mks', 'F_THz', 'F_mks', 'wl_nm', 'wl_mks', 'AW', 'AT']
DIAG = ['calc_epp', 'calculate_weighted_avg_frequency_mks', 'calculate_weighted_avg_wavelength_nm',
        'calculate_intensity_autocorrelation', 'get_pulse_dict', 'spectrogram', 'spectrogram_frog', 'write_frog']
MUT = ['set_center_wavelength_nm', 'set_time_window_ps', 'set_frequency_window_THz', 'set_frep_MHz', 'set_epp',
       'add_noise', 'chirp_pulse_W', 'chirp_pulse_T', 'add_time_offset', 'dechirp_pulse', 'remove_time_delay',
       'filter_by_wavelength_nm', 'rotate_spectrum_to_new_center_wl', 'expand_time_window', 'set_AW', 'set_AT',
       'apply_phase_W', 'load_pulse_dict', 'clone_from_other']
DERIVE = ['create_cloned_pulse', 'create_subset_pulse', 'interpolate_to_new_center_wl', 'dict', 'deepcopy', 'pickle']
SCRATCH = None


def setup():
    global SCRATCH
    SCRATCH = tempfile.mkdtemp(prefix='verif-c02-')


def teardown():
    if SCRATCH:
        shutil.rmtree(SCRATCH, ignore_errors=True)


def scribble(o):
    if isinstance(o, np.ndarray):
        if o.flags.writeable:
            o[...] = 7.25
    elif isinstance(o, list):
        for i in range(len(o)):
            o[i] = 7.25
    elif isinstance(o, dict):
        for k in list(o):
            if isinstance(o[k], (list, np.ndarray)):
                scribble(o[k])
            else:
                o[k] = 3


def snap(o):
    return copy.deepcopy(o)


def equal(a, b):
    if isinstance(a, dict):
        return set(a) == set(b) and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, tuple):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    return np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True)


class M(Machine):
    def __init__(self, init):
        if init == 'sech':
            p = SechPulse(10.0, 0.8, 1550.0, time_window_ps=10.0, frep_MHz=80.0, NPTS=8, GDD=0.1)
        elif init == 'cw':
            p = CWPulse(1.0, 1550.0, time_window_ps=10.0, NPTS=8, offset_from_center_THz=0.2)
        else:
            p = GaussianPulse(10.0, 0.8, 1550.0, time_window_ps=10.0, NPTS=10)
            p.set_AW(field(10))
        self.p = {'a': p}
        self.held = []          # [what, object, frozen copy]

    def ops(self):
        o = []
        for who in sorted(self.p):
            o.append(['readwrite', who, '*'])
            if len(self.held) < 1:
                o.append(['hold', who, '*'])
            dark = not np.any(np.abs(self.p[who].AW) > 0)
            o += [['mut', who, m] for m in MUT if (m != 'clone_from_other' or len(self.p) > 1) and
                  not (dark and m in ('dechirp_pulse', 'remove_time_delay', 'set_epp'))]
            o += [['diag', who, d] for d in DIAG]
            if len(self.p) < 3:
                o += [['derive', who, d] for d in DERIVE]
        if self.held:
            o.append(['scribble', '', ''])
        return o

    def fresh_holds(self, what, obj):
        self.held.append([what, obj, snap(obj)])

    def apply(self, op):
        kind, who, arg = op
        before = {w: observe(q) for w, q in self.p.items()}
        gone = len(self.held)
        affected = set()
        if kind == 'readwrite':
            p = self.p[who]
            for n in ARRAYS:
                v = getattr(p, n)
                scribble(v)
                unchanged('%s after writing into the returned %s' % (who, n), before[who], p)
        elif kind == 'hold':
            p = self.p[who]
            for n in ARRAYS:
                self.fresh_holds('%s.%s' % (who, n), getattr(p, n))
            self.fresh_holds('%s.get_pulse_dict()' % who, p.get_pulse_dict())
            self.fresh_holds('%s.autocorrelation' % who, p.calculate_intensity_autocorrelation())
        elif kind == 'scribble':
            for h in self.held:
                scribble(h[1])
                h[2] = snap(h[1])
                for w, q in self.p.items():
                    unchanged('%s after writing into %s' % (w, h[0]), before[w], q)
            self.held = []
            gone = 0
        elif kind == 'derive':
            new = 'bc'[len(self.p) - 1]
            p = self.p[who]
            if arg == 'create_cloned_pulse':
                q = p.create_cloned_pulse()
            elif arg == 'create_subset_pulse':
                n = 4
                i = min(max(int(np.argmax(np.abs(p.AW))), 2), p.NPTS - 2)
                q = p.create_subset_pulse(p.wl_nm[i], n) if p.NPTS > n else p.create_cloned_pulse()
            elif arg == 'interpolate_to_new_center_wl':
                q = p.interpolate_to_new_center_wl(p.center_wavelength_nm)
            elif arg == 'dict':
                q = Pulse()
                d = p.get_pulse_dict()
                q.load_pulse_dict(d)
                self.fresh_holds('the loaded dictionary', d)
            elif arg == 'deepcopy':
                q = copy.deepcopy(p)
            else:
                q = pickle.loads(pickle.dumps(p))
            self.p[new] = q
        elif kind == 'diag':
            p = self.p[who]
            if arg == 'spectrogram':
                r = p.spectrogram('xfrog', 0.5, 5)
            elif arg == 'spectrogram_frog':
                r = p.spectrogram('frog', 0.5, 5)
            elif arg == 'write_frog':
                r = p.write_frog(os.path.join(SCRATCH, 'f%d.dat' % os.getpid()))
            else:
                r = getattr(p, arg)()
            scribble(r)
            if isinstance(r, tuple):
                for x in r:
                    scribble(x)
        else:
            affected.add(who)
            self.mutate(who, arg)
        for w in before:
            if w not in affected:
                unchanged('%s after %s' % (w, op), before[w], self.p[w])
        for h in self.held[:gone]:
            if not equal(h[1], h[2]):
                raise Violation('%s, obtained or passed earlier, was modified by %s' % (h[0], op))

    def mutate(self, who, m):
        p = self.p[who]
        n = p.NPTS
        if m == 'set_center_wavelength_nm':
            p.set_center_wavelength_nm(1480.0)
        elif m == 'set_time_window_ps':
            p.set_time_window_ps(6.0)
        elif m == 'set_frequency_window_THz':
            p.set_frequency_window_THz(1.7)
        elif m == 'set_frep_MHz':
            p.set_frep_MHz(55.0)
        elif m == 'set_epp':
            p.set_epp(1e-9)
        elif m == 'add_noise':
            p.add_noise('one_photon_freq')
        elif m == 'chirp_pulse_W':
            p.chirp_pulse_W(0.3, 0.1)
        elif m == 'chirp_pulse_T':
            p.chirp_pulse_T(0.3, 0.1, 1.0)
        elif m == 'add_time_offset':
            p.add_time_offset(0.7)
        elif m == 'dechirp_pulse':
            p.dechirp_pulse(intensity_threshold=0.0)
        elif m == 'remove_time_delay':
            p.remove_time_delay(intensity_threshold=0.0)
        elif m == 'filter_by_wavelength_nm':
            w = np.sort(p.wl_nm)
            p.filter_by_wavelength_nm(w[1], w[-1])
        elif m == 'rotate_spectrum_to_new_center_wl':
            p.rotate_spectrum_to_new_center_wl(p.wl_nm[1])
        elif m == 'expand_time_window':
            p.expand_time_window(1, 'even')
        elif m in ('set_AW', 'set_AT'):
            a = field(n, 3).astype(complex)
            s = snap(a)
            getattr(p, m)(a)
            self.fresh_holds('the array given to ' + m, a)
            self.held[-1][2] = s
        elif m == 'apply_phase_W':
            a = np.linspace(-7.0, 11.0, n)
            s = snap(a)
            p.apply_phase_W(a)
            self.fresh_holds('the phase given to apply_phase_W', a)
            self.held[-1][2] = s
        elif m == 'load_pulse_dict':
            d = {'NPTS': 6, 'time_window_ps': 5.0, 'center_wavelength_nm': 1300.0, 'frep_MHz': 10.0,
                 'AT_re': np.arange(6.0), 'AT_im': np.ones(6)}
            s = snap(d)
            p.load_pulse_dict(d)
            self.fresh_holds('the dictionary given to load_pulse_dict', d)
            self.held[-1][2] = s
        else:
            o = [w for w in sorted(self.p) if w != who][0]
            p.clone_pulse(self.p[o])
        for h in self.held:
            if not equal(h[1], h[2]):
                raise Violation('%s was modified by %s' % (h[0], m))

    def canon(self):
        from mc.state import fingerprint
        return fingerprint(self.p, self.held)   # with what is shared between them

    def probe(self):
        for w, q in self.p.items():
            b = observe(q)
            unchanged(w + ' read twice', b, q)
            # the two fields are still those of one another
        true('alive', 'a' in self.p)


MACHINES = {'pulses': M}


def machines(tier):
    for init in ('sech', 'cw', 'generic'):
        yield 'pulses', init, 2 if (tier == 'quick' and init != 'sech') else (3 if tier == 'quick' or init != 'sech' else 4)
