"""P18: oscillator phase. All sequences of frequency changes and copies over an alphabet."""
import copy
import itertools
import math
from fractions import Fraction

import numpy as np

from mc import Family, require
from klang.audio.oscillators import chirp_phase, Chirper, FmOscillator, Lfo, Oscillator, Phasor, PwmOscillator
from klang.audio.sync import Clock
from klang.audio.waves import WAVE_FUNCTIONS
from klang.config import BUFFER_SIZE as N, SAMPLING_RATE as FS, TEMPO
from klang.connections import Output

TAU = 2. * math.pi
EPS = 1e-7


def identity(phase):
    return phase


# Reference wave forms over cycles [0, 1)
def ref_wave(name, cycles):
    c = np.mod(cycles, 1.)
    if name == 'sine':
        return np.sin(TAU * c)
    if name == 'square':
        return np.where(c < .5, 1., -1.)
    if name == 'sawtooth':
        return 2. * c - 1.
    if name == 'triangle':
        return np.where(c < .5, 4. * c - 1., 3. - 4. * c)
    raise KeyError(name)


RAMP = np.linspace(100., 1000., N)
FREQS = {
    'zero': 0., 'slow': .7, 'a4': 440., 'int': 3, 'high': 21000., 'neg': -123.4, 'np': np.float64(1722.65625),
    'beat': Fraction(1, 4), 'dotted': Fraction(3, 16),
    'ramp': RAMP, 'zigzag': 500. + 400. * (np.arange(N) % 2), 'tail': np.where(np.arange(N) < N - 1, 200., 9000.),
}
SCALARS = ('zero', 'slow', 'a4', 'int', 'high', 'neg', 'np', 'beat', 'dotted')


def hertz(freq):
    """Frequency in Hz (or array) of an alphabet letter. A note value sets the rate of that note at the default tempo."""
    if isinstance(freq, Fraction):
        return TEMPO / 60. * .25 / float(freq)
    return freq


class Ref:
    """Phase integral, in cycles."""

    def __init__(self, startPhase=0.):
        self.cycles = startPhase / TAU

    def step(self, freq):
        """Phases (in cycles) at every sample of the next buffer."""
        f = np.ones(N) * hertz(freq)
        phases = self.cycles + np.concatenate([[0.], np.cumsum(f)]) / FS
        self.cycles = phases[-1] % 1.
        return phases[:-1]

    def clone(self):
        other = Ref()
        other.cycles = self.cycles
        return other


def matches(func, cycles, got, tol=2e-5):
    """got equals func(cycles), where a discontinuity may be off by rounding."""
    got = np.asarray(got, dtype=float)
    ok = np.zeros(got.shape, dtype=bool)
    for d in (0., EPS, -EPS):
        ok |= np.abs(func(cycles + d) - got) <= tol
        if ok.all():
            break
    return ok


def check_wave(what, func, cycles, got, low, high, tol=2e-5):
    got = np.asarray(got, dtype=float)
    require(got.shape == np.shape(cycles), '%s: output shape %s', what, got.shape)
    ok = matches(func, cycles, got, tol)
    if not ok.all():
        i = int(np.argmin(np.ravel(ok)))
        require(False, '%s: sample %d is %r at phase %r, should be %r', what, i, float(np.ravel(got)[i]),
                float(np.ravel(cycles)[i] % 1. * TAU), float(np.ravel(func(cycles))[i]))
    require(got.min() >= low - 1e-9 and got.max() <= high + 1e-9, '%s: leaves [%g, %g]', what, low, high)


# -- kinds ----------------------------------------------------------------------

class Kind:

    """Real oscillator + reference. spec = list describing it."""

    def __init__(self, spec, block=None, ref=None, source=None):
        self.spec = spec
        self.kind = spec[0]
        self.start = spec[1]
        self.ref = ref or Ref(self.start)
        self.block = block if block is not None else self.build()
        self.freq = self.initial
        self.extra = {}

    initial = 440.

    def build(self):
        k, start = self.spec[:2]
        if k == 'phasor':
            return Phasor(frequency=self.initial, startPhase=start)
        if k == 'osc':
            return Oscillator(frequency=self.initial, startPhase=start, wave_func=WAVE_FUNCTIONS[self.spec[2]])
        if k == 'identity':
            return Oscillator(frequency=self.initial, startPhase=start, wave_func=identity)
        if k == 'lfo':
            return Lfo(frequency=self.initial, wave_func=WAVE_FUNCTIONS[self.spec[2]], shape=self.spec[3],
                       outputRange=tuple(self.spec[4]), startPhase=start)
        if k == 'pwm':
            return PwmOscillator(frequency=self.initial, dutyCycle=self.spec[2], startPhase=start)
        raise KeyError(k)

    def clone(self):
        other = Kind(self.spec, copy.deepcopy(self.block), self.ref.clone())
        other.freq = self.freq
        other.extra = dict(self.extra)
        require(other.block is not self.block, '%s: copy is the same block', self.spec)
        return other

    def set(self, freq):
        self.freq = freq
        self.block.frequency.set_value(freq)

    def update(self, what):
        """Next buffer of block against reference."""
        cycles = self.ref.step(self.freq)
        self.block.update()
        got = self.block.output.value
        if self.kind == 'phasor':
            check_wave(what, lambda c: np.mod(c, 1.) * TAU, np.array(cycles[0]), got, 0., TAU)
        elif self.kind == 'identity':
            check_wave(what, lambda c: np.mod(c, 1.) * TAU, cycles, got, 0., TAU)
        elif self.kind == 'osc':
            check_wave(what, lambda c: ref_wave(self.spec[2], c), cycles, got, -1., 1.)
        elif self.kind == 'lfo':
            lo, hi = self.spec[4]
            if self.spec[3] == 1:
                cycles = np.array(cycles[0])
            check_wave(what, lambda c: lo + (hi - lo) * (ref_wave(self.spec[2], c) + 1.) / 2., cycles, got,
                       min(lo, hi), max(lo, hi), 2e-5 * max(1., abs(hi - lo)))
        else:
            duty = self.extra.get('duty', self.spec[2])
            check_wave(what, lambda c: np.where(np.mod(c, 1.) < duty, 1., -1.), cycles, got, -1., 1.)


STARTS = (0., 2.5)


def kinds(quick):
    for start in STARTS:
        yield ['phasor', start]
        yield ['identity', start]
        for name in ('sine', 'square', 'sawtooth', 'triangle'):
            yield ['osc', start, name]
        for shape in (1, N):
            for rng in ((0, 1), (-20., -3.), (100., 20.)):
                for name in ('sine', 'triangle') if quick else ('sine', 'square', 'sawtooth', 'triangle'):
                    yield ['lfo', start, name, shape, list(rng)]
        for duty in (.5, .1):
            yield ['pwm', start, duty]


def freq_cases(tier):
    quick = tier == 'quick'
    for spec in kinds(quick):
        arrays = not (spec[0] == 'phasor' or (spec[0] == 'lfo' and spec[3] == 1))
        letters = tuple(FREQS) if arrays else SCALARS
        for first in letters:
            yield [spec, first]


def freq_run(case, ctx):
    """All sequences of frequencies, one per buffer, directly set or from a connected output."""
    spec, first = case
    arrays = not (spec[0] == 'phasor' or (spec[0] == 'lfo' and spec[3] == 1))
    letters = tuple(FREQS) if arrays else SCALARS
    depth = 3 if ctx.thorough else 2
    for connected in (False, True):
        for rest in itertools.product(letters, repeat=depth):
            k = Kind(spec)
            source = None
            if connected:
                source = Output()
                source.connect(k.block.frequency)
            hist = (first,) + rest + (rest[-1],)
            for i, letter in enumerate(hist):
                value = FREQS[letter]
                if isinstance(value, np.ndarray):
                    value = value.copy()
                keep = copy.copy(value)
                if connected:
                    source.set_value(value)
                    k.freq = value
                else:
                    k.set(value)
                k.update('%s %s, buffer %d' % (case, hist, i))
                require(np.array_equal(value, keep), '%s %s: frequency modified', case, hist)
                ctx.step()
                ctx.state(str(spec), round(k.ref.cycles, 6))
            ctx.trace()
    ctx.outcome(str(case))


DUTY_SWEEP = np.linspace(.05, .95, N)


def copy_cases(tier):
    quick = tier == 'quick'
    for spec in kinds(quick):
        arrays = not (spec[0] == 'phasor' or (spec[0] == 'lfo' and spec[3] == 1))
        yield [spec, ['a4', 'ramp' if arrays else 'beat', 'slow']]
        if not quick:
            yield [spec, ['high', 'tail' if arrays else 'int', 'dotted']]


def copy_run(case, ctx):
    """All histories of set / update / copy; original and copies get different frequencies afterwards."""
    spec, letters = case
    ops = ('update', 'copy') + tuple(letters) + (('duty', 'sweep') if spec[0] == 'pwm' else ())
    depth = 5 if ctx.thorough else 4
    for hist in itertools.product(ops, repeat=depth):
        if 'copy' not in hist:
            continue
        alive = [Kind(spec)]
        for i, op in enumerate(hist + ('update', 'update')):
            if op == 'copy':
                if len(alive) < 3:
                    alive.append(alive[-1].clone())
            elif op == 'update':
                for j, k in enumerate(alive):
                    k.update('%s %s, operation %d, copy %d' % (spec, hist, i, j))
            elif op in ('duty', 'sweep'):
                duty = .8 if op == 'duty' else DUTY_SWEEP.copy()
                alive[-1].block.dutyCycle.set_value(duty)
                alive[-1].extra['duty'] = duty
            else:
                alive[i % len(alive)].set(FREQS[op])
            ctx.step()
            ctx.state(str(spec), len(alive), tuple(round(k.ref.cycles, 6) for k in alive))
        ctx.trace()
    ctx.outcome(str(case))


def patched_cases(tier):
    for spec in kinds(tier == 'quick'):
        arrays = not (spec[0] == 'phasor' or (spec[0] == 'lfo' and spec[3] == 1))
        for letter in (tuple(FREQS) if arrays else SCALARS):
            yield [spec, letter]


def patched_run(case, ctx):
    """Oscillators whose inputs are patched: copied at any point, the copy goes on with what the original reads."""
    spec, letter = case
    for before in range(4):
        for other in ('a4', 'slow'):
            k = Kind(spec)
            source = Output()
            source.connect(k.block.frequency)
            source.set_value(FREQS['beat'])
            k.freq = FREQS['beat']
            if spec[0] == 'pwm':
                duty = Output()
                duty.connect(k.block.dutyCycle)
                k.extra['duty'] = DUTY_SWEEP if before % 2 else .8
                duty.set_value(k.extra['duty'])
            for i in range(before):
                k.update('%s, buffer %d' % (case, i))
            source.set_value(FREQS[letter])
            k.freq = FREQS[letter]
            c = k.clone()
            for i in range(3):
                for who, name in ((k, 'original'), (c, 'copy'))[::1 if i % 2 else -1]:
                    who.update('%s, copied while patched after %d buffers, %s buffer %d' % (case, before, name, i))
                ctx.step(2)
            require(k.block.frequency.connected and source.connected, '%s: copying unpatched the original', case)
            # The copy goes its own way
            if not c.block.frequency.connected:
                c.set(FREQS[other])
                for who, name in ((k, 'original'), (c, 'copy')):
                    who.update('%s, copied while patched after %d buffers, %s with own frequency' % (case, before, name))
            ctx.state(str(spec), letter, before, other)
            ctx.trace()
    ctx.outcome(str(case))


# -- Frequency modulation ---------------------------------------------------------

def fm_cases(tier):
    for start in STARTS:
        for name in ('sine', 'triangle'):
            for intensity in (0., 1., 5.):
                for modFreq in (10., 333.):
                    for first in ('a4', 'ramp', 'mod', 'copy', 'update'):
                        yield [start, name, intensity, modFreq, first]


def fm_run(case, ctx):
    """All histories of set frequency, set modulator frequency, copy and update."""
    start, name, intensity, modFreq, first = case
    ops = ('a4', 'ramp', 'beat', 'mod', 'copy', 'update')
    depth = 4 if ctx.thorough else 3
    for hist in itertools.product(ops, repeat=depth):
        block = FmOscillator(440., intensity, modFreq, WAVE_FUNCTIONS[name], start)
        alive = [[block, Ref(start), Ref(0.), 440., modFreq]]
        for i, op in enumerate((first,) + hist + ('update', 'update')):
            k = alive[i % len(alive)]
            if op == 'copy':
                if len(alive) < 3:
                    src = alive[-1]
                    alive.append([copy.deepcopy(src[0]), src[1].clone(), src[2].clone(), src[3], src[4]])
            elif op == 'mod':
                k[4] = 77. + i
                k[0].modulator.frequency.set_value(k[4])
            elif op == 'update':
                for j, a in enumerate(alive):
                    carrier = a[1].step(a[3])
                    mod = a[2].step(a[4])
                    a[0].update()
                    check_wave('%s %s, operation %d, copy %d' % (case, hist, i, j),
                               lambda c: ref_wave(name, c + intensity * ref_wave(name, mod) / TAU),
                               carrier, a[0].output.value, -1., 1., 1e-4)
            else:
                k[3] = FREQS[op]
                k[0].frequency.set_value(FREQS[op])
            ctx.step()
            ctx.state(str(case[:4]), i, tuple((round(a[1].cycles, 6), round(a[2].cycles, 6)) for a in alive))
        ctx.trace()
    ctx.outcome(str(case))


# -- Chirps -----------------------------------------------------------------------

def chirp_cycles(method, f0, T, f1, t):
    """Integral of the chirp's frequency; constant end frequency after T."""
    if T <= 0 or f0 == f1:
        return f1 * t
    x = np.minimum(t, T)
    if method == 'linear':
        c = f0 * x + (f1 - f0) * x * x / (2. * T)
    elif method == 'quadratic':
        c = f0 * x + (f1 - f0) * x ** 3 / (3. * T * T)
    elif method == 'logarithmic':
        r = f1 / f0
        c = f0 * T / math.log(r) * (r ** (x / T) - 1.)
    else:
        c = f0 * f1 * T / (f0 - f1) * np.log1p((f0 - f1) * x / (f1 * T))
    return c + f1 * (t - x)


def chirp_cases(tier):
    B = N / FS
    durations = (0., .3 * B, B, 1.5 * B, 2 * B, 3.9961 * B, 100 * B)
    if tier != 'quick':
        durations += (1. / FS, 255. / FS, 257. / FS, 2.999 * B, 5 * B)
    for method in ('linear', 'quadratic', 'logarithmic', 'hyperbolic'):
        for f0, f1 in ((100., 900.), (1000., 50.), (440., 440.)):
            for T in durations:
                for name in ('identity', 'sine', 'sawtooth'):
                    yield [method, f0, f1, T, name]


def chirp_run(case, ctx):
    """All histories of update / reset / copy."""
    method, f0, f1, T, name = case
    func = (lambda c: np.mod(c, 1.) * TAU) if name == 'identity' else (lambda c: ref_wave(name, c))
    if name == 'identity':
        t = np.arange(8 * N) / FS
        for vertex in (True, False):
            want = chirp_cycles(method, f0, T, f1, t)
            if not vertex and method == 'quadratic' and T > 0 and f0 != f1:
                x = np.minimum(t, T)
                want = f1 * x + (f1 - f0) * ((T - x) ** 3 - T ** 3) / (3. * T * T) + f1 * (t - x)
            got = chirp_phase(t, f0, T, f1, method=method, vertex_zero=vertex)
            require(np.abs(got / TAU - want).max() < 1e-6, '%s vertex %s: phase off by %g cycles', case, vertex, np.abs(got / TAU - want).max())
            for part in (t[:1], t[N:N + 2], t[-1:]):
                one = chirp_phase(part, f0, T, f1, method=method, vertex_zero=vertex)
                require(np.abs(one - got[np.round(part * FS).astype(int)]).max() < 1e-6, '%s: phase depends on the other times', case)
            ctx.step()
    depth = 6 if ctx.thorough else 5
    for hist in itertools.product(('update', 'reset', 'copy'), repeat=depth):
        block = Chirper(f0, T, f1, method=method,
                        wave_func=(lambda p: np.mod(p, TAU)) if name == 'identity' else WAVE_FUNCTIONS[name])
        alive = [[block, 0]]
        for i, op in enumerate(hist + ('update', 'update')):
            if op == 'reset':
                k = alive[i % len(alive)]
                k[0].reset()
                k[1] = 0
            elif op == 'copy':
                if len(alive) < 2:
                    alive.append([copy.deepcopy(alive[0][0]), alive[0][1]])
            else:
                for k in alive:
                    t = (k[1] * N + np.arange(N)) / FS
                    k[0].update()
                    check_wave('%s %s, operation %d' % (case, hist, i), func, chirp_cycles(method, f0, T, f1, t),
                               k[0].output.value, -1. if name != 'identity' else 0., 1. if name != 'identity' else TAU)
                    k[1] += 1
            ctx.step()
            ctx.state(str(case), tuple(k[1] for k in alive))
        ctx.trace()
    ctx.outcome(str(case))


# -- Clock signal -------------------------------------------------------------------

def clock_cases(tier):
    for duty in (.1, .5, .9):
        for edge in ('rising', 'falling'):
            for first in SCALARS:
                if first not in ('neg', 'zero'):
                    yield [duty, edge, first]


def clock_run(case, ctx):
    """All sequences of clock frequencies, with a copy taken at every point."""
    duty, edge, first = case
    letters = ('slow', 'a4', 'int', 'np', 'beat', 'dotted')
    for rest in itertools.product(letters, repeat=3 if not ctx.thorough else 4):
        for copyAt in range(0, len(rest) + 2):
            block = Clock(FREQS[first], dutyCycle=duty, edge=edge)
            alive = [[block, Ref(), FREQS[first]]]
            hist = (None,) + rest
            for i, letter in enumerate(hist):
                if i == copyAt:
                    alive.append([copy.deepcopy(alive[0][0]), alive[0][1].clone(), alive[0][2]])
                if letter:
                    alive[0][0].frequency.set_value(FREQS[letter])
                    alive[0][2] = FREQS[letter]
                for j, k in enumerate(alive):
                    cycles = k[1].step(k[2])
                    k[0].update()
                    check_wave('%s %s, buffer %d, copy %d' % (case, rest, i, j),
                               lambda c: np.where((np.mod(c, 1.) < duty) == (edge == 'rising'), 1., 0.),
                               cycles, k[0].output.value, 0., 1.)
                ctx.step()
                ctx.state(str(case), round(alive[0][1].cycles, 6))
            ctx.trace()
    ctx.outcome(str(case))


# -- Random wave form (only its range is declared), long runs -------------------------

def random_cases(tier):
    for cls in ('osc', 'lfo1', 'lfoN', 'fm'):
        for lo, hi in ((0, 1), (-3., 5.), (2., 1.)):
            yield [cls, lo, hi]


def random_run(case, ctx):
    cls, lo, hi = case
    func = WAVE_FUNCTIONS['random']
    block = {'osc': lambda: Oscillator(wave_func=func), 'fm': lambda: FmOscillator(wave_func=func),
             'lfo1': lambda: Lfo(wave_func=func, outputRange=(lo, hi)),
             'lfoN': lambda: Lfo(wave_func=func, outputRange=(lo, hi), shape=N)}[cls]()
    a, b = (-1, 1) if cls in ('osc', 'fm') else (min(lo, hi), max(lo, hi))
    for _ in range(50):
        block.update()
        y = np.asarray(block.output.value, dtype=float)
        require(y.shape == (() if cls == 'lfo1' else (N,)), '%s: shape %s', case, y.shape)
        require(y.min() >= a and y.max() <= b, '%s: leaves [%g, %g]', case, a, b)
        ctx.step()
    ctx.trace()
    ctx.state(*case)
    ctx.outcome(*case)


def drift_cases(tier):
    for spec in kinds(True):
        for letter in ('slow', 'a4', 'high', 'beat', 'ramp'):
            if letter == 'ramp' and (spec[0] == 'phasor' or (spec[0] == 'lfo' and spec[3] == 1)):
                continue
            yield [spec, letter]


def drift_run(case, ctx):
    """Many buffers at one frequency."""
    spec, letter = case
    k = Kind(spec)
    k.set(FREQS[letter])
    for i in range(400 if not ctx.thorough else 4000):
        k.update('%s, buffer %d' % (case, i))
        ctx.step()
        ctx.state(str(case), i)
    ctx.trace()
    ctx.outcome(str(case))


FAMILIES = [
    Family('frequencies', freq_cases, freq_run, lambda tier: (
        'phasor / oscillator (4 wave forms + raw phase) / LFO (scalar, full buffer, 3 ranges) / PWM x 2 start phases: all sequences of '
        '%d frequencies over 9 constants and note values and 3 per-sample arrays, set and connected' % (3 if tier == 'quick' else 4))),
    Family('copies', copy_cases, copy_run, lambda tier: 'same kinds: all histories of %d set / update / copy / duty cycle, up to 3 copies alive' % (4 if tier == 'quick' else 5)),
    Family('patched', patched_cases, patched_run, 'same kinds with patched frequency (all of the alphabet) and duty cycle, copied after 0-3 buffers'),
    Family('fm', fm_cases, fm_run, lambda tier: 'FM oscillators: all histories of %d set / modulator / copy / update' % (4 if tier == 'quick' else 5)),
    Family('chirps', chirp_cases, chirp_run, lambda tier: '4 methods x up / down / constant x durations around buffer boundaries: all histories of %d update / reset / copy' % (5 if tier == 'quick' else 6)),
    Family('clock', clock_cases, clock_run, 'duty cycles x edges: all sequences of 3 (4) frequency changes, copied at every point'),
    Family('random', random_cases, random_run, 'random wave form: range over 50 buffers'),
    Family('drift', drift_cases, drift_run, '400 (4000) buffers at one frequency for every kind'),
]
ASSUMPTIONS = [
    'phases are compared to 1e-7 cycles (2e-5 in amplitude); discontinuities of a wave form may fall on either side within that',
    'per-sample frequency arrays are used with the audio rate oscillators only; start phases lie in [0, 2 pi)',
]
