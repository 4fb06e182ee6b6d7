"""P25: audio effects as stream processors. All short histories of buffers and parameter changes against sample-wise references."""
import functools
import itertools
import math

import numpy as np
import scipy.signal

from mc import Family, require, sequences
from klang.audio import effects
from klang.audio.filters import BackwardCombFilter, EchoFilter, ForwardCombFilter
from klang.audio.waves import sine, square
from klang.config import BUFFER_SIZE, SAMPLING_RATE
from klang.constants import TAU

N = BUFFER_SIZE
_rng = [((n * 7919 + n * n * 31) % 1009) / 504.5 - 1. for n in range(4 * N)]
_late = [0.] * N
_late[N - 2] = 1.
SIGNALS = {
    'imp': _late,
    'noise': _rng[:N],
    'noise2': _rng[N:2 * N],
    'ones': [1.] * N,
    'zero': [0.] * N,
    'ramp': [n / N - .5 for n in range(N)],
}
STEREO = {
    'noise|noise2': ('noise', 'noise2'), 'imp|zero': ('imp', 'zero'), 'zero|noise': ('zero', 'noise'), 'ones|imp': ('ones', 'imp'),
    'noise|noise': ('noise', 'noise'), 'zero|imp': ('zero', 'imp'),
}


def samples(name):
    """Fresh audio buffer, mono or stereo."""
    if name in STEREO:
        return np.array([SIGNALS[c] for c in STEREO[name]])
    return np.array(SIGNALS[name])


def channels(name):
    """Samples per channel."""
    return [SIGNALS[c] for c in STEREO[name]] if name in STEREO else [SIGNALS[name]]


def drive(what, block, history, setup, tol, reference, ctx, output=None, given=False):
    """Play history [(signal, parameters)] through block, compare with reference(history) -> per buffer list of channels.

    given: block has been constructed with the first parameters, those are not set again in every other history.
    """
    got, ins = [], []
    given = given and sum(map(ord, str(history))) % 2
    for signal, params in history:
        if not given or params != history[0][1] or ins and params != history[len(ins) - 1][1]:
            setup(block, params)
        x = samples(signal)
        ins.append((signal, x))
        block.input.set_value(x)
        block.update()
        y = (output or block.output).value
        got.append((y, np.array(y)))
        ctx.step()
    for (signal, x), i in zip(ins, itertools.count()):
        require(np.array_equal(x, samples(signal)), '%s %s: input buffer %d was modified', what, history, i)
    want = reference(history)
    for i, ((y, copy), w) in enumerate(zip(got, want)):
        require(np.array_equal(y, copy), '%s %s: output buffer %d was overwritten later', what, history, i)
        w = np.array(w) if len(history[i][0].split('|')) > 1 else np.array(w[0])
        require(copy.shape == w.shape, '%s %s: output buffer %d has shape %s', what, history, i, copy.shape)
        error = np.abs(copy - w)
        worst = float(error.max())
        require(worst <= tol, '%s %s: buffer %d, sample %d is off by %.3g', what, history, i, int(error.argmax()) % N, worst)
    ctx.trace()
    ctx.state(what, str(history))


# Filter

butter = functools.lru_cache(maxsize=None)(scipy.signal.butter)

FREQS = [150., 2500., 15000., 21000., 5.]
DESIGNS = {'low': dict(), 'high': dict(btype='highpass'), 'first': dict(N=1)}
_coeffs = {}


def coefficients(design, frequency):
    """Difference equation of a filter, from the impulse response of a fresh block."""
    key = design, frequency
    if key not in _coeffs:
        fil = effects.Filter(frequency=frequency, design_func=butter, **DESIGNS[design])
        x = np.zeros(4096)
        x[0] = 1.
        fil.input.set_value(x)
        fil.update()
        h = fil.output.value
        order = DESIGNS[design].get('N', 2)
        rows = np.array([h[order + 1 - i:1000 - i] for i in range(1, order + 1)]).T
        a = np.linalg.lstsq(rows, -h[order + 1:1000], rcond=None)[0]
        full = [1.] + [float(v) for v in a]
        b = [float(sum(full[j] * h[i - j] for j in range(i + 1))) for i in range(order + 1)]
        # This is the whole response
        y = transposed_run(b, full, [0.] * order, [1.] + [0.] * 1999)
        require(max(abs(float(u) - v) for u, v in zip(h, y)) < 1e-7, '%s filter at %s Hz is not of order %d', design, frequency, order)
        _coeffs[key] = b, full
    return _coeffs[key]


def transposed_run(b, a, state, x):
    """Transposed direct form II. Changes state."""
    y = []
    n = len(state)
    for v in x:
        out = b[0] * v + state[0]
        for i in range(n - 1):
            state[i] = b[i + 1] * v - a[i + 1] * out + state[i + 1]
        state[n - 1] = b[n] * v - a[n] * out
        y.append(out)
    return y


def filter_reference(design):
    order = DESIGNS[design].get('N', 2)

    def reference(history):
        states = [[0.] * order for _ in range(2)]
        out = []
        for signal, frequency in history:
            b, a = coefficients(design, frequency)
            out.append([transposed_run(b, a, state, x) for x, state in zip(channels(signal), states)])
        return out

    return reference


def set_frequency(block, frequency):
    block.inputs[1].set_value(frequency)


def filter_cases(tier):
    for design in DESIGNS:
        for signal in ('imp', 'noise', 'ones'):
            for f in FREQS:
                yield [design, 'mono', signal, f]
        for signal in ('noise|noise2', 'imp|zero', 'zero|noise', 'noise'):
            for f in FREQS[:2]:
                yield [design, 'stereo', signal, f]


def filter_run(case, ctx):
    design, layout, signal, f = case
    if layout == 'mono':
        alphabet = [(s, g) for s in ('noise', 'zero', 'imp') for g in (FREQS if ctx.thorough else FREQS[:3])]
    else:
        alphabet = [(s, g) for s in ('noise|noise2', 'imp|zero', 'zero|imp', 'noise', 'zero') for g in FREQS[:2]]
    for rest in sequences(alphabet, 3 if ctx.thorough and layout == 'mono' else 2):
        history = ((signal, f),) + tuple(rest)
        given = sum(map(ord, str(history))) % 3
        block = effects.Filter(frequency=f if given else 1000., design_func=butter, **DESIGNS[design])
        drive('%s filter' % design, block, history, set_frequency, 1e-5, filter_reference(design), ctx, given=given)
    ctx.outcome(*case)


def cutoff_cases(tier):
    for design in DESIGNS:
        for i in range(24 if tier == 'quick' else 120):
            yield [design, i, 24 if tier == 'quick' else 120]


def cutoff_run(case, ctx):
    """The response at the wanted cutoff frequency is -3 dB, and flat / silent far from it."""
    design, i, n = case
    f = 30. * (19000. / 30.) ** (i / (n - 1.))
    length = 1 << 16
    # Directly, with a jump and after a slow sweep from above or below
    sweep = [f * (1. + 2e-4) ** (j if i % 2 else -j) for j in range(1000, -1, -1)]
    direct = None
    for route in ([f], [440., f], sweep, [f * 1.01, f], [f * .99, f], [f + .9, f], [f - .9, f], [f + .4 * j for j in range(20, -1, -1)], [f, 440., f]):
        fil = effects.Filter(frequency=route[0], design_func=butter, **DESIGNS[design])
        for step in route[:-1]:
            fil.inputs[1].set_value(step)
            fil.input.set_value(np.zeros(N))
            fil.update()
        fil.inputs[1].set_value(route[-1])
        x = np.zeros(length)
        x[0] = 1.
        fil.input.set_value(x)
        fil.update()
        h = fil.output.value
        if direct is None:
            direct = h
        require(np.abs(h - direct).max() < 1e-9, '%s filter at %.2f Hz depends on the cutoffs before (%s ...)', design, f, route[:3])
        k = np.arange(length)

        def gain(freq):
            return abs(complex(np.sum(h * np.cos(TAU * freq / SAMPLING_RATE * k)), np.sum(h * np.sin(TAU * freq / SAMPLING_RATE * k))))

        want = 1 / math.sqrt(2)
        require(abs(gain(f) - want) < .02, '%s filter: gain %.4f at its cutoff %.1f Hz', design, gain(f), f)
        through, stopped = (0., SAMPLING_RATE / 2.) if design != 'high' else (SAMPLING_RATE / 2., 0.)
        require(abs(gain(through) - 1.) < 1e-3, '%s filter at %.1f Hz: gain %.4f in the pass band', design, f, gain(through))
        require(gain(stopped) < 1e-2, '%s filter at %.1f Hz: gain %.4f in the stop band', design, f, gain(stopped))
        ctx.step()
    ctx.state(*case)
    ctx.trace()
    ctx.outcome(design, i)


# Reverb

ECHOS = {'back': BackwardCombFilter, 'forward': ForwardCombFilter, 'echo': EchoFilter}
ROOMS = [(1.5, .03, .7, 10), (.2, .0001, 1., 3), (.05, .004, .5, 4), (0., .001, .8, 2), (.5, .0058, 0., 2), (3., .006, 2., 1), (.3, .02, -1., 2), (1., 0., 1., 5)]


def is_prime(n):
    return n > 1 and all(n % d for d in range(2, int(n ** .5) + 1))


def taps(preDelay, n):
    k = int(preDelay * SAMPLING_RATE)
    out = []
    while len(out) < n:
        if is_prime(k):
            out.append(k)
        k += 1
    return out


def echo_reference(kind, k, alpha, x):
    if kind == 'forward':
        return [v + (alpha * x[n - k] if n >= k else 0.) for n, v in enumerate(x)]
    y = []
    if kind == 'back':
        for n, v in enumerate(x):
            y.append(v + (alpha * y[n - k] if n >= k else 0.))
        return y
    w = []
    for n, v in enumerate(x):
        y.append(w[n - k] if n >= k else 0.)
        w.append(v + alpha * y[n])
    return y


def reverb_reference(room, kind):
    decay, preDelay, _, nEchos = room

    def reference(history):
        x = [v for signal, _ in history for v in SIGNALS[signal]]
        wets = [echo_reference(kind, k, math.exp(-math.pi * k / SAMPLING_RATE / decay) if decay > 0 else 0., x) for k in taps(preDelay, nEchos)]
        out = []
        for i, (_, mix) in enumerate(history):
            out.append([[(1. - mix) * x[n] + mix * sum(w[n] for w in wets) / nEchos for n in range(i * N, (i + 1) * N)]])
        return out

    return reference


def reverb_cases(tier):
    for i in range(len(ROOMS)):
        for kind in ECHOS:
            for signal in ('imp', 'noise', 'ones'):
                yield [i, kind, signal]


def set_mix(block, mix):
    block.dryWet = mix


def reverb_run(case, ctx):
    i, kind, signal = case
    room = ROOMS[i]
    decay, preDelay, dryWet, nEchos = room
    kwargs = {} if kind == 'back' and i == 0 else dict(decay=decay, preDelay=preDelay, dryWet=dryWet, nEchos=nEchos, echoType=ECHOS[kind])
    what = 'reverb %s %s' % (room, kind)
    mix = min(max(dryWet, 0.), 1.)
    alphabet = ['noise', 'zero', 'imp', 'ramp'] if ctx.thorough else ['noise', 'zero', 'imp']
    for rest in sequences(alphabet, 4 if ctx.thorough else 2):
        history = [(s, mix) for s in (signal,) + tuple(rest)]
        drive(what, effects.Reverb(**kwargs), history, lambda block, params: None, 1e-9, reverb_reference(room, kind), ctx)
    for mixes in itertools.product((0., 1., .3), repeat=3):
        history = list(zip((signal, 'noise', 'zero'), mixes))
        drive(what, effects.Reverb(**{**kwargs, 'dryWet': mixes[0]}), history, set_mix, 1e-9, reverb_reference(room, kind), ctx, given=True)
    ctx.outcome(*case)


# Tremolo and ring modulator

TREMOLO = [(93.7, .8, 1., .5), (93.7, 0., .5, .5), (411.3, 1., 0., .25), (17.3, .5, .1, .8), (93.7, .8, 1., .3)]


def pulse(phases, duty):
    for p in phases:
        require(min(abs(p % 1. - duty), p % 1., 1 - p % 1.) > 1e-7 or p == 0., 'reference too close to an edge')
    return [1. if p % 1. < duty else -1. for p in phases]


def tremolo_reference(history):
    phase = 0.
    last = 0.
    out = []
    for signal, (rate, depth, smoothness, duty) in history:
        pwm = pulse([phase + rate * n / SAMPLING_RATE for n in range(N)], duty)
        phase += rate * N / SAMPLING_RATE
        decay = max(1e-6, smoothness * min(duty, 1. - duty))
        a = -math.exp(-TAU / decay / SAMPLING_RATE)
        smooth = []
        for v in pwm:
            last = (1. + a) * v - a * last
            smooth.append(last)
        env = [1. - depth + depth * (.5 + .5 * s) for s in smooth]
        require(all(1. - depth - 1e-9 <= e <= 1. + 1e-9 for e in env), 'reference')
        out.append([[e * v for e, v in zip(env, x)] for x in channels(signal)])
    return out


def set_tremolo(block, params):
    for input_, value in zip(block.inputs[1:], params):
        input_.set_value(value)


def tremolo_cases(tier):
    for i in range(len(TREMOLO)):
        for signal in ('ones', 'noise', 'ones|imp'):
            yield [i, signal]


def tremolo_run(case, ctx):
    i, signal = case
    alphabet = [(s, p) for s in ('ones', 'noise') for p in TREMOLO]
    for rest in sequences(alphabet, 3 if ctx.thorough else 2):
        history = ((signal, TREMOLO[i]),) + tuple(rest)
        drive('tremolo', effects.Tremolo(*TREMOLO[i]), history, set_tremolo, 1e-7, tremolo_reference, ctx, given=True)
    ctx.outcome(*case)


RINGS = [(500., 21.3, 20., 1.), (303.1, 93.7, 100., .4), (500., 93.7, 0., 0.), (1000., 21.3, 250., 1.)]


def ring_reference(history):
    lfo = 0.
    mod = 0.
    out = []
    for signal, (frequency, rate, amount, mix) in history:
        wave = [1. if (lfo + rate * n / SAMPLING_RATE) % 1. < .5 else -1. for n in range(N)]
        lfo += rate * N / SAMPLING_RATE
        am = []
        for w in wave:
            am.append(math.sin(TAU * mod))
            mod += (frequency + amount * w) / SAMPLING_RATE
        out.append([[(1. - mix) * v + mix * v * m for v, m in zip(x, am)] for x in channels(signal)])
    return out


def ring_cases(tier):
    for i in range(len(RINGS)):
        for signal in ('ones', 'noise', 'ones|imp'):
            yield [i, signal]


def ring_run(case, ctx):
    i, signal = case
    alphabet = [(s, p) for s in ('ones', 'noise') for p in RINGS]
    frequency, rate, amount, mix = RINGS[i]
    for rest in sequences(alphabet, 3 if ctx.thorough else 2):
        history = ((signal, RINGS[i]),) + tuple(rest)
        block = effects.RingModulator(frequency=frequency, rate=rate, amount=amount, wave_func=square, dryWet=mix)
        drive('ring modulator', block, history, set_tremolo, 1e-6, ring_reference, ctx, given=True)
    ctx.outcome(*case)


# Effects without memory

def crushed(nBits):
    def f(x):
        i = int(min(max(x, -1.), 1.) * 32767)
        return (i >> nBits << nBits) / 32767.

    return f


def pointwise(f):
    return lambda history: [[[f(params)(v) for v in x] for x in channels(signal)] for signal, params in history]


def set_attribute(name):
    return lambda block, value: setattr(block, name, value)


def held(history):
    return [[[x[n - n % factor] for n in range(N)] for x in channels(signal)] for signal, factor in history]


STATELESS = {
    'gain': (lambda p: effects.Gain(p), set_frequency, [0., .5, -2.], pointwise(lambda g: lambda v: g * v), 1e-12),
    'octave': (lambda p: effects.OctaveDistortion(), lambda b, p: None, [None], pointwise(lambda g: lambda v: 2. * v * v - 1.), 1e-12),
    'tanh': (lambda p: effects.TanhDistortion(p), set_attribute('drive'), [1., 7., .1], pointwise(lambda g: lambda v: math.tanh(g * v)), 1e-12),
    'crush': (lambda p: effects.Bitcrusher(p), set_attribute('nBits'), [0, 4, 13, 15], pointwise(crushed), 2.5 / 32767),
    'subsample': (lambda p: effects.Subsampler(p), set_attribute('factor'), sorted(effects.Subsampler.VALID_FACTORS), held, 0.),
    'scale': (lambda p: effects.Transformer(*p), lambda b, p: (setattr(b, 'scale', p[0]), setattr(b, 'offset', p[1])), [(1., 0.), (-3., .5)], pointwise(lambda g: lambda v: g[0] * v + g[1]), 1e-12),
}


def stateless_cases(tier):
    for name in STATELESS:
        yield [name]


def stateless_run(case, ctx):
    name, = case
    make, setup, params, reference, tol = STATELESS[name]
    alphabet = [(s, p) for s in ('noise', 'imp', 'noise|noise2', 'ones|imp') for p in params]
    if name == 'crush':
        crush_levels(ctx)
    for history in sequences(alphabet, (3 if len(alphabet) < 14 else 2) + (1 if ctx.thorough and len(alphabet) < 24 else 0)):
        drive(name, make(history[0][1]), history, setup, tol, reference, ctx, given=True)
    ctx.outcome(name)


def crush_levels(ctx):
    """nBits of 16 are lost: every sample moves down by less than 2^nBits steps, onto multiples of it, and order is kept."""
    x = np.arange(-32767, 32768, 1 if ctx.thorough else 7) / 32767.
    for nBits in range(16):
        block = effects.Bitcrusher(nBits)
        got = []
        for start in range(0, len(x), N):
            block.input.set_value(x[start:start + N].copy())
            block.update()
            got.extend(block.output.value)
        levels = np.array(got) * 32767.
        size = 1 << nBits
        diff = x * 32767. - levels
        require(diff.min() > -1.6 and diff.max() < size + 1.6, 'crushing %d bits moves samples by %s..%s steps', nBits, diff.min(), diff.max())
        require((np.diff(levels) >= -1e-6).all(), 'crushing %d bits changes the order', nBits)
        distinct = len(set(np.round(levels, 3)))
        want = 65536 // size
        require(distinct <= want + 1, 'crushing %d bits leaves %d levels', nBits, distinct)
        require(distinct >= min(want, len(x)) * .95 - 1, 'crushing %d bits leaves only %d levels', nBits, distinct)
        ctx.state(nBits)
        ctx.step()


def range_cases(tier):
    values = [-2., -1., 0., .5, 1., 20., 440.]
    for lo, hi in itertools.permutations(values, 2):
        yield [lo, hi]


def range_run(case, ctx):
    """Transformers map the ends of their input range onto the ends of their output range, for scalars and audio."""
    lo, hi = case
    made = []
    if lo < hi:
        made.append((effects.Transformer.from_limits(lo, hi), (0., 1.), (lo, hi)))
        made.append((effects.Transformer.from_limits_2(lo, hi), (-1., 1.), (lo, hi)))
    for y in ((0., 1.), (-1., 1.), (5., -3.), (100., 8000.)):
        made.append((effects.Transformer.from_ranges((lo, hi), y), (lo, hi), y))
    for block, (x0, x1), (y0, y1) in made:
        for t in (0., .25, .5, 1.):
            for x in (x0 + t * (x1 - x0), np.full(N, x0 + t * (x1 - x0))):
                block.input.set_value(x)
                block.update()
                want = y0 + t * (y1 - y0)
                require(np.shape(block.output.value) == np.shape(x), '%s: shape', case)
                got = float(np.ravel(block.output.value)[-1])
                require(abs(got - want) < 1e-7, '(%s, %s) to (%s, %s): %s goes to %s instead of %s', x0, x1, y0, y1, x0 + t * (x1 - x0), got, want)
                ctx.step()
        ctx.state(x0, x1, y0, y1)
    ctx.trace()
    ctx.outcome(*case)


def modulated_cases(tier):
    for a in ('ramp', 'noise', 'imp', 'ones'):
        yield [a]


def modulated_run(case, ctx):
    """Audio rate gains, and audio to and from single channels in every order."""
    a, = case
    for b, signal in itertools.product(('ramp', 'noise', 'zero'), ('noise', 'imp', 'noise|noise2')):
        history = [(signal, a), ('noise', b), (signal, b)]
        drive('modulated gain', effects.Gain(), history, lambda block, p: block.inputs[1].set_value(samples(p)), 1e-12,
              lambda hist: [[[g * v for g, v in zip(SIGNALS[p], x)] for x in channels(s)] for s, p in hist], ctx)
    names = ['noise', 'imp', 'noise|noise2', 'imp|zero', 'zero|noise', 'ones|imp']
    for nOutputs in (1, 2):
        for history in itertools.product([n for n in names if nOutputs == 2 or n in SIGNALS], repeat=3):
            history = (history[0], a) + history[1:]
            splitter = effects.AudioSplitter(nOutputs)
            combiner = effects.AudioCombiner(nOutputs)
            for out, in_ in zip(splitter.outputs, combiner.inputs):
                out.connect(in_)
            log = []
            for name in history:
                x = samples(name)
                splitter.input.set_value(x)
                splitter.update()
                for c, out in enumerate(splitter.outputs):
                    want = channels(name)[c if name in STEREO else 0]
                    require(np.array_equal(out.value, want), 'splitter %s: channel %d', history, c)
                combiner.update()
                y = combiner.output.value
                want = np.array([channels(name)[c if name in STEREO else 0] for c in range(nOutputs)])
                require(np.array_equal(y, want), 'combiner %s: buffer %d', history, len(log))
                require(np.array_equal(x, samples(name)), 'splitter %s: input was modified', history)
                log.append((y, want))
                ctx.step()
            for i, (y, want) in enumerate(log):
                require(np.array_equal(y, want), 'combiner %s: output buffer %d was overwritten later', history, i)
            ctx.trace()
            ctx.state(nOutputs, history)
    for values in itertools.product((0., 1., -.5), repeat=3):
        combiner = effects.AudioCombiner(3)
        for input_, v in zip(combiner.inputs, values):
            input_.set_value(v)
        combiner.update()
        require(np.array_equal(combiner.output.value, np.array([[v] * N for v in values])), 'combiner: constant channels %s', values)
        ctx.step()
    ctx.outcome(a)


def pairs_cases(tier):
    for i in range(len(INSTANCES)):
        yield [i]


INSTANCES = [
    ('filter', lambda: effects.Filter(frequency=300., design_func=butter)), ('reverb', lambda: effects.Reverb(.2, .0005, .7, 3)), ('tremolo', lambda: effects.Tremolo(93.7)),
    ('ring', lambda: effects.RingModulator()), ('subsampler', lambda: effects.Subsampler(4)), ('crusher', lambda: effects.Bitcrusher(8)),
    ('gain', lambda: effects.Gain(.5)), ('tanh', lambda: effects.TanhDistortion(3.)),
]


def pairs_run(case, ctx):
    """Two instances side by side, in all interleavings of their updates, give what each gives alone."""
    name, make = INSTANCES[case[0]]
    streams = (('noise', 'imp', 'zero'), ('ramp', 'ones', 'noise2'))

    def alone(stream):
        block = make()
        out = []
        for s in stream:
            block.input.set_value(samples(s))
            block.update()
            out.append(np.array(block.output.value))
        return out

    want = [alone(s) for s in streams]
    for order in set(itertools.permutations((0, 0, 0, 1, 1, 1))):
        blocks = [make(), make()]
        pos = [0, 0]
        for who in order:
            i = pos[who]
            blocks[who].input.set_value(samples(streams[who][i]))
            blocks[who].update()
            require(np.allclose(blocks[who].output.value, want[who][i], rtol=0, atol=1e-12), '%s: instances influence each other: %s', name, order)
            pos[who] += 1
            ctx.step()
        ctx.state(name, order)
        ctx.trace()
    ctx.outcome(name)


SHIFTS = [2., .5, 1., 1.5, .75]


def shifter_cases(tier):
    for shift in SHIFTS:
        for mode in ('sinc_fastest', 'linear') + (('sinc_best',) if tier == 'thorough' else ()):
            yield [shift, mode]


def shifter_run(case, ctx):
    """Granular: what it adds is not specified sample by sample, but where the energy goes, and how it is mixed, is."""
    shift, mode = case

    def play(history, default=None):
        """[(signal, dryWet)] -> inputs, outputs."""
        block = effects.PitchShifter(shift, history[0][1], mode) if (shift, mode) != (2., 'sinc_fastest') else effects.PitchShifter(dryWet=history[0][1])
        log = []
        for n, (signal, mix) in enumerate(history):
            if n and history[n - 1][1] != mix:
                block.dryWet = mix
            x = samples(signal) if isinstance(signal, str) else np.array(signal)
            keep = x.copy()
            block.input.set_value(x)
            block.update()
            y = block.output.value
            require(np.shape(y) == (N,) and np.isfinite(y).all(), 'pitch shifter %s %s: output of shape %s', case, n, np.shape(y))
            log.append((x, keep, y, np.array(y)))
            ctx.step()
        for n, (x, keep, y, copy) in enumerate(log):
            require(np.array_equal(x, keep), 'pitch shifter %s: input buffer %d was modified', case, n)
            require(np.array_equal(y, copy), 'pitch shifter %s: output buffer %d was overwritten later', case, n)
        ctx.trace()
        return [entry[3] for entry in log]

    names = ['noise', 'imp', 'zero', 'ramp']
    for signals in itertools.product(names, repeat=4 if ctx.thorough else 3):
        wet = play([(s, 1.) for s in signals])
        if set(signals) == {'zero'}:
            require(not np.any(wet), 'pitch shifter %s: sound out of silence', case)
        for mixes in itertools.product((0., .5, 1., .1), repeat=len(signals)):
            if not ctx.thorough and sum(map(ord, str((signals, mixes)))) % 4:
                continue
            got = play(list(zip(signals, mixes)))
            for n, (s, mix, w, y) in enumerate(zip(signals, mixes, wet, got)):
                want = (1. - mix) * np.array(SIGNALS[s]) + mix * w
                require(np.abs(y - want).max() < 1e-6, 'pitch shifter %s %s %s: buffer %d is not the mix of dry and shifted', case, signals, mixes, n)
            ctx.state(shift, mode, signals, mixes)
    # Tones move by the ratio, loudness does not grow, and it gets silent again
    for k in (8, 12, 20):
        for amplitude in (1., .25):
            tone = [amplitude * math.sin(TAU * k * n / N) for n in range(N)]
            out = play([(tone, 1.)] * 80 + [('zero', 1.)] * 20)
            y = np.concatenate(out[16:80])
            spectrum = np.abs(np.fft.rfft(y * np.hanning(len(y))))
            peak = np.argmax(spectrum) * SAMPLING_RATE / len(y)
            want = k * SAMPLING_RATE / N * shift
            require(abs(peak - want) < .02 * want, 'pitch shifter %s: tone of %.1f Hz goes to %.1f Hz', case, k * SAMPLING_RATE / N, peak)
            require(.8 * amplitude < np.abs(y).max() < 1.2 * amplitude, 'pitch shifter %s: amplitude %s becomes %s', case, amplitude, np.abs(y).max())
            require(np.abs(out[-1]).max() < 1e-3, 'pitch shifter %s: goes on after its input has ended', case)
            ctx.state(shift, mode, k, amplitude)
    # Side by side
    alone = [play([(s, 1.) for s in stream]) for stream in (('noise', 'imp', 'ramp'), ('ramp', 'noise2', 'noise'))]
    for order in sorted(set(itertools.permutations((0, 0, 0, 1, 1, 1)))):
        blocks = [effects.PitchShifter(shift, 1., mode) for _ in range(2)]
        pos = [0, 0]
        for who in order:
            blocks[who].input.set_value(samples((('noise', 'imp', 'ramp'), ('ramp', 'noise2', 'noise'))[who][pos[who]]))
            blocks[who].update()
            require(np.abs(blocks[who].output.value - alone[who][pos[who]]).max() < 1e-9, 'pitch shifters influence each other %s %s', case, order)
            pos[who] += 1
        ctx.trace()
    ctx.outcome(*case)


FAMILIES = [
    Family('filter', filter_cases, filter_run, lambda tier: 'all histories of 3%s buffers with frequency changes, low and high pass and first order, mono and stereo' % ('' if tier == 'quick' else ' (mono: 4)'), timeout=600.),
    Family('cutoff', cutoff_cases, cutoff_run, lambda tier: '%d cutoff frequencies between 30 Hz and 19 kHz, reached directly, with jumps, by a small step or after slow sweeps of up to 1000 buffers; the response must be the same' % (24 if tier == 'quick' else 120)),
    Family('reverb', reverb_cases, reverb_run, lambda tier: '8 rooms, 3 echo types, all histories of %d buffers and all dry / wet histories of 3' % (3 if tier == 'quick' else 5), timeout=600.),
    Family('tremolo', tremolo_cases, tremolo_run, lambda tier: 'all histories of %d buffers over 5 settings, mono and stereo' % (3 if tier == 'quick' else 4)),
    Family('ring', ring_cases, ring_run, lambda tier: 'all histories of %d buffers over 4 settings, mono and stereo' % (3 if tier == 'quick' else 4)),
    Family('stateless', stateless_cases, stateless_run, 'gain, distortions, bit crusher (all levels), sub-sampler (all factors), transformer: all histories of 2-3 buffers and parameters, mono and stereo', timeout=600.),
    Family('ranges', range_cases, range_run, 'transformers for all pairs of 7 limits'),
    Family('channels', modulated_cases, modulated_run, 'audio rate gains; splitter and combiner over all histories of 4 buffers out of 6'),
    Family('shifter', shifter_cases, shifter_run, lambda tier: 'pitch shifter: %d settings, all histories of %d buffers and dry / wet mixes%s, 3 tones at 2 levels, all 20 interleavings of two' % ((10, 3, ' (a quarter of them)') if tier == 'quick' else (15, 4, '')), timeout=600.),
    Family('instances', pairs_cases, pairs_run, 'all 20 interleavings of two instances of every effect'),
]
ASSUMPTIONS = [
    'filters are handed over between buffers as transposed direct form II, their difference equation is identified from the impulse response of a fresh filter',
    'the filter quantises its cutoff by less than 1 %; 2 channels at most; reverb is mono',
    'pitch shifter is granular: only its mixing, the place of the strongest partial, loudness and silence are specified, not its samples; delays are P07',
]
