"""P07: ring buffers and delay blocks against a plain list of everything ever written."""
import itertools
from fractions import Fraction

import numpy as np

from mc import Family, require, expect_raises, sequences
from klang.audio.effects import Delay, StereoDelay
from klang.block import Block
from klang.connections import Input, Output
from klang.ring_buffer import RingBuffer

SR = 44100
N = 256


class Line:
    """Reference: remembers everything."""

    def __init__(self, length, nChannels):
        self.hist = []
        self.length = length
        self.zero = 0. if nChannels == 1 else [0.] * nChannels

    def read(self, n):
        """The next n samples (n <= length) the line returns."""
        k = len(self.hist)
        return [self.hist[k + i - self.length] if k + i >= self.length else self.zero for i in range(n)]

    def write(self, values):
        self.hist.extend(values)


def new_values(k, n, nChannels):
    if nChannels == 1:
        return [float(k + i + 1) for i in range(n)]
    return [[float(k + i + 1) + 1000. * c for c in range(nChannels)] for i in range(n)]


def apply_op(case, ring, line, op, nChannels, count):
    """One operation on both. Returns number of samples."""
    kind, n = op
    vals = new_values(count, n, nChannels)
    want = line.read(n)
    if kind == 'a':
        got = np.array(ring.peek(1))
        ring.append(vals[0] if nChannels == 1 else np.array(vals[0]))
    elif kind == 'e':
        got = np.array(ring.peek(n))
        ring.extend(vals if count % 2 else np.array(vals))
    else:
        src = np.array(vals)
        keep = src.copy()
        got = ring.peek_extend(src)
        require((src == keep).all(), '%s: values handed in were modified', case)
        saved = got.copy()
    require(got.tolist() == want, '%s: after %d samples %s read %s, expected %s', case, count, op, got.tolist(), want)
    line.write(vals)
    full = min(line.length, ring.bufferSize)
    view = np.array(ring.peek())[:full].tolist()
    require(view == line.read(full), '%s: after %s (%d samples) peek is %s, expected %s', case, op, count + n, view, line.read(full))
    if kind == 'p':
        require((got == saved).all(), '%s: returned samples changed afterwards', case)
    return n


def op_alphabet(length, bufferSize):
    top = min(length, bufferSize)
    return [('a', 1)] + [(k, n) for n in range(1, top + 1) for k in 'pe' if not (n > 2 and k == 'e' and n < top)]


def ring_cases(tier):
    quick = tier == 'quick'
    for length in range(1, 7 if quick else 9):
        for bufferSize in range(1, 6 if quick else 8):
            for nChannels in (1, 2):
                for extra in (0, 3):
                    ops = op_alphabet(length, bufferSize)
                    depth = 4 if quick else 5
                    if nChannels == 2 or extra:
                        depth -= 1
                    for head in sequences(range(len(ops)), depth):
                        # all heads, then one fixed long tail over every alignment
                        yield [length, bufferSize, nChannels, extra, list(head)]


def ring_run(case, ctx):
    length, bufferSize, nChannels, extra, head = case
    ops = op_alphabet(length, bufferSize)
    ring = RingBuffer(length, length + extra if extra else None, bufferSize=bufferSize, nChannels=nChannels)
    line = Line(length, nChannels)
    count = 0
    tail = [head[-1], head[0]] * ((length + bufferSize) // 2 + 1)
    for i in list(head) + tail:
        count += apply_op(case, ring, line, ops[i], nChannels, count)
        ctx.step()
    before = np.array(ring.peek()).tolist()
    require(expect_raises(ring.extend, new_values(0, bufferSize + 1, nChannels)), '%s: too many samples were accepted', case)
    require(np.array(ring.peek()).tolist() == before, '%s: refused samples changed the content', case)
    ctx.state(length, bufferSize, nChannels, extra, count % length, tuple(head))
    ctx.trace()
    ctx.outcome(length, bufferSize, tuple(map(str, before)))


def long_cases(tier):
    """Sizes like in practice; every pair of alternating chunk sizes."""
    chunks = [1, 2, 3, 63, 64, 65, 100, 127, 128, 129, 255, 256]
    for length in [1, 2, 63, 64, 65, 128, 255, 256, 257, 258, 300, 511, 512, 513, 700] + ([] if tier == 'quick' else [1000, 1023, 1024, 1025, 4410]):
        for a, b in itertools.product(chunks, repeat=2):
            if max(a, b) <= length:
                yield [length, a, b]


def long_run(case, ctx):
    length, a, b = case
    for nChannels in (1, 2):
        ring = RingBuffer(length, nChannels=nChannels)
        line = Line(length, nChannels)
        count = 0
        k = 0
        while count < 2 * length + 600 and k < 400:
            n = (a, b)[k % 2]
            vals = new_values(count, n, nChannels)
            want = line.read(n)
            got = ring.peek_extend(np.array(vals)).tolist()
            require(got == want, '%s: wrong samples at %d', case, count)
            line.write(vals)
            count += n
            k += 1
        ctx.step(k)
    ctx.trace(2)
    ctx.state(*case)
    ctx.outcome(length, count)


def resize_cases(tier):
    for capacity in range(1, 7 if tier == 'quick' else 9):
        for first in range(1, capacity + 1):
            for second in range(1, capacity + 1):
                for fill in range(0, 2 * capacity + 1):
                    for bufferSize in (1, 2, 3, 4):
                        for how in (0, 1, 2):
                            yield [capacity, first, second, fill, bufferSize, how]


def resize_run(case, ctx):
    """After a change of length the buffer is exact again as soon as it was written once around."""
    capacity, first, second, fill, bufferSize, how = case
    ring = RingBuffer(first, capacity, bufferSize=bufferSize)
    count = 0

    def write(i):
        # Extended, appended or both in turns
        vals = new_values(count, 1, 1)
        if how == 0 or how == 2 and i % 2:
            ring.extend(vals)
        else:
            ring.append(vals[0])
        return vals

    for i in range(fill):
        write(i)
        count += 1
    require(expect_raises(setattr, ring, 'length', capacity + 1), '%s: length beyond the capacity accepted', case)
    require(ring.length == first, '%s: refused length was set', case)
    ring.length = second
    require(ring.length == second, '%s: length %s', case, ring.length)
    line = Line(second, 1)
    step = 0
    for step in range(second):
        line.write(write(step))
        count += 1
    for n in itertools.islice(itertools.cycle(range(1, min(second, bufferSize) + 1)), 12):
        count += apply_op(case, ring, line, ('p', n), 1, count)
        ctx.step()
    ctx.state(*case)
    ctx.trace()
    ctx.outcome(capacity, second, count)


# Delay blocks --------------------------------------------------------------------------------------
def feed(block, inp, samples):
    inp.set_value(samples)
    keep = samples.copy()
    block.update()
    require((samples == keep).all(), 'input buffer was modified')
    return np.array(block.outputs[0].value)


def impulse_response_signal(nBuffers, seed):
    """Non-repeating signal with silence, ramps and impulses."""
    idx = np.arange(nBuffers * N)
    x = ((idx * 7919 + seed * 101) % 1009) / 1009. - .4
    x[(idx // 64) % 3 == 1] = 0.
    x[idx % 97 == seed] = 1.
    return x


def reference_delay(x, L, params):
    """params: (feedback, drywet) per buffer."""
    d = []
    y = []
    for n, v in enumerate(x):
        fb, w = params[n // N]
        old = d[n - L] if n >= L else 0.
        d.append(v + fb * old)
        y.append((1. - w) * v + w * old)
    return np.array(y)


def delay_cases(tier):
    quick = tier == 'quick'
    small = list(range(1, 24)) + [31, 32, 33, 63, 64, 65, 85, 86, 100, 127, 128, 129, 130, 170, 171, 200, 254] + list(range(255, 260)) + [300, 384, 400, 510, 511, 512, 513, 514, 600, 767, 768, 769, 1000, 1024]
    if not quick:
        small = list(range(1, 1100))
    for L in small:
        for mode in range(4 if L in (1, 2, 100, 255, 256, 257, 300, 512, 600) or not quick else 1):
            yield ['samples', L, mode]
    for L in (88200, 88199, 44100, 22050):
        yield ['samples', L, 0]
    for num, den in ((1, 64), (1, 32), (1, 16), (1, 8), (3, 16), (1, 4), (1, 2), (1, 1)):
        yield ['note', [num, den], 0]


MODES = [
    [(0., 1.)],
    [(.5, .5)],
    [(-.9, .25), (.9, .75)],
    [(0., 0.), (1., 1.), (.3, .6)],
]


def delay_run(case, ctx):
    kind, spec, mode = case
    if kind == 'samples':
        L = spec
        time = L / SR
    else:
        time = Fraction(*spec)      # tempo 120, 4/4: a whole note lasts two seconds
        L = spec[0] * 2 * SR / spec[1]
        candidates = {int(L), int(round(L)), int(L) + (L != int(L))}
    nBuffers = 8
    for mode in ([mode] if kind == 'samples' else [0, 1]):
        params = list(itertools.islice(itertools.cycle(MODES[mode]), 400))
        if kind != 'samples' or L > 2000:
            nBuffers = int(L) // N + 4
        for nChannels in (0, 2, 1, 3) if nBuffers <= 20 else (0, 2):  # 0: one dimensional
            x = impulse_response_signal(nBuffers, 3)
            delay = Delay(time, *params[0])
            out = []
            for k in range(nBuffers):
                delay.feedback, delay.drywet = params[k]
                chunk = x[k * N:(k + 1) * N].copy()
                if nChannels:
                    chunk = np.array([chunk + .25 * (2 * c - nChannels + 1) for c in range(nChannels)])
                out.append(feed(delay, delay.input, chunk))
            out = np.concatenate(out)
            refs = [reference_delay(x, int(l), params) for l in ([L] if kind == 'samples' else sorted(candidates))]
            errs = [abs(out - r).max() for r in refs]
            require(min(errs) < 1e-9, '%s: %d channels: output differs by %g from sample %d on', case, nChannels, min(errs),
                    int((abs(out - refs[0]) > 1e-9).argmax()))
            ctx.step(nBuffers)
            ctx.trace()
            ctx.outcome(out.tobytes())
    ctx.state(str(case))


def accept_cases(tier):
    for t in (0.5, 1, 1., 2, 2., 1.9999):
        yield ['ok', 'sec', t]
    for t in (2.0001, 3, 100., 2.5):
        yield ['no', 'sec', t]
    for f in ([1, 4], [1, 1], [3, 4], [1, 64]):
        yield ['ok', 'note', f]
    for f in ([3, 2], [2, 1], [9, 8], [5, 4], [4, 1]):
        yield ['no', 'note', f]


def accept_run(case, ctx):
    verdict, kind, spec = case
    time = Fraction(*spec) if kind == 'note' else spec
    for make in (lambda: Delay(time), lambda: StereoDelay(time, 1.), lambda: StereoDelay(1., time)):
        try:
            block = make()
            raised = False
        except Exception:
            raised = True
        require(raised == (verdict == 'no'), '%s: %s', case, 'rejected' if raised else 'accepted')
        if not raised:
            block.input.set_value(np.ones(N))
            for _ in range(3):
                block.update()
    ctx.state(str(case))
    ctx.step(3)
    ctx.trace(3)
    ctx.outcome(verdict)


def stereo_cases(tier):
    times = (1, 100, 256, 300, 700) if tier == 'quick' else (1, 2, 100, 255, 256, 257, 300, 511, 700, 1500)
    for left, right in itertools.product(times, repeat=2):
        for fl, fr, w in ((0., 0., 1.), (.5, -.25, .5), (.1, .9, .7)):
            for layout in ('mono', 'stereo', 'left', 'right'):
                yield [left, right, fl, fr, w, layout]


def stereo_run(case, ctx):
    left, right, fl, fr, w, layout = case
    nBuffers = 8
    block = StereoDelay(left / SR, right / SR, fl, fr, w)
    other = StereoDelay(right / SR, left / SR, fr, fl, w)   # a second instance shares nothing
    a, b = impulse_response_signal(nBuffers, 3), impulse_response_signal(nBuffers, 5)
    if layout == 'left':
        b = 0. * b
    if layout == 'right':
        a = 0. * a
    if layout == 'mono':
        b = a
    src = Block(nOutputs=1)
    src.output.set_value(np.zeros(N))
    src.output.connect(block.input)
    sink = Block(nInputs=1)
    block.output.connect(sink.input)
    got = []
    for k in range(nBuffers):
        sl = slice(k * N, (k + 1) * N)
        x = a[sl].copy() if layout == 'mono' else np.array([a[sl], b[sl]])
        keep = x.copy()
        src.output.set_value(x)
        other.input.set_value(np.array([b[sl] + 1., a[sl] - 1.]))
        other.update()
        block.update()
        require((x == keep).all(), '%s: input was modified', case)
        got.append(np.array(sink.input.value))
        require(got[-1].shape == (2, N), '%s: output shape %s', case, got[-1].shape)
        require((np.array(block.output.value) == got[-1]).all(), '%s: output differs from what is connected to it', case)
    got = np.concatenate(got, axis=1)
    for side, x, L, f in ((0, a, left, fl), (1, b, right, fr)):
        ref = reference_delay(x, L, [(f, w)] * nBuffers)
        err = abs(got[side] - ref)
        require(err.max() < 1e-9, '%s: channel %d differs from sample %d on', case, side, int((err > 1e-9).argmax()))
    ctx.step(nBuffers)
    ctx.trace()
    ctx.state(str(case))
    ctx.outcome(got.tobytes())


FAMILIES = [
    Family('ring', ring_cases, ring_run,
           lambda t: 'lengths 1-%d x buffer sizes 1-%d x mono / stereo x spare capacity x all sequences of 3-%d append / extend / peek_extend operations of every chunk size, continued once around' % ((6, 5, 4) if t == 'quick' else (8, 7, 5))),
    Family('ring_long', long_cases, long_run, 'practical lengths around the buffer size x all pairs of alternating chunk sizes'),
    Family('ring_resize', resize_cases, resize_run, 'all changes of length within a small capacity at every fill level (exact again after one revolution)'),
    Family('delay', delay_cases, delay_run,
           lambda t: '%s x feedback / drywet schedules x mono / stereo input' % ('about 60 delay times around the buffer size' if t == 'quick' else 'all delay times of 1-1099 samples')),
    Family('accept', accept_cases, accept_run, 'delay times around the maximum in seconds and note values'),
    Family('stereo_delay', stereo_cases, stereo_run, 'all pairs of delay times x feedbacks x mono / stereo / one sided input'),
]
ASSUMPTIONS = ['ring buffer chunks are not longer than its length (a longer read would need samples not written yet)',
               'delay times are at least one sample; tempo 120, metre 4/4']
