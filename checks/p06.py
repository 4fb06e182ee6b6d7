"""P06: offline bounce. All durations / fades / layouts / small nets on the real engine."""
import itertools
import os
import time

import numpy as np
import scipy.io.wavfile

from mc import Family, require
from graphs import component, order_error, subsets
from klang.block import Block
from klang.clock import ClockMixin
from klang.composite import Composite
from klang.connections import Input, Output, Relay
from klang.klang import run_klang
from klang.audio.klanggeber import Dac

SR = 44100
N = 256
PCM = 1. / 32767


def wavpath(tag='x'):
    return os.path.join(os.environ['VERIF_SCRATCH'], 'p06_%d_%s.wav' % (os.getpid(), tag))


class Source(Block, ClockMixin):
    """Emits a signal without repetitions; logs updates and clock readings."""

    def __init__(self, log, nChannels=1, inplace=False, name='source', silent=False):
        super().__init__(nOutputs=1, name=name)
        self.log = log
        self.cycle = 0
        self.nChannels = nChannels
        self.inplace = inplace
        self.silent = silent
        self.buf = np.zeros(N) if nChannels == 1 else np.zeros((nChannels, N))
        self.output.set_value(self.buf)

    @staticmethod
    def signal(cycle, nChannels):
        idx = cycle * N + np.arange(N)
        rows = [((idx * 7919 + 13 * c + 1) % 65521) / 65521. * (-1) ** c for c in range(nChannels)]
        return rows[0] if nChannels == 1 else np.array(rows)

    def update(self):
        self.log.append((self.name, self.clock()))
        sig = self.signal(self.cycle, self.nChannels)
        if self.silent:
            sig = 0. * sig
        if self.inplace:
            self.buf[:] = sig
        else:
            self.output.set_value(sig)
        self.cycle += 1


def run_wav(duration, fadeout, nChannels, inplace=False, silent=False, expectCycles=None, ctx=None, case=None):
    """Bounce source | dac to a file. Returns (log, samples)."""
    log = []
    src = Source(log, nChannels, inplace, silent=silent)
    dac = Dac(nChannels)
    src.output.connect(dac.inputs[0])
    path = wavpath()
    run_klang(dac, duration=duration, fadeout=fadeout, offline=True, filepath=path)
    try:
        rate, samples = scipy.io.wavfile.read(path)
    finally:
        if os.path.exists(path):
            os.remove(path)
    require(rate == SR, '%s: file has sampling rate %s', case, rate)
    if samples.ndim == 1:
        samples = samples.reshape((-1, 1))
    return log, samples


def compare_file(case, samples, expected):
    """Equal up to one overall scaling factor and quantisation."""
    require(samples.shape == expected.shape, '%s: file shape %s, expected %s', case, samples.shape, expected.shape)
    require(samples.dtype == np.int16, '%s: dtype %s', case, samples.dtype)
    got = samples / 32767.
    peak = abs(expected).max()
    if peak == 0:
        require(not got.any(), '%s: silence was not written as silence', case)
        return
    norm = abs(got).max()
    require(norm > .5, '%s: file is too quiet (%g)', case, norm)
    err = abs(got / norm - expected / peak)
    worst = np.unravel_index(err.argmax(), err.shape)
    require(err[worst] <= 3.1 * PCM, '%s: sample %s is %g, expected %g (times one factor)', case, tuple(int(w) for w in worst), got[worst] / norm, expected[worst] / peak)


def check_clock(case, log, nCycles):
    require(len(log) == nCycles, '%s: %d cycles, expected %d', case, len(log), nCycles)
    for k, (_, t) in enumerate(log):
        require(abs(t - k * N / SR) < 1e-6, '%s: clock reads %r in cycle %d, expected %r', case, t, k, k * N / SR)


# Durations --------------------------------------------------------------------------------------------
def duration_cases(tier):
    top = 200 if tier == 'quick' else 600
    for n in range(0, top):
        yield ['interval', n]
        for k in (0, 1, 128, 255):
            yield ['samples', n * N + k]
    for d in (.01, .1, .2, .25, .3, .5, .7, 1., 1.1, 1.5, 2.) + ((3., 5., 7.7, 10.) if tier != 'quick' else ()):
        yield ['seconds', d]


def duration_run(case, ctx):
    how, x = case
    if how == 'interval':
        duration, expected = x * ((1. / SR) * N), x
    elif how == 'samples':
        duration, expected = x / SR, x // N
    else:
        duration, expected = x, int(round(x * SR, 6)) // N
    log = []
    src = Source(log)
    dac = Dac(1)
    src | dac
    run_klang(dac, duration=duration, offline=True)
    check_clock(case, log, expected)
    ctx.step(expected)
    ctx.trace()
    ctx.state(how, x)
    ctx.outcome(expected)
    log, samples = run_wav(duration, 0., 1, case=case)
    check_clock(case, log, expected)
    if expected:
        compare_file(case, samples, np.concatenate([Source.signal(k, 1).reshape(-1, 1) for k in range(expected)]))
    else:
        require(len(samples) == 0, '%s: %d samples in a file without a cycle', case, len(samples))


# Fade-outs --------------------------------------------------------------------------------------------
def fade_cases(tier):
    for n in (1, 2, 3, 5) if tier == 'quick' else range(1, 13):
        for extra in (0, 100):
            for fade in range(0, 4 * n + 5):
                for off in (0, 1) if tier == 'quick' else (0, 1, 17, -1):
                    if fade * 64 + off < 0:
                        continue
                    for nChannels in (1, 2):
                        yield [n, extra, fade * 64 + off, nChannels]


def fade_run(case, ctx):
    n, extra, fade, nChannels = case
    total = n * N + extra
    log, samples = run_wav(total / SR, fade / SR, nChannels, inplace=fade % 3 == 0, case=case)
    check_clock(case, log, n)
    expected = np.concatenate([Source.signal(k, nChannels).reshape(nChannels, N).T for k in range(n)])
    if fade:
        env = np.clip((total - np.arange(n * N)) / fade, 0., 1.)
        expected = expected * env[:, None]
    compare_file(case, samples, expected)
    ctx.state(*case)
    ctx.step(n)
    ctx.trace()
    ctx.outcome(samples.tobytes())


# Nets -------------------------------------------------------------------------------------------------
class Node(Block, ClockMixin):
    """1 + sum of inputs + current cycle stamp; logs."""

    def __init__(self, idx, log, nInputs):
        super().__init__(nInputs=nInputs, nOutputs=1, name=str(idx))
        self.idx = idx
        self.log = log
        self.cycle = 0
        for i in self.inputs:
            i.set_value(np.zeros(N))
        self.output.set_value(np.zeros(N))

    def update(self):
        self.log.append((self.idx, self.clock(), self.cycle))
        self.cycle += 1
        y = np.full(N, 1. + self.idx + self.cycle / 64.)
        for i in self.inputs:
            y = y + .5 * np.asarray(i.value).mean()
        self.output.set_value(y)


def net_cases(tier):
    m = 3
    pairs = [(u, v) for u in range(m) for v in range(m) if u != v]
    for edges in subsets(pairs, 4 if tier == 'quick' else 6):
        for taps in ([0], [2], [1, 0], [2, 1, 0]):
            for start in ('dac', 'node', 'all'):
                yield [edges, taps, start]


def net_run(case, ctx):
    edges, taps, start = case
    edges = [tuple(e) for e in edges]
    m = 3
    log = []
    nodes = [Node(i, log, sum(v == i for _, v in edges)) for i in range(m)]
    slot = [0] * m
    for u, v in edges:
        nodes[u].output.connect(nodes[v].inputs[slot[v]])
        slot[v] += 1
    dac = Dac(len(taps))
    for inp, t in zip(dac.inputs, taps):
        nodes[t].output.connect(inp)
    emitted = []
    orig = dac.update

    def dac_update():
        log.append(('dac', None, None))
        orig()
    dac.update = dac_update
    path = wavpath('net')
    starts = dict(dac=[dac], node=[nodes[taps[0]]], all=[nodes[taps[-1]], dac])[start]
    nCycles = 4
    run_klang(*starts, duration=nCycles * N / SR, offline=True, filepath=path)
    try:
        _, samples = scipy.io.wavfile.read(path)
    finally:
        if os.path.exists(path):
            os.remove(path)
    blocks = component(m, edges, taps)
    size = len(blocks) + 1
    require(len(log) == nCycles * size, '%s: %d updates in %d cycles of %d blocks: %s', case, len(log), nCycles, size, log)
    # replay the logged order on plain numbers to know what the network produced in each cycle
    vals = [0.] * m
    expected = np.zeros((nCycles * N, len(taps)))
    allEdges = edges + [(t, 'dac') for t in taps]
    first = None
    for c in range(nCycles):
        part = log[c * size:(c + 1) * size]
        ids = [p[0] for p in part]
        require(sorted(map(str, ids)) == sorted(map(str, list(blocks) + ['dac'])), '%s: cycle %d ran %s', case, c, ids)
        mapped = [m if i == 'dac' else i for i in ids]
        err = order_error(mapped, set(blocks) | {m}, m + 1, edges + [(t, m) for t in taps])
        require(err is None, '%s: cycle %d: %s', case, c, err)
        first = first or ids
        require(ids == first, '%s: order changed from %s to %s', case, first, ids)
        for idx, clock, cycle in part:
            if idx == 'dac':
                continue
            require(abs(clock - c * N / SR) < 1e-6, '%s: block %s reads clock %r in cycle %d', case, idx, clock, c)
            require(cycle == c, '%s: block %s was at its %d. update in cycle %d', case, idx, cycle, c)
            vals[idx] = 1. + idx + (c + 1) / 64. + .5 * sum(vals[u] for u, v in edges if v == idx)
        for ch, t in enumerate(taps):
            expected[c * N:(c + 1) * N, ch] = vals[t]
    if samples.ndim == 1:
        samples = samples.reshape((-1, 1))
    compare_file(case, samples, expected)
    ctx.state(str(case))
    ctx.step(len(log))
    ctx.trace()
    ctx.outcome(tuple(first), samples[::N].tobytes())


# Layouts, composites, repeated runs -------------------------------------------------------------------
def layout_cases(tier):
    for layout in itertools.chain.from_iterable(itertools.product((1, 2, 3), repeat=r) for r in (1, 2, 3)):
        for inplace in (False, True):
            yield ['layout', list(layout), inplace]
    for n in (1, 2, 3):
        for silent in (False, True):
            for ch in (1, 2):
                yield ['again', n, silent, ch]
        yield ['composite', n]


def layout_run(case, ctx):
    if case[0] == 'layout':
        _, layout, inplace = case
        log = []
        total = sum(layout)
        dac = Dac(total)
        for k, (nCh, inp) in enumerate(zip(layout, dac.inputs)):
            src = Source(log, nCh, inplace, name=str(k))
            src.cycle = 10 * k
            src.output.connect(inp)
        # unconnected inputs behind are silent mono channels; channels are filled in order up to total
        path = wavpath('lay')
        run_klang(dac, duration=3 * N / SR, offline=True, filepath=path)
        try:
            _, samples = scipy.io.wavfile.read(path)
        finally:
            if os.path.exists(path):
                os.remove(path)
        rows = []
        for c in range(3):
            rows.append(np.concatenate([Source.signal(10 * k + c, nCh).reshape(nCh, N) for k, nCh in enumerate(layout)]).T)
        compare_file(case, samples.reshape((len(samples), -1)), np.concatenate(rows))
        ctx.outcome(samples.tobytes())
        ctx.step(3)
    elif case[0] == 'again':
        _, n, silent, ch = case
        results = []
        for _ in range(3):
            log, samples = run_wav(n * N / SR, 0., ch, silent=silent, case=case)
            check_clock(case, log, n)
            expected = np.concatenate([Source.signal(k, ch).reshape(ch, N).T for k in range(n)])
            compare_file(case, samples, 0. * expected if silent else expected)
        # the same network again: clock restarts, audio goes on
        log = []
        src = Source(log, ch)
        dac = Dac(ch)
        src.output.connect(dac.inputs[0])
        for k in range(3):
            log.clear()
            path = wavpath('again')
            run_klang(src, duration=n * N / SR, offline=True, filepath=path)
            _, samples = scipy.io.wavfile.read(path)
            os.remove(path)
            check_clock(case, log, n)
            expected = np.concatenate([Source.signal(k * n + j, ch).reshape(ch, N).T for j in range(n)])
            compare_file(case, samples.reshape((len(samples), -1)), expected)
        ctx.step(6 * n)
        ctx.outcome(samples.tobytes())
    else:
        _, n = case
        log = []
        comp = Composite(name='comp')
        a, b = Source(log, name='a'), Node('b', log, 1)
        b.idx = 3
        a.output.connect(b.input)
        relay = Relay(owner=comp)
        b.output.connect(relay)
        comp.outputs.append(relay)
        comp.update_internal_exec_order()
        dac = Dac(1)
        comp.output.connect(dac.input)
        run_klang(comp, duration=n * N / SR, offline=True)
        require([x[0] for x in log] == ['a', 3] * n, '%s: ran %s', case, log)
        for k, entry in enumerate(log):
            require(abs(entry[1] - (k // 2) * N / SR) < 1e-6, '%s: clock inside composite %s', case, log)
        ctx.step(2 * n)
        ctx.outcome(n)
    ctx.state(str(case))
    ctx.trace()


# Networks without audio ------------------------------------------------------------------------------
class Stop(Exception):
    pass


class Virtual:
    """Virtual real time: reading the time takes a microsecond, sleeping overshoots a bit."""

    def __init__(self, start, overshoot):
        self.now = start
        self.overshoot = overshoot

    def read(self):
        self.now += 1e-6
        return self.now

    def sleep(self, dt):
        require(dt >= 0, 'sleep for a negative time %r', dt)
        self.now += dt + self.overshoot


class Busy(Block, ClockMixin):
    """Takes some virtual time for each update; stops the engine eventually."""

    def __init__(self, idx, log, virtual, work, stopAfter=None):
        super().__init__(nInputs=1, nOutputs=1, name=str(idx))
        self.idx, self.log, self.virtual, self.work, self.stopAfter = idx, log, virtual, work, stopAfter
        self.count = 0

    def update(self):
        self.log.append((self.idx, self.clock(), self.virtual.now))
        self.virtual.now += self.work[self.count % len(self.work)]
        self.count += 1
        if self.count == self.stopAfter:
            raise Stop


def live_cases(tier):
    interval = N / SR
    works = [0., .3 * interval, .97 * interval, 1.4 * interval, 2.2 * interval]
    for start in (0., 1e-4, interval, 12345.678, 1e6 + .1):
        for over in (1e-6, 1e-4, .4 * interval):
            for work in itertools.product(works, repeat=2 if tier == 'quick' else 3):
                for size in (1, 2):
                    yield [start, over, list(work), size]


def live_run(case, ctx):
    """Without audio, the network is executed at most once per buffer of real time, and in each it keeps up with."""
    start, over, work, size = case
    interval = N / SR
    virtual = Virtual(start, over)
    log = []
    total = 8
    blocks = [Busy(k, log, virtual, work if k == 0 else [0.], total if k == size - 1 else None) for k in range(size)]
    if size == 2:
        blocks[0].output.connect(blocks[1].input)
    names = ['perf_counter', 'time', 'monotonic']
    original = {k: getattr(time, k) for k in names + ['sleep']}
    for k in names:
        setattr(time, k, virtual.read)
    time.sleep = virtual.sleep
    try:
        run_klang(blocks[-1])
    except Stop:
        pass
    finally:
        for k, f in original.items():
            setattr(time, k, f)
    require([x[0] for x in log] == list(range(size)) * total, '%s: ran %s', case, [x[0] for x in log])
    clocks = [x[1] for x in log[::size]]
    begins = [x[2] for x in log[::size]]
    ends = [b + work[k % len(work)] for k, b in enumerate(begins)]
    for k, entry in enumerate(log):
        require(entry[1] == clocks[k // size], '%s: blocks of cycle %d see different times', case, k // size)
    for k in range(total):
        slot = clocks[k] / interval
        require(abs(slot - round(slot)) < 1e-3, '%s: cycle %d at %r is not on the buffer grid', case, k, clocks[k])
        slack = over + 2e-5
        require(-1e-5 <= begins[k] - clocks[k] <= slack, '%s: cycle %d of time %r begins at %r', case, k, clocks[k], begins[k])
        if k:
            n = round((clocks[k] - clocks[k - 1]) / interval)
            late = ends[k - 1] - clocks[k - 1]
            require(n >= 1, '%s: cycle %d has the same time as the one before', case, k)
            require(n <= int((late + slack) / interval) + 1, '%s: %d buffers between cycles %d and %d', case, n, k - 1, k)
    ctx.state(str(case))
    ctx.step(total)
    ctx.trace()
    ctx.outcome(tuple(round((b - a) / interval) for a, b in zip(clocks, clocks[1:])))


FAMILIES = [
    Family('durations', duration_cases, duration_run,
           lambda t: 'all durations of 0-%d buffers plus 0, 1, 128 or 255 samples, as multiples of the buffer interval and as seconds' % (199 if t == 'quick' else 599)),
    Family('fades', fade_cases, fade_run,
           lambda t: 'bounces of 1-%d buffers (whole and fractional) x fade-outs of every quarter buffer (+0 / +1 sample) up to beyond the duration, mono and stereo' % (5 if t == 'quick' else 12)),
    Family('nets', net_cases, net_run, 'all nets of 3 blocks with feedback x taps to 1-3 output channels x starting blocks'),
    Family('layouts', layout_cases, layout_run, 'all layouts of 1-3 signals with 1-3 channels, buffers reused in place or not; silent and repeated runs; composites'),
    Family('no_audio', live_cases, live_run, 'networks without audio in virtual real time: 5 start times x 3 sleep overshoots x work of 0-2.2 buffers in every cycle'),
]
ASSUMPTIONS = ['audio: offline mode; a file is written for at least one whole buffer', 'files are read back with scipy.io.wavfile']
