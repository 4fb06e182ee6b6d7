"""P15: Dac / Adc routing. All assignments of signal layouts to inputs, all patching histories."""
import itertools
import os
import time

import numpy as np
import pyaudio
import scipy.io.wavfile

from mc import Family, require, sequences
from klang.audio.klanggeber import Adc, Dac
from klang.block import Block
from klang.clock import ClockMixin
from klang.config import SAMPLING_RATE
from klang.klang import run_klang

N = 256


def content(seed, nChannels):
    """Deterministic sample content, all channels and samples different."""
    base = np.arange(nChannels * N).reshape(nChannels, N)
    return ((base * 7919 + seed * 104729) % 65521) / 65521. * 2. - 1.


def signal(layout, seed):
    """Signal of some layout and the list of its channels."""
    if layout == 'none':
        return None, [np.zeros(N)]
    if layout == 'mono':
        x = content(seed, 1)[0]
        return x, [x.copy()]
    if layout == 'mono32':
        x = content(seed, 1)[0].astype(np.float32)
        return x, [x.copy()]
    if layout == 'row':
        x = content(seed, 1)
        return x, [x[0].copy()]
    if layout == 'stereo':
        x = content(seed, 2)
        return x, [c.copy() for c in x]
    if layout == 'stereoF':
        x = np.asfortranarray(content(seed, 2))
        return x, [c.copy() for c in x]
    if layout == 'triple':
        x = content(seed, 3)
        return x, [c.copy() for c in x]
    if layout == 'strided':
        x = np.repeat(content(seed, 1)[0], 2)[::2]
        return x, [x.copy()]
    if layout == 'zero':
        x = np.zeros((0, N))
        return x, []
    raise ValueError(layout)


def collected(what, dac, channels):
    """Collect and compare with the expected channels (None if there are too few)."""
    n = len(dac.inputs)
    if len(channels) < n:
        try:
            ret = dac.collect_samples()
        except Exception:  # pylint: disable=broad-except
            return None
        require(False, '%s: %d channels for %d outputs were not reported (got shape %s)', what, len(channels), n, np.shape(ret))
    ret = dac.collect_samples()
    require(ret.shape == (N, n), '%s: collected shape %s, expected %s', what, ret.shape, (N, n))
    require(ret.dtype == np.float32, '%s: dtype %s', what, ret.dtype)
    require(ret.flags.c_contiguous, '%s: samples are not interleaved in memory', what)
    for i in range(n):
        want = channels[i].astype(np.float32)
        require((ret[:, i] == want).all(), '%s: output channel %d differs from sample %d on', what, i, int((ret[:, i] != want).argmax()))
    return ret


LAYOUTS = ('none', 'mono', 'stereo', 'triple', 'row', 'zero')
MORE = ('mono32', 'stereoF', 'strided')


def layout_cases(tier):
    for n in (1, 2, 3, 4):
        for layouts in itertools.product(LAYOUTS + (MORE if n < (3 if tier == 'quick' else 4) else ()), repeat=n):
            yield [list(layouts)]


def layout_run(case, ctx):
    layouts, = case
    for direct in (False, True):
        dac = Dac(len(layouts)) if len(layouts) > 1 else Dac()
        channels = []
        values = []
        for i, (layout, inp) in enumerate(zip(layouts, dac.inputs)):
            x, chans = signal(layout, i + 1)
            channels += chans
            if x is None:
                continue
            values.append((x, x.copy()))
            if direct:
                inp.set_value(x)
            else:
                b = Block(nOutputs=1)
                b.output.set_value(x)
                b.output.connect(inp)
        first = collected((case, direct), dac, channels)
        second = collected((case, direct, 'again'), dac, channels)
        for x, y in values:
            require((x == y).all(), '%s: signals modified', case)
        if first is not None:
            keep = second.copy()
            first[:] = 5.
            require((second == keep).all(), '%s: collected samples share memory', case)
            collected((case, direct, 'after modifying the result'), dac, channels)
            for x, y in values:
                x[...] = 3.
            require((second == keep).all(), '%s: collected samples change when the network reuses its buffers', case)
        ctx.outcome(len(channels) >= len(layouts), len(channels))
        ctx.step(3)
        ctx.trace()
    ctx.state(str(case))


OPS = [('connect', i, layout) for i in (0, 1) for layout in ('mono', 'stereo', 'row')] \
    + [('disconnect', i, None) for i in (0, 1)] + [('change', i, None) for i in (0, 1)] + [('fewer', 0, None)]


def history_cases(tier):
    for n in (2, 3):
        for head in sequences(range(len(OPS)), 2):
            yield [n, 4 if tier == 'quick' else 5, list(head)]


def history_run(case, ctx):
    """Connect, disconnect, new content, new layout; every collected buffer stays as it was."""
    n, depth, head = case
    for tail in sequences(range(len(OPS)), depth - 2):
        seq = [OPS[i] for i in head + list(tail)]
        if seq[0][0] != 'connect':
            continue
        dac = Dac(n)
        sources = {}
        results = []
        for step, (op, i, layout) in enumerate(seq):
            if op == 'connect':
                if i in sources:
                    sources[i][1].disconnect(dac.inputs[i])
                block = Block(nOutputs=1)
                block.output.connect(dac.inputs[i])
                sources[i] = [layout, block.output, None]
            elif op == 'disconnect' and i in sources:
                sources.pop(i)[1].disconnect(dac.inputs[i])
            elif op == 'fewer' and i in sources:
                sources[i][0] = 'zero'
            channels = []
            for k in range(n):
                if k not in sources:
                    channels.append(np.zeros(N))
                    continue
                src = sources[k]
                x, chans = signal(src[0], 10 * step + k)
                if src[2] is not None and np.shape(src[2]) == np.shape(x):
                    src[2][...] = x     # block reuses its buffer
                else:
                    src[2] = x
                    src[1].set_value(x)
                channels += chans
            ret = collected((case, seq[:step + 1]), dac, channels)
            results.append((ret, None if ret is None else ret.copy()))
            for a, b in results:
                require(a is None or (a == b).all(), '%s: earlier buffer changed', (case, seq[:step + 1]))
            ctx.state(n, tuple(sorted((k, v[0]) for k, v in sources.items())))
            ctx.outcome(ret is None)
            ctx.step()
        ctx.trace()


def adc_cases(tier):
    for n in (1, 2, 3, 4, 6):
        for layout in ('C', 'F', 'strided', 'double'):
            for first in (False, True):
                yield [n, layout, first]


def frames(n, seed, layout='C'):
    x = content(seed, n).T.astype(np.float32)
    if layout == 'C':
        return np.ascontiguousarray(x)
    if layout == 'F':
        return np.asfortranarray(x)
    if layout == 'double':
        return np.ascontiguousarray(x.astype(float))
    big = np.zeros((2 * N, n + 1), dtype=np.float32)
    big[::2, 1:] = x
    return big[::2, 1:]


def adc_run(case, ctx):
    """Each captured channel on its own output; silence before; read-only or not."""
    n, layout, first = case
    adc = Adc(n)
    require(len(adc.outputs) == n, '%s: %d outputs', case, len(adc.outputs))
    for out in adc.outputs:
        require(np.shape(out.value) == (N,) and not np.any(out.value), '%s: not silent at first', case)
    earlier = []
    for seed in (1, 2, 3):
        x = frames(n, seed, layout)
        keep = x.copy()
        x.setflags(write=first)
        adc.inject_samples(x)
        for value, channel in earlier:
            require((value == channel).all(), '%s: signal of an earlier cycle has changed', case)
        earlier += [(out.value, keep[:, i]) for i, out in enumerate(adc.outputs)]
        for i, out in enumerate(adc.outputs):
            require(np.shape(out.value) == (N,), '%s: output shape %s', case, np.shape(out.value))
            require((np.asarray(out.value) == keep[:, i]).all(), '%s: output %d is not captured channel %d', case, i, i)
        require((x == keep).all(), '%s: captured samples modified', case)
        ctx.step()
    ctx.state(str(case))
    ctx.trace()
    ctx.outcome(n, layout)


class FakePyAudio:
    """Stand-in for the sound card: drives the stream callback with recorded data."""

    script = None   # (in_data per cycle or None)
    log = None
    inputs = outputs = 16
    opened = None
    calls = None
    interrupt = None
    error = KeyboardInterrupt
    statuses = (0,)

    def get_default_input_device_info(self):
        if not self.inputs:
            raise OSError('No Default Input Device Available')
        return {'maxInputChannels': self.inputs, 'name': 'in', 'index': 0}

    def get_default_output_device_info(self):
        if not self.outputs:
            raise OSError('No Default Output Device Available')
        return {'maxOutputChannels': self.outputs, 'name': 'out', 'index': 1}

    def open(self, rate=None, channels=None, format=None, input=False, output=False, input_device_index=None,
             output_device_index=None, frames_per_buffer=pyaudio.paFramesPerBufferUnspecified, start=True,
             input_host_api_specific_stream_info=None, output_host_api_specific_stream_info=None, stream_callback=None):
        cls = type(self)
        require(cls.opened is None, 'a second stream was opened')
        cls.opened = dict(rate=rate, channels=channels, format=format, input=input, output=output, frames=frames_per_buffer)
        cls.calls = []
        self.callback = stream_callback
        return self

    def start_stream(self):
        type(self).calls.append('start')

    def is_active(self):
        cls = type(self)
        for k, inData in enumerate(cls.script):
            if cls.interrupt == k:
                raise cls.error
            data, flag = self.callback(inData, N, None, cls.statuses[k % len(cls.statuses)])
            cls.log.append((np.array(data), data, flag))
            if flag != pyaudio.paContinue:
                break
        return False

    def stop_stream(self):
        type(self).calls.append('stop')

    def close(self):
        type(self).calls.append('close')

    def terminate(self):
        if type(self).calls is not None:
            type(self).calls.append('terminate')


def play(dac, script, inputs=16, outputs=16, interrupt=None, error=KeyboardInterrupt, statuses=(0,), **kwargs):
    """Run the engine on the stand-in card. Returns what the card received."""
    card = FakePyAudio
    card.script, card.log, card.opened, card.calls = script, [], None, None
    card.inputs, card.outputs, card.interrupt, card.error, card.statuses = inputs, outputs, interrupt, error, statuses
    original = pyaudio.PyAudio, time.sleep
    pyaudio.PyAudio = card
    time.sleep = lambda dt: None
    try:
        run_klang(dac, **kwargs)
    finally:
        pyaudio.PyAudio, time.sleep = original
    return card.log


class Pass(Block):
    """Packs its inputs to one multi-channel signal (or less, from some cycle on)."""

    def __init__(self, n, failAt=None):
        super().__init__(nInputs=n, nOutputs=1)
        self.failAt = failAt
        self.cycle = 0

    def update(self):
        y = np.array([inp.value for inp in self.inputs])
        if self.cycle == self.failAt:
            y = y[:0]
        self.cycle += 1
        self.output.set_value(y)


def engine_cases(tier):
    for n in (1, 2, 3):
        for nIn in range(1, n + 1):
            for how in ('direct', 'crossed', 'packed', 'output only'):
                for failAt in (None, 0, 1, 3):
                    if (failAt is None or how == 'packed') and (nIn == n or how != 'output only'):
                        yield [n, nIn, how, failAt]


def engine_run(case, ctx):
    """Running engine on a stand-in sound card: captured channels come out of the connected outputs."""
    n, nIn, how, failAt = case
    dac = Dac(n)
    adc = Adc(nIn)
    order = [k % nIn for k in range(n)]
    if how == 'direct':
        for k, b in zip(order, dac.inputs):
            adc.outputs[k].connect(b)
    elif how == 'crossed':
        order = order[1:] + order[:1]
        for k, b in zip(order, dac.inputs):
            adc.outputs[k].connect(b)
    elif how == 'packed':
        block = Pass(n, failAt)
        for k, b in zip(order, block.inputs):
            adc.outputs[k].connect(b)
        block.output.connect(dac.inputs[0])
    else:
        src = Block(nOutputs=1)
        src.update = lambda: None
        src.output.set_value(content(77, n))
        src.output.connect(dac.inputs[0])
    total = 5
    data = [frames(n, s) for s in range(total)]
    log = play(dac, [None if how == 'output only' else x.tobytes() for x in data])
    opened = FakePyAudio.opened
    require(opened['rate'] == SAMPLING_RATE and opened['channels'] == n and opened['frames'] == N and opened['format'] == pyaudio.paFloat32,
            '%s: stream opened as %s', case, opened)
    require(bool(opened['input']) == (how != 'output only') and opened['output'], '%s: stream directions %s', case, opened)
    require(FakePyAudio.calls == ['start', 'stop', 'close', 'terminate'], '%s: stream calls %s', case, FakePyAudio.calls)
    if how == 'packed' and failAt is not None:
        require(len(log) == failAt + 1 and log[-1][2] == pyaudio.paAbort, '%s: missing channel not reported: flags %s', case, [x[2] for x in log])
        require(log[-1][0].shape == (N, n) and not log[-1][0].any(), '%s: not silent when aborting', case)
        log = log[:-1]
    else:
        require(len(log) == total, '%s: %d cycles', case, len(log))
    for i, (copy, sent, flag) in enumerate(log):
        require(flag == pyaudio.paContinue, '%s: flag %s', case, flag)
        require((np.asarray(sent) == copy).all(), '%s: buffer %d changed after it was handed out', case, i)
        want = content(77, n).T.astype(np.float32) if how == 'output only' else data[i][:, order]
        require(copy.shape == want.shape and (copy == want).all(), '%s: cycle %d: wrong output', case, i)
    ctx.state(str(case))
    ctx.step(total)
    ctx.trace()
    ctx.outcome(how, len(log))


def card_cases(tier):
    top = 4 if tier == 'quick' else 6
    for n in range(1, top):
        for nIn in range(n + 1):
            for maxIn in range(top):
                for maxOut in range(top):
                    yield [n, nIn, maxIn, maxOut]


def card_run(case, ctx):
    """Cards with fewer channels than needed are refused before anything is played, all others play."""
    n, nIn, maxIn, maxOut = case
    dac = Dac(n)
    if nIn:
        adc = Adc(nIn)
        for k in range(n):
            adc.outputs[k % nIn].connect(dac.inputs[k])
    else:
        src = Block(nOutputs=1)
        src.update = lambda: None
        src.output.set_value(content(77, n))
        src.output.connect(dac.inputs[0])
    script = [frames(n, s).tobytes() if nIn else None for s in range(2)]
    enough = nIn <= maxIn and n <= maxOut
    try:
        log = play(dac, script, maxIn, maxOut)
    except (ValueError, OSError) as err:
        require(not enough, '%s: card refused', case)
        require(isinstance(err, ValueError) or not maxOut or nIn and not maxIn, '%s: refused with %r', case, err)
        require(not FakePyAudio.log, '%s: played before the card was refused', case)
        ctx.outcome('refused')
    else:
        require(enough, '%s: card with too few channels accepted', case)
        require(len(log) == 2 and all(x[0].shape == (N, n) for x in log), '%s: %d cycles', case, len(log))
        ctx.outcome('played')
    ctx.state(str(case))
    ctx.trace()


def live_cases(tier):
    for n in (1, 2, 3):
        for total in (1, 3, 5):
            for stop in [None] + list(range(total)):
                for error in ('interrupt', 'glitches') if stop is None else ('interrupt', 'error', 'glitches'):
                    yield [n, total, stop, error]


def live_run(case, ctx):
    """A live recording contains what was played, until it is stopped."""
    n, total, stop, error = case
    dac = Dac(n)
    adc = Adc(n)
    for a, b in zip(adc.outputs, dac.inputs):
        a.connect(b)
    data = [frames(n, s) for s in range(total)]
    path = os.path.join(os.environ['VERIF_SCRATCH'], 'p15_%d.wav' % os.getpid())
    if error == 'error':
        try:
            play(dac, [x.tobytes() for x in data], interrupt=stop, error=OSError('lost device'), filepath=path)
        except OSError:
            pass
        require(FakePyAudio.calls == ['start', 'stop', 'close', 'terminate'], '%s: stream calls %s after an error', case, FakePyAudio.calls)
        require(len(FakePyAudio.log) == stop, '%s: %d cycles', case, len(FakePyAudio.log))
        if os.path.exists(path):
            os.remove(path)
        ctx.trace()
        return
    # Reported under- and overflows, known and unknown, do not matter
    statuses = (0,) if error != 'glitches' else (0, 1, 2, 77, 4, 8, 3, 16)[n:]
    log = play(dac, [x.tobytes() for x in data], interrupt=stop, statuses=statuses, filepath=path)
    count = total if stop is None else stop
    require(len(log) == count, '%s: %d cycles', case, len(log))
    for i, (sent, _, flag) in enumerate(log):
        require(flag == pyaudio.paContinue and (sent == data[i]).all(), '%s: cycle %d: wrong output', case, i)
    require(FakePyAudio.calls == ['start', 'stop', 'close', 'terminate'], '%s: stream calls %s', case, FakePyAudio.calls)
    rate, got = scipy.io.wavfile.read(path)
    os.remove(path)
    want = np.concatenate([np.empty((0, n)), *data[:count]])
    got = got.astype(float).reshape(len(got), -1 if count else n)
    require(rate == SAMPLING_RATE and got.shape == want.shape, '%s: recording of shape %s', case, got.shape)
    if count:
        got *= abs(want).max() / abs(got).max()
        require(abs(got - want).max() < 1e-3 * abs(want).max(), '%s: recording differs from what was played', case)
    ctx.state(str(case))
    ctx.step(count)
    ctx.trace()
    ctx.outcome(n, count)


def length_cases(tier):
    top = 120 if tier == 'quick' else 500
    for k in range(0, top):
        for how in ('product', 'sum', 'quotient', 'half', 'less', 'more'):
            if k or how in ('half', 'more', 'product'):
                yield [k, how]


def length_run(case, ctx):
    """A live run ends with the first buffer which reaches its duration."""
    k, how = case
    interval = N / SAMPLING_RATE
    want = max(k, 1)
    if how == 'product':
        duration = k * interval
    elif how == 'sum':
        duration = sum([interval] * k)
    elif how == 'quotient':
        duration = k * N / SAMPLING_RATE
    elif how == 'half':
        duration, want = (k + .5) * interval, k + 1
    elif how == 'less':
        duration = (k * N - 1) / SAMPLING_RATE
    else:
        duration, want = (k * N + 1) / SAMPLING_RATE, k + 1
    dac = Dac(1)
    src = Pass(0)
    src.update = lambda: src.output.set_value(np.full(N, ((src.cycle * 37) % 101) / 101.))
    src.output.connect(dac.inputs[0])
    total = want + 3
    path = os.path.join(os.environ['VERIF_SCRATCH'], 'p15_%d.wav' % os.getpid())
    record = how in ('product', 'more')
    times = []
    done = src.update

    def update():
        src.cycle = len(times)
        times.append(ClockMixin.clock())
        done()

    src.update = update
    log = play(dac, [None] * total, duration=duration, **(dict(filepath=path) if record else {}))
    require(len(log) == want, '%s: %d buffers, expected %d', case, len(log), want)
    for i, (buf, _, flag) in enumerate(log):
        require(flag == (pyaudio.paComplete if i == want - 1 else pyaudio.paContinue), '%s: buffer %d: flag %s', case, i, flag)
        require((buf == np.float32(((i * 37) % 101) / 101.)).all(), '%s: buffer %d differs', case, i)
        require(abs(times[i] - i * interval) < 1e-6, '%s: clock reads %r in cycle %d', case, times[i], i)
    require(len(times) == want, '%s: %d cycles', case, len(times))
    require(FakePyAudio.calls == ['start', 'stop', 'close', 'terminate'], '%s: stream calls %s', case, FakePyAudio.calls)
    if record:
        _, got = scipy.io.wavfile.read(path)
        os.remove(path)
        require(got.shape[0] == want * N, '%s: %d samples recorded', case, got.shape[0])
    ctx.state(str(case))
    ctx.step(want)
    ctx.trace()
    ctx.outcome(how, min(want, 3))


FAMILIES = [
    Family('layouts', layout_cases, layout_run, 'all assignments of 6-9 signal layouts (unconnected, mono, stereo, 3 channels, no channel, ...) to 1-4 inputs'),
    Family('histories', history_cases, history_run,
           lambda t: 'all histories of %d operations (connect, disconnect, new layout or content) on 2 and 3 outputs' % (4 if t == 'quick' else 5)),
    Family('adc', adc_cases, adc_run, '1-6 captured channels x memory layouts x 3 buffers'),
    Family('engine', engine_cases, engine_run, 'running engine with a stand-in sound card: 1-3 channels, routings, missing channels in any cycle'),
    Family('cards', card_cases, card_run, 'all sound cards of 0-3 inputs and outputs x all patches of up to 3 channels'),
    Family('live', live_cases, live_run, 'live recordings of 1-5 buffers, finished, interrupted or failing before any of them'),
    Family('lengths', length_cases, length_run, lambda t: 'live runs of all durations of 0-%d buffers, a sample less or more, or half a buffer more' % (119 if t == 'quick' else 499)),
]
ASSUMPTIONS = ['the sound card delivers as many input channels as the stream was opened with (the engine opens it with the number of output channels)', 'no more input than output channels in a running engine']
