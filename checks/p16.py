"""P16: mixers, panning and the plus operator. All histories against a list of channels."""
import copy
import itertools
import math

import numpy as np

from mc import Family, require, sequences, expect_raises
from klang.audio.envelopes import R
from klang.audio.mixer import Mixer, StereoMixer
from klang.audio.panning import pan_signal, panning_amplitudes
from klang.audio.synthesizer import duplicate_voice
from klang.audio.voices import Voice
from klang.block import Block
from klang.composite import Composite
from klang.connections import MessageInput, MessageOutput, Output, Relay
from klang.messages import Note
from checks.p10 import ProbeOscillator

N = 256


def content(seed, rows=None):
    """Deterministic dyadic signals: sums are exact."""
    base = (np.arange(N * (rows or 1)) * 37 + seed * 101) % 255
    y = (base - 127.) / 128.
    return y.reshape(rows, N) if rows else y


def block(seed, rows=None):
    b = Block(nOutputs=1)
    b.output.set_value(content(seed, rows))
    return b


def amplitudes(pan, mode='constant_power', panLaw=None):
    """Independent formula of the panning amplitudes."""
    pan = max(-1., min(1., pan))
    right = .5 * (1. + pan)
    if mode == 'linear':
        left, right, center = 1. - right, right, .5
    else:
        angle = math.pi / 4 * (1. + pan)
        s, c = max(0., math.sin(angle)), max(0., math.cos(angle))
        if mode == 'constant_power':
            left, right, center = c, s, math.cos(math.pi / 4)
        else:
            left, right, center = math.sqrt((1. - right) * c), math.sqrt(right * s), math.sqrt(.5 * math.cos(math.pi / 4))
    if panLaw is not None:
        alpha = (panLaw - 20. * math.log10(2.)) / (40. * math.log10(center))
        left, right = left ** alpha, right ** alpha
    return np.array([[left], [right]])


class Model:
    """Reference mixer: list of [gain, panning, signal]."""

    def __init__(self, stereo, mode='constant_power', panLaw=None):
        self.stereo, self.mode, self.panLaw = stereo, mode, panLaw
        self.channels = []

    def add(self, gain=1., panning=0., sig=None):
        self.channels.append([gain, panning, 0. if sig is None else sig])

    def output(self):
        y = np.zeros((2, N)) if self.stereo else np.zeros(N)
        for gain, panning, sig in self.channels:
            y = y + gain * (amplitudes(panning, self.mode, self.panLaw) if self.stereo else 1.) * sig
        return y / len(self.channels) if self.channels else y


def check(what, mixer, model, srcs=()):
    require(len(mixer.inputs) == len(model.channels) == mixer.nInputs, '%s: %d channels, expected %d', what, len(mixer.inputs), len(model.channels))
    keep = [np.array(s) for s in srcs]
    mixer.update()
    got, want = np.asarray(mixer.output.value), model.output()
    require(got.shape == want.shape, '%s: output shape %s, expected %s', what, got.shape, want.shape)
    require(np.allclose(got, want, rtol=0, atol=1e-6), '%s: output differs by up to %r', what, float(abs(got - want).max()))
    for s, k in zip(srcs, keep):
        require((np.asarray(s) == k).all(), '%s: signals modified', what)


# Histories of one mixer

OPS = ('add', 'add gain', 'plus', 'plus output', 'plus relay', 'iadd', 'bad message', 'bad number', 'bad block',
       'gain first', 'gain last', 'pan last', 'patch', 'unpatch', 'change')


def history_cases(tier):
    for stereo in (False, True):
        for start in (0, 2):
            for head in sequences(range(len(OPS)), 2):
                yield [stereo, start, 4 if tier == 'quick' else 5, list(head)]


def history_run(case, ctx):
    stereo, start, depth, head = case
    for tail in sequences(range(len(OPS)), depth - 2):
        seq = [OPS[i] for i in head + list(tail)]
        mixer = StereoMixer(start) if stereo else Mixer(start)
        model = Model(stereo)
        srcs = []
        for i in range(start):
            model.add()
        for step, op in enumerate(seq):
            seed = step + 1
            what = (case[:2], seq[:step + 1])
            ch = model.channels
            rows = 2 if stereo and step % 2 else None
            if op == 'add':
                mixer.add_new_channel()
                model.add()
            elif op == 'add gain':
                if stereo:
                    mixer.add_new_channel(gain=.25, panning=.5)
                    model.add(.25, .5)
                else:
                    mixer.add_new_channel(.25)
                    model.add(.25)
            elif op in ('plus', 'iadd', 'plus output', 'plus relay'):
                b = block(seed, rows)
                srcs.append(b)
                n = len(mixer.inputs)
                other = b
                if op == 'plus output':
                    other = b.output
                if op == 'plus relay':
                    other = Relay()
                    b.output.connect(other)
                if op == 'iadd':
                    same = mixer
                    mixer += other
                else:
                    same = mixer + other
                require(same is mixer, '%s: addition returned another mixer', what)
                require(len(mixer.inputs) == n + 1 and mixer.inputs[-1].incomingConnection in (b.output, other), '%s: operand is not the last channel', what)
                model.add(1., 0., content(seed, rows))
            elif op.startswith('bad'):
                bad = {'bad message': MessageOutput(), 'bad number': 3, 'bad block': Block()}[op]
                require(expect_raises(lambda: mixer + bad), '%s: addition did not fail', what)

                def iadd():
                    m = mixer
                    m += bad
                require(expect_raises(iadd), '%s: addition did not fail', what)
            elif op == 'gain first' and ch:
                mixer.gains[0] = ch[0][0] = .5 + step
            elif op == 'gain last' and ch:
                mixer.gains[-1] = ch[-1][0] = -.125 * step
            elif op == 'pan last' and ch and stereo:
                mixer.pannings[-1] = ch[-1][1] = (-1., 1., .25, -2.)[step % 4]
            elif op == 'patch' and ch:
                for inp, c in zip(mixer.inputs, ch):
                    if not inp.connected:
                        b = block(seed, rows)
                        srcs.append(b)
                        b.output.connect(inp)
                        c[2] = content(seed, rows)
                        break
            elif op == 'unpatch' and ch:
                for inp, c in zip(mixer.inputs, ch):
                    if inp.connected:
                        inp.incomingConnection.disconnect(inp)
                        c[2] = 0.
                        break
            elif op == 'change' and ch and mixer.inputs[0].connected:
                src = mixer.inputs[0].incomingConnection
                if type(src) is Output:
                    src.set_value(content(seed + 50, rows))
                    ch[0][2] = content(seed + 50, rows)
            require(len(mixer.gains) == len(mixer.inputs) and (not stereo or len(mixer.pannings) == len(mixer.inputs)),
                    '%s: %d inputs, %d gains', what, len(mixer.inputs), len(mixer.gains))
            check(what, mixer, model, [s.output.value for s in srcs])
            ctx.state(stereo, tuple((g, p, np.ndim(s)) for g, p, s in ch))
            ctx.step()
        ctx.trace()
        ctx.outcome(stereo, np.asarray(mixer.output.value).tobytes())


# Plus operator between blocks

OPERANDS = ('block', 'output', 'second output', 'mixer', 'empty mixer')


def plus_cases(tier):
    for n in (2, 3, 4) if tier == 'quick' else (2, 3, 4, 5):
        for kinds in itertools.product(OPERANDS[:3], repeat=n):
            for first in OPERANDS:
                kinds = (first,) + kinds[1:]
                for same in (False, True):
                    if 'block' in kinds[:2] or first.endswith('mixer'):
                        yield [list(kinds), same]


def plus_run(case, ctx):
    """Left to right sum of n operands: one mixer, each operand once and in order."""
    kinds, same = case
    operands, outputs, signals = [], [], []
    shared = None
    prior = None
    for i, kind in enumerate(kinds):
        b = Block(nOutputs=2)
        b.output.set_value(content(2 * i + 1))
        b.outputs[1].set_value(content(2 * i + 2))
        if kind == 'block':
            if same and shared is not None:
                b, sig = shared
            else:
                sig = content(2 * i + 1)
            shared = b, sig
            operands.append(b)
            outputs.append(b.output)
            signals.append(sig)
        elif kind == 'output':
            operands.append(b.output)
            outputs.append(b.output)
            signals.append(content(2 * i + 1))
        elif kind == 'second output':
            operands.append(b.outputs[1])
            outputs.append(b.outputs[1])
            signals.append(content(2 * i + 2))
        else:
            prior = Mixer()
            if kind == 'mixer':
                prior += b
                outputs.append(b.output)
                signals.append(content(2 * i + 1))
            operands.append(prior)
    total = operands[0] + operands[1]
    for op in operands[2:]:
        total = total + op
    require(isinstance(total, Mixer), '%s: sum is a %s', case, type(total))
    got = [inp.incomingConnection for inp in total.inputs]
    require(got == outputs, '%s: channels of the sum are not the operands in order (%d channels)', case, len(got))
    model = Model(False)
    for sig in signals:
        model.add(sig=sig)
    check(case, total, model)
    ctx.state(str(case))
    ctx.step(len(kinds))
    ctx.trace()
    ctx.outcome(len(outputs), same)


def nested_cases(tier):
    for kind in ('block', 'output', 'mixer', 'self'):
        for left in (True, False):
            for n in (1, 2, 3):
                yield [kind, left, n]


def nested_run(case, ctx):
    """Mixer as left or right operand: the result is the mean of its channels and every operand takes part once."""
    kind, left, n = case
    mixer = Mixer()
    for i in range(n):
        mixer += block(i + 1)
    b = block(9)
    if kind == 'self':
        other = b
        total = mixer + other
        total = total + other
        want = [content(i + 1) for i in range(n)] + [content(9)] * 2
    elif kind == 'mixer':
        other = Mixer()
        other += b
        other += block(10)
        total = mixer + other if left else other + mixer
        inner = [other] if total is mixer else [mixer]
        for m in inner:
            m.update()
        want = None
    else:
        other = b if kind == 'block' else b.output
        total = mixer + other if left else other + mixer
        want = None
    if want is None:
        sources = [inp.incomingConnection for inp in total.inputs]
        first = fetch(mixer)
        second = fetch(other)
        uses = [sum(s is x for s in sources) for x in (first, second)]
        require(uses[1] == 1 if total is mixer else uses[0] == 1 if total is other else uses == [1, 1], '%s: operands are patched %s times', case, uses)
        mixer.update()
        want = [np.asarray(s.value) for s in sources]
    model = Model(False)
    for sig in want:
        model.add(sig=sig)
    check(case, total, model)
    ctx.state(str(case))
    ctx.step(n)
    ctx.trace()
    ctx.outcome(len(want))


def fetch(x):
    return x.output if isinstance(x, Block) else x


def failing_cases(tier):
    for left in ('block', 'output', 'message', 'empty', 'number'):
        for right in ('block', 'message', 'empty', 'number'):
            if left in ('message', 'empty', 'number') or right in ('message', 'empty', 'number'):
                if left != 'number' or right != 'number':
                    yield [left, right]


def failing_run(case, ctx):
    """Sums that are not possible raise and connect nothing."""
    def make(kind):
        if kind == 'message':
            b = Block()
            b.outputs = [MessageOutput(owner=b)]
            return b
        return {'block': lambda: block(1), 'output': lambda: block(2).output, 'empty': Block, 'number': lambda: 4}[kind]()
    left, right = make(case[0]), make(case[1])
    require(expect_raises(lambda: left + right), '%s: sum did not fail', case)
    for x in (left, right):
        outs = x.outputs if isinstance(x, Block) else [x] if isinstance(x, Output) else []
        require(not any(o.connected for o in outs), '%s: failed sum left a connection', case)
    ctx.state(str(case))
    ctx.step()
    ctx.trace()
    ctx.outcome(str(case))


# Several mixers

def share_cases(tier):
    ops = ['gain', 'add', 'pan', 'plus']
    for stereo in (False, True):
        for given in ('default', 'list', 'tuple'):
            for n in (0, 1, 2):
                for seq in sequences([(k, op) for k in (0, 1) for op in ops], 3 if tier == 'quick' else 4):
                    yield [stereo, given, n, [list(o) for o in seq]]


def share_run(case, ctx):
    """Two mixers from the same arguments: histories of one never show in the other, nor in the arguments."""
    stereo, given, n, seq = case
    gains, pannings = [.5 + i for i in range(n)], [.25 * i for i in range(n)]
    if given == 'tuple':
        gains, pannings = tuple(gains), tuple(pannings)
    args = copy.copy(gains), copy.copy(pannings)
    mixers, models = [], []
    for _ in range(2):
        if given == 'default':
            mixers.append(StereoMixer(n) if stereo else Mixer(n))
        elif stereo:
            mixers.append(StereoMixer(n, gains=gains, pannings=pannings))
        else:
            mixers.append(Mixer(n, gains=gains))
        models.append(Model(stereo))
        for i in range(n):
            if given == 'default':
                models[-1].add()
            else:
                models[-1].add(gains[i], pannings[i] if stereo else 0.)
    for k in (0, 1):
        for i, inp in enumerate(mixers[k].inputs):
            block(10 * k + i + 1).output.connect(inp)
            models[k].channels[i][2] = content(10 * k + i + 1)
    for step, (k, op) in enumerate(seq):
        m, model = mixers[k], models[k]
        if op == 'gain' and model.channels:
            m.gains[0] = model.channels[0][0] = 3. + step
        elif op == 'pan' and model.channels and stereo:
            m.pannings[0] = model.channels[0][1] = -.5 - step / 8
        elif op == 'add':
            m.add_new_channel()
            model.add()
        elif op == 'plus':
            m += block(30 + step)
            model.add(sig=content(30 + step))
        for j in (0, 1):
            check((case, step, j), mixers[j], models[j])
        require((gains, pannings) == args, '%s: arguments changed', case)
        first = np.array(mixers[0].output.value)
        mixers[1].update()
        require((np.asarray(mixers[0].output.value) == first).all(), '%s: outputs share memory', case)
        ctx.step()
    ctx.state(str(case))
    ctx.trace()
    ctx.outcome(np.asarray(mixers[0].output.value).tobytes())


def wrong_cases(tier):
    for stereo in (False, True):
        for n in (0, 1, 2):
            for m in (0, 1, 2, 3):
                if m != n:
                    yield [stereo, n, m]


def wrong_run(case, ctx):
    stereo, n, m = case
    require(expect_raises(StereoMixer if stereo else Mixer, n, gains=[1.] * m), '%s: wrong number of gains accepted', case)
    if stereo:
        require(expect_raises(StereoMixer, n, pannings=[0.] * m), '%s: wrong number of pannings accepted', case)
    ctx.state(str(case))
    ctx.step()
    ctx.trace()
    ctx.outcome(str(case))


# Panning

MODES = ('linear', 'constant_power', 'mixture')


def pan_cases(tier):
    for mode in MODES:
        for panLaw in (None, 0, -1.5, -3, -4.5, -6, -12):
            for k in range(-24, 25):
                yield [mode, panLaw, k / 20.]


def pan_run(case, ctx):
    mode, panLaw, pan = case
    want = amplitudes(pan, mode, panLaw)
    for _ in range(2):
        got = np.asarray(panning_amplitudes(pan, mode, panLaw))
        require(got.shape == (2, 1) and np.allclose(got, want, rtol=0, atol=1e-6), '%s: amplitudes %s, expected %s', case, got.ravel(), want.ravel())
    mine = panning_amplitudes(pan, mode, panLaw)
    try:
        mine *= 3.
    except ValueError:
        pass    # Read only
    got = np.asarray(panning_amplitudes(pan, mode, panLaw))
    require(np.allclose(got, want, rtol=0, atol=1e-6), '%s: changing the returned amplitudes changed later ones to %s', case, got.ravel())
    mirror = np.asarray(panning_amplitudes(-pan, mode, panLaw))
    require(np.allclose(mirror[::-1], got, rtol=0, atol=1e-6), '%s: left and right are not symmetric', case)
    for sig in (content(3), content(4, 2)):
        keep = sig.copy()
        y = np.asarray(pan_signal(sig, pan, mode, panLaw))
        require(y.shape == (2, N) and np.allclose(y, want * sig, rtol=0, atol=1e-6), '%s: panned signal', case)
        require((sig == keep).all(), '%s: signal modified', case)
    mixer = StereoMixer(2, gains=[.5, 2.], pannings=[pan, -.3], mode=mode, panLaw=panLaw)
    model = Model(True, mode, panLaw)
    model.add(.5, pan, content(3))
    model.add(2., -.3, content(4, 2))
    for inp, b in zip(mixer.inputs, (block(3), block(4, 2))):
        b.output.connect(inp)
    check(case, mixer, model)
    ctx.state(str(case))
    ctx.step(6)
    ctx.trace()
    ctx.outcome(got.tobytes())


# Voices

def voice_cases(tier):
    ops = [(k, op) for k in range(3) for op in ('on', 'off', 'freq')]
    for seq in sequences(ops, 3 if tier == 'quick' else 4):
        yield [list(o) for o in seq]


def voice_run(case, ctx):
    """Voices copied from one template never influence each other or the template."""
    template = Voice(ProbeOscillator(100.), R(0.))
    voices = duplicate_voice(template, 2) + [copy.deepcopy(template)]
    state = [[0., 100.] for _ in voices]

    def run_and_check(what):
        for i, v in enumerate(voices):
            v.update()
            y = np.asarray(v.output.value)
            level, freq = state[i]
            require(np.allclose(y[N // 2:], level) and np.allclose(y[:N // 2], level * freq), '%s: voice %d has levels %s, expected %s of %s', what, i, (y[0], y[-1]), level, freq)
    run_and_check('copy')
    for step, (k, op) in enumerate(case):
        if op == 'on':
            note = Note(60 + step, .25 + step / 8., frequency=50. + step)
            voices[k].input.push(note)
            state[k] = [note.velocity, note.frequency]
        elif op == 'off':
            voices[k].input.push(Note(60, 0.))
            state[k][0] = 0.
        else:
            voices[k].oscillator.frequency.set_value(70. + step)
            state[k][1] = 70. + step
        run_and_check((case, step))
        ctx.step()
    template.update()
    require(not np.asarray(template.output.value).any(), '%s: template voice sounds', case)
    ctx.state(str(case))
    ctx.trace()
    ctx.outcome(str(state))


def mode_cases(tier):
    for mode in ('linear', 'constant_power', 'mixture', 'foo', '', 'Linear', None, 1):
        for law in (None, 0, -3, -6., 1, 3, .5):
            yield [mode, law]


def mode_run(case, ctx):
    """Unknown modes and positive laws are refused, for levels and signals, whatever was asked for before."""
    mode, law = case
    valid = mode in ('linear', 'constant_power', 'mixture') and (law is None or law <= 0)
    for level in (-1., 0., .5, 1., 2.):
        for _ in range(2):
            for func, args in ((panning_amplitudes, (level,)), (pan_signal, (np.ones(4), level))):
                failed = expect_raises(func, *args, mode, law)
                require(failed != valid, '%s: %s is %s', case, func.__name__, 'refused' if failed else 'accepted')
                require(failed == expect_raises(func, *args, mode=mode, panLaw=law), '%s: depends on how arguments are given', case)
                ctx.step()
        panning_amplitudes(level)
    ctx.state(mode, law)
    ctx.trace()
    ctx.outcome(valid)


FAMILIES = [
    Family('histories', history_cases, history_run,
           lambda t: 'all histories of %d operations (15: additions, failing additions, gains, pannings, patching) on mono and stereo mixers' % (4 if t == 'quick' else 5)),
    Family('plus', plus_cases, plus_run, 'left-associative sums of 2-4 (5) operands of 5 kinds, repeated operands'),
    Family('nested', nested_cases, nested_run, 'mixers as left and right operands'),
    Family('failing', failing_cases, failing_run, 'sums that are not possible'),
    Family('sharing', share_cases, share_run, 'all histories of 3 (4) operations on two mixers built from the same arguments'),
    Family('arguments', wrong_cases, wrong_run, 'wrong numbers of gains and pannings'),
    Family('panning', pan_cases, pan_run, '49 panning levels x 3 modes x 7 pan laws'),
    Family('modes', mode_cases, mode_run, '8 modes x 7 laws, known and unknown'),
    Family('voices', voice_cases, voice_run, 'all histories of 3 (4) operations on three voices from one template'),
]
ASSUMPTIONS = ['where a mixer is the right operand of an addition, it is open whether it is extended or nested']
