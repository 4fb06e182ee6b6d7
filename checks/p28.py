"""P28: showing blocks. All blocks, all short histories of patching, notes and updates; every state is shown."""
import itertools
import os
from fractions import Fraction

import numpy as np
import scipy.io.wavfile

from mc import Family, require
from klang.arpeggiator import Arpeggiator, Arpeggio
from klang.audio import effects, envelopes, oscillators, panning, sampling, synthesizer
from klang.audio.klanggeber import Adc, Dac
from klang.audio.mixer import Mixer, StereoMixer
from klang.audio.sync import Clock
from klang.audio.voices import Voice
from klang.block import Block
from klang.composite import Composite
from klang.config import BUFFER_SIZE, SAMPLING_RATE
from klang.connections import (
    Input, MessageInput, MessageOutput, MessageRelay, Output, Relay
)
from klang.errors import KlangError
from klang.keyboard import Keyboard, MusicalKeyboard
from klang.klang import run_klang
from klang.messages import Note
from klang.music.note_values import EIGHT_NOTE, QUARTER_NOTE
from klang.note_effects import MaxNotes, MessageMixer, NoteLengthener
from klang.ring_buffer import RingBuffer
from klang.sequencer import PatternLookup, PizzaSlicer, Sequencer
from klang.music.rhythm import MicroRhyhtm

N = BUFFER_SIZE
MONO = np.sin(np.arange(N) / 7.)
STEREO = np.stack([MONO, -.5 * MONO])


def wave():
    """Short wave file."""
    path = os.path.join(os.environ['VERIF_SCRATCH'], 'p28_%d.wav' % os.getpid())
    if not os.path.exists(path):
        scipy.io.wavfile.write(path, SAMPLING_RATE, (1e4 * np.sin(np.arange(700) / 9.)).astype(np.int16))
    return path


def voice():
    return Voice(oscillators.Oscillator(), envelopes.AR(.01, .01))


# Name -> (constructor, signals its value inputs are patched to)
BLOCKS = {
    'Block': (lambda: Block(nInputs=2, nOutputs=2, name='some block'), 'msv'),
    'nameless Block': (lambda: Block(nInputs=1), 'msv'),
    'empty Block': (lambda: Block(), ''),
    'Composite': (lambda: Composite(name='some composite'), ''),
    'Adc': (lambda: Adc(2), ''),
    'Dac': (lambda: Dac(2), 'ms'),
    'Mixer': (lambda: Mixer(nInputs=2, gains=[.5, 1.]), 'm'),
    'empty Mixer': (lambda: Mixer(), ''),
    'StereoMixer': (lambda: StereoMixer(nInputs=2), 'm'),
    'Clock': (lambda: Clock(3.), ''),
    'Voice': (voice, ''),
    'MonophonicSynthesizer': (lambda: synthesizer.MonophonicSynthesizer(voice()), ''),
    'PolyphonicSynthesizer': (lambda: synthesizer.PolyphonicSynthesizer(voice()), ''),
    'HiHat': (lambda: synthesizer.HiHat(), ''),
    'Kick': (lambda: synthesizer.Kick(), ''),
    'Arpeggiator': (lambda: Arpeggiator(.01), ''),
    'Arpeggiator in note values': (lambda: Arpeggiator(EIGHT_NOTE, order='down'), ''),
    'AudioFile': (lambda: sampling.AudioFile(wave()), ''),
    'AudioFile loop': (lambda: sampling.AudioFile(wave(), mono=True, loop=True, start=10, stop=300), ''),
    'NoteLengthener': (lambda: NoteLengthener(.01), ''),
    'MaxNotes': (lambda: MaxNotes(2), ''),
    'MessageMixer': (lambda: MessageMixer(2), ''),
    'PizzaSlicer': (lambda: PizzaSlicer(4), 'v'),
    'PatternLookup': (lambda: PatternLookup([60, 0, 62, 0]), ''),
    'Sequencer': (lambda: Sequencer([60, 0, 62]), ''),
    'Sequencer merged': (lambda: Sequencer([[60, 0, 62], [60, 61]], splitOutputs=False), ''),
    'Sequence': (lambda: Sequencer([60, 0, 62], tempo=90.).sequences[0], ''),
    'MicroRhyhtm': (lambda: MicroRhyhtm([QUARTER_NOTE, EIGHT_NOTE]), 'v'),
    'MicroRhyhtm with a name': (lambda: MicroRhyhtm([QUARTER_NOTE], name='swing'), 'v'),
    'Keyboard': (lambda: Keyboard(), ''),
    'MusicalKeyboard': (lambda: MusicalKeyboard(), ''),
    'ADSR': (lambda: envelopes.ADSR(.01, .02, .5, .01), ''),
    'AR': (lambda: envelopes.AR(.01, .02), ''),
    'D': (lambda: envelopes.D(.01), ''),
    'R': (lambda: envelopes.R(.01), ''),
    'Gain': (lambda: effects.Gain(.5), 'ms'),
    'Tremolo': (lambda: effects.Tremolo(), 'm'),
    'Delay': (lambda: effects.Delay(.01), 'ms'),
    'AudioSplitter': (lambda: effects.AudioSplitter(2), 'ms'),
    'AudioCombiner': (lambda: effects.AudioCombiner(2), 'm'),
    'StereoDelay': (lambda: effects.StereoDelay(.01, .02), 'ms'),
    'Filter': (lambda: effects.Filter(), 'ms'),
    'Subsampler': (lambda: effects.Subsampler(4), 'ms'),
    'Bitcrusher': (lambda: effects.Bitcrusher(4), 'ms'),
    'OctaveDistortion': (lambda: effects.OctaveDistortion(), 'ms'),
    'TanhDistortion': (lambda: effects.TanhDistortion(), 'ms'),
    'PitchShifter': (lambda: effects.PitchShifter(), 'm'),
    'Transformer': (lambda: effects.Transformer.from_limits(0., 2.), 'ms'),
    'Reverb': (lambda: effects.Reverb(), 'm'),
    'RingModulator': (lambda: effects.RingModulator(), 'm'),
    'Phasor': (lambda: oscillators.Phasor(2.), 'v'),
    'Phasor in note values': (lambda: oscillators.Phasor(EIGHT_NOTE), 'v'),
    'Oscillator': (lambda: oscillators.Oscillator(), 'vm'),
    'Oscillator in note values': (lambda: oscillators.Oscillator(Fraction(1, 4)), 'vm'),
    'Lfo': (lambda: oscillators.Lfo(), 'v'),
    'Lfo audio rate': (lambda: oscillators.Lfo(shape=N), 'vm'),
    'FmOscillator': (lambda: oscillators.FmOscillator(), 'vm'),
    'PwmOscillator': (lambda: oscillators.PwmOscillator(), 'v'),
    'Chirper': (lambda: oscillators.Chirper(100., .1, 200.), ''),
}
SIGNALS = {'m': MONO, 's': STEREO, 'v': 440.}
FREE = {'HiHat'}    # Noise


def value_inputs(block):
    return [x for x in block.inputs if isinstance(x, Input)]


def message_inputs(block):
    return [x for x in block.inputs if isinstance(x, MessageInput)]


def build(name):
    return BLOCKS[name][0]()


class World:
    """Block under test and what it is patched to."""

    def __init__(self, name):
        self.block = build(name)
        self.sources = {}
        for key, value in SIGNALS.items():
            src = Block(nOutputs=1, name='source')
            src.output.set_value(value)
            self.sources[key] = src
        self.sender = MessageOutput()
        self.sinks = []
        self.notes = 0

    def unpatch(self):
        for x in self.block.inputs:
            if x.connected:
                x.incomingConnection.disconnect(x)

    def do(self, op):
        block = self.block
        if op in SIGNALS:
            self.unpatch()
            for x in value_inputs(block):
                # Only the first one of the mixed inputs carries audio, others keep their parameters
                if x is block.inputs[0] or isinstance(block, (Dac, Mixer, effects.AudioCombiner)) or type(block) is Block:
                    self.sources[op].output.connect(x)
        elif op == 'unpatch':
            self.unpatch()
        elif op == 'update':
            block.update()
        elif op == 'note':
            self.notes += 1
            note = Note(60 + self.notes % 3, velocity=float(self.notes % 2))
            for x in message_inputs(block):
                x.push(self.notes % 3 if isinstance(block, PatternLookup) else note)
        elif op == 'use':
            for x in block.outputs:
                y = Input() if isinstance(x, (Output, Relay)) else MessageInput()
                x.connect(y)
                self.sinks.append(y)
        elif op == 'play':
            if isinstance(block, sampling.AudioFile):
                block.play() if not block.playing else block.pause()
        else:
            raise AssertionError(op)


def operations(name):
    block = build(name)
    ops = ['update'] + list(BLOCKS[name][1])
    if BLOCKS[name][1]:
        ops.append('unpatch')
    if message_inputs(block):
        ops.append('note')
    if block.outputs:
        ops.append('use')
    if isinstance(block, sampling.AudioFile):
        ops.append('play')
    return ops


def show(case, block, history):
    """All texts of a block."""
    where = '%s after %s' % (case[0], history)
    text = str(block)
    require(isinstance(text, str) and text.startswith(type(block).__name__), '%s: shown as %r', where, text)
    require(isinstance(repr(block), str), '%s: no representation', where)
    if block.name and type(block) in (Block, Composite):
        require(block.name in text, '%s: shown as %r without its name', where, text)
    if isinstance(block, sampling.AudioFile):
        require(('Playing' in text) == bool(block.playing), '%s: shown as %r', where, text)
    texts = [text]
    for x in list(block.inputs) + list(block.outputs):
        line = str(x)
        require(line.startswith(type(x).__name__), '%s: connection shown as %r', where, line)
        require(('not connected' not in line) == bool(x.connected) and 'connected' in line, '%s: connection shown as %r', where, line)
        if x.owner is block:
            require(text in line, '%s: connection shown as %r without its block', where, line)
        texts.append(line)
    return texts


def refused(case, world, history):
    """Impossible connections are reported as such, in every state."""
    for x in world.block.inputs:
        bad = [MessageOutput() if isinstance(x, Input) else Output()]
        if x.connected:
            bad.append(Output() if isinstance(x, Input) else MessageOutput())
        for src in bad:
            before = x.incomingConnection
            try:
                src.connect(x)
            except KlangError:
                pass
            except Exception as err:  # pylint: disable=broad-except
                require(False, '%s after %s: refused connection reported as %r', case[0], history, err)
            else:
                require(False, '%s after %s: impossible connection accepted', case[0], history)
            require(x.incomingConnection is before and not src.outgoingConnections, '%s after %s: refused connection left traces', case[0], history)


def outputs(block):
    ret = []
    for x in block.outputs:
        if isinstance(x, (Output, Relay)):
            ret.append(np.array(x.value, dtype=float))
    return ret


def history_cases(tier):
    for name in BLOCKS:
        for first in operations(name):
            yield [name, first]


def history_run(case, ctx):
    """Every state of every history is shown; an unseen twin does the same."""
    name, first = case
    ops = operations(name)
    depth = 5 if ctx.thorough else 4
    slow = name in ('PolyphonicSynthesizer', 'Filter', 'Reverb', 'StereoDelay')
    if slow:
        depth -= 2
    show(case, build(name), [])
    for tail in itertools.product(ops, repeat=depth - 1):
        history = [first, *tail]
        np.random.seed(1)
        seen, unseen = World(name), World(name)
        done = []
        for op in history:
            try:
                unseen.do(op)
            except Exception:  # pylint: disable=broad-except
                # E.g. effects whose audio input has never been patched
                break
            done.append(op)
            seen.do(op)
            texts = show(case, seen.block, done)
            require(show(case, seen.block, done) == texts, '%s after %s: shown differently the second time', name, done)
            refused(case, seen, done)
            if name not in FREE:
                for a, b in zip(outputs(seen.block), outputs(unseen.block)):
                    require(a.shape == b.shape and np.array_equal(a, b), '%s after %s: showing it has changed its output', name, done)
            for a, b in zip(seen.sinks, unseen.sinks):
                if isinstance(a, MessageInput):
                    require(list(a.queue) == list(b.queue), '%s after %s: showing it has changed its messages', name, done)
            ctx.state(name, tuple(texts))
            ctx.step()
        ctx.trace()
        ctx.outcome(name, tuple(done))


PARAMETERS = {'scalar': .5, 'whole': 2, 'note value': Fraction(1, 8), 'numpy scalar': np.float64(.25),
              'audio rate': np.linspace(.1, .9, N)}


def parameter_cases(tier):
    for name in BLOCKS:
        count = len([x for x in build(name).inputs if isinstance(x, (Input, Relay)) and not x.connected])
        if not count:
            continue
        kinds = list(PARAMETERS) + ['keep']
        for combo in itertools.product(kinds, repeat=min(count, 3 if tier == 'quick' else 4)):
            yield [name, list(combo)]


def parameter_run(case, ctx):
    """All kinds of signals at all inputs, also at the parameters: set or patched, before and after an update."""
    name, combo = case
    for patched in (False, True):
        block = build(name)
        ins = [x for x in block.inputs if isinstance(x, (Input, Relay)) and not x.connected]
        sources = []
        for x, kind in zip(ins, combo):
            if kind == 'keep':
                continue
            value = PARAMETERS[kind]
            if patched:
                src = Output(value=value)
                src.connect(x)
                sources.append(src)
            else:
                x.set_value(value)
        for done in ([], ['update']):
            if done:
                try:
                    block.update()
                except Exception:  # pylint: disable=broad-except
                    break   # Not every parameter can have every kind of signal
            texts = show(case, block, done)
            require(show(case, block, done) == texts, '%s after %s: shown differently the second time', case, done)
            ctx.step()
        ctx.outcome(name, patched, len(texts[0]))
    ctx.state(str(case))
    ctx.trace()


def start_cases(tier):
    for name in BLOCKS:
        if name in ('Adc', 'Dac', 'Sequence'):
            continue
        for signal in BLOCKS[name][1] or ('',):
            for again in (1, 2):
                yield [name, signal, again]


def start_run(case, ctx):
    """The engine starts from any block, also when it has been running before."""
    name, signal, again = case
    world = World(name)
    if signal:
        world.do(signal)
    count = []
    original = world.block.update

    def update():
        count.append(1)
        original()
    world.block.update = update
    dac = Dac(1)
    osc = oscillators.Oscillator()
    osc | dac
    for k in range(again):
        world.do('note')
        run_klang(world.block, dac, duration=3 * N / SAMPLING_RATE, offline=True)
        require(len(count) == 3 * (k + 1), '%s: updated %d times in %d runs of 3 buffers', case, len(count), k + 1)
        show(case, world.block, ['run'])
    ctx.state(name, signal)
    ctx.step(3 * again)
    ctx.trace()
    ctx.outcome(name)


def loop_cases(tier):
    for name in BLOCKS:
        if name in ('Adc', 'Dac', 'Sequence'):
            continue
        for signal in BLOCKS[name][1] or ('',):
            for patched in (False, True):
                yield [name, signal, patched]


def loop_run(case, ctx):
    """Without audio the engine starts from any block just as well."""
    name, signal, patched = case
    world = World(name)
    if signal:
        world.do(signal)
    if patched:
        world.do('use')
    world.do('note')
    done = Block(name='done')
    original, count = world.block.update, []

    def update():
        original()
        count.append(1)
        if len(count) == 3:
            raise KeyboardInterrupt     # The only way out of the loop
    world.block.update = update
    try:
        run_klang(world.block, done)
    except KeyboardInterrupt:
        pass
    require(len(count) == 3, '%s: updated %d times', case, len(count))
    count.clear()
    try:
        run_klang(world.block)
    except KeyboardInterrupt:
        pass
    require(len(count) == 3, '%s: updated %d times alone', case, len(count))
    show(case, world.block, ['run'])
    ctx.state(name, signal, patched)
    ctx.step(6)
    ctx.trace()
    ctx.outcome(name)


def thing_cases(tier):
    for kind in ('note', 'arpeggio', 'ring', 'filter', 'connections'):
        yield [kind]


def thing_run(case, ctx):
    """Notes, arpeggios, ring buffers, filters and lone connections."""
    kind, = case
    things = []
    if kind == 'note':
        things = [Note(p, v, f) for p in (0, 60, 127) for v in (0., .3, 1.) for f in (None, 0., 440)]
    elif kind == 'arpeggio':
        notes = [Note(60), Note(64, .5), Note(67, .1)]
        for order in ('up', 'down', 'upDown', 'downUp', 'alternating', 'random'):
            for n in range(4):
                arp = Arpeggio(order, notes[:n])
                things.append(arp)
                for _ in range(n):
                    next(arp)
                    things.append(arp)
                    require(str(arp) and all(str(x.pitch) in str(arp) for x in arp), '%s: notes missing in %s', order, arp)
    elif kind == 'ring':
        for length in (1, 5, 300):
            for capacity in (None, 400):
                things.append(RingBuffer(length, capacity))
                require(str(length) in str(things[-1]), 'length missing in %s', things[-1])
    elif kind == 'filter':
        for kwargs in ({}, dict(N=1), dict(btype='highpass', frequency=100.), dict(N=3)):
            fil = effects.Filter(**kwargs)
            things.extend(getattr(fil, 'filters', []))
            things.append(fil)
    else:
        classes = [Input, Output, Relay, MessageInput, MessageOutput, MessageRelay]
        things = [cls() for cls in classes]
        for src in (Output, Relay):
            for dst in (Input, Relay):
                a, b = src(), dst()
                a.connect(b)
                things += [a, b]
        for x in things:
            line = str(x)
            require(('not connected' not in line) == bool(x.connected) and 'owner' not in line, 'connection shown as %r', line)
    for x in things:
        text = str(x)
        require(isinstance(text, str) and text.startswith(type(x).__name__), '%s: shown as %r', kind, text)
        require(str(x) == text, '%s: shown differently the second time', kind)
        ctx.state(kind, text)
        ctx.step()
    ctx.trace()
    ctx.outcome(kind, len(things))


FAMILIES = [
    Family('histories', history_cases, history_run,
           lambda t: '%d blocks: all histories of %d operations (2 less for the heaviest blocks) of patching, notes, use and updates, every state shown' % (len(BLOCKS), 4 if t == 'quick' else 5), timeout=600.),
    Family('parameters', parameter_cases, parameter_run, 'each block x all assignments of 6 kinds of signals (scalars, note values, audio rate) to its first 3-4 inputs, set or patched, before and after an update'),
    Family('starts', start_cases, start_run, 'engine runs started from each of the blocks with each kind of input, once and again'),
    Family('loops', loop_cases, loop_run, 'no-audio loops (3 cycles, twice) started from each of the blocks, alone and patched'),
    Family('things', thing_cases, thing_run, 'notes, arpeggios, ring buffers, filters and connections without blocks'),
]
ASSUMPTIONS = ['audio inputs of effects are patched to audio before the effect is updated']
