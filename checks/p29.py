"""P29: independence of networks. All pairs of a catalogue of networks in all interleavings, all patching orders, starts and re-patchings.

Every execution happens in a child process forked from a process that never ran any klang block, so that the reference
('the network on its own') can not be polluted by what the explored histories leave behind.
"""
import functools
import itertools
import os
import pickle
import random
import runpy

import numpy as np
import scipy.io.wavfile
import scipy.signal

import klang.klang
from mc import Family, Violation, require
from klang.arpeggiator import Arpeggiator
from klang.audio import effects, envelopes, oscillators, sampling, synthesizer
from klang.audio.helpers import INTERVAL
from klang.audio.klanggeber import Dac
from klang.audio.mixer import Mixer, StereoMixer
from klang.audio.sync import Clock
from klang.audio.voices import Voice
from klang.audio.waves import sawtooth, square, triangle
from klang.block import Block
from klang.clock import ClockMixin
from klang.config import BUFFER_SIZE, SAMPLING_RATE
from klang.connections import Input, MessageInput, MessageOutput, MessageRelay
from klang.execution import determine_execution_order
from klang.klang import run_klang
from klang.messages import Note
from klang.music.note_values import EIGHT_NOTE, QUARTER_NOTE
from klang.music.rhythm import MicroRhyhtm
from klang.note_effects import MaxNotes, MessageMixer, NoteLengthener
from klang.sequencer import Sequencer

N = BUFFER_SIZE
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(klang.klang.__file__)))
ON, OFF = Note(60, velocity=.8), Note(60, velocity=0.)
HIGH, HIGH_OFF = Note(67, velocity=.5), Note(67, velocity=0.)


def buffers(seed, channels=1):
    rng = np.array([((n * 7919 + n * n * 31 + seed * 977) % 1009) / 504.5 - 1. for n in range(3 * channels * N)])
    return [chunk if channels > 1 else chunk[0] for chunk in rng.reshape(3, channels, N)]


# Shared by all networks on purpose. Nobody may change them.
MONO = buffers(1)
OTHER = buffers(2)
STEREO = buffers(3, 2)
STEPS = [60, 0, 64, 67]
CHORDS = [[60, 64], [0], [67], [60]]
GAINS = [.5, .25]
PANS = [-1., .5]
RHYTHM = [QUARTER_NOTE, EIGHT_NOTE]
HELD = [Note(64, velocity=.5), Note(60, velocity=1.), Note(67, velocity=.25)]
SHARED = dict(MONO=MONO, OTHER=OTHER, STEREO=STEREO, STEPS=STEPS, CHORDS=CHORDS, GAINS=GAINS, PANS=PANS, RHYTHM=RHYTHM, HELD=HELD,
              NOTES=[ON, OFF, HIGH, HIGH_OFF])
ORIGINAL = pickle.dumps(SHARED)

butter = functools.lru_cache(maxsize=None)(scipy.signal.butter)


class Source(Block):

    """Plays buffers, one after the other, for ever."""

    def __init__(self, data):
        super().__init__(nOutputs=1)
        self.data = data
        self.number = 0
        self.output.set_value(data[-1])

    def update(self):
        self.output.set_value(self.data[self.number % len(self.data)])
        self.number += 1


class Player(Block):

    """Plays notes. One list of notes per update."""

    def __init__(self, score):
        super().__init__()
        self.outputs = [MessageOutput(owner=self)]
        self.score = list(score)
        self.number = 0

    def update(self):
        if self.number < len(self.score):
            for note in self.score[self.number]:
                self.output.send(note)
        self.number += 1


class Tap(Block):

    """Records what arrives, once per update."""

    def __init__(self, src):
        super().__init__()
        self.messages = isinstance(src, (MessageOutput, MessageRelay))
        self.inputs = [(MessageInput if self.messages else Input)(owner=self)]
        src.connect(self.input)
        self.record = []
        self.kept = []

    def update(self):
        if self.messages:
            value = [m if not isinstance(m, Note) else (m.pitch, m.velocity, m.frequency) for m in self.input.receive()]
        else:
            raw = self.input.value
            self.kept.append(raw)
            value = np.array(raw, dtype=float)
        self.record.append(value)


SCORE = [[ON], [HIGH], [OFF], [HIGH_OFF, ON], [OFF], []]
HITS = [[ON], [OFF], [ON], [], [HIGH]]


def wave(channels):
    path = os.path.join(os.environ['VERIF_SCRATCH'], 'p29_%d_%d.wav' % (os.getpid(), channels))
    t = np.arange(1100)
    data = np.stack([1e4 * np.sin(t / (9. + c)) for c in range(channels)], axis=1)
    scipy.io.wavfile.write(path, SAMPLING_RATE, data.astype(np.int16))
    return path


def audio_file(channels=1, **kwargs):
    block = sampling.AudioFile(wave(channels), **kwargs)
    block.play()
    return block


def voice(wave_func=sawtooth, env=envelopes.ADSR):
    args = (.004, .004, .5, .01) if env is envelopes.ADSR else (.004, .01)
    return Voice(oscillators.Oscillator(wave_func=wave_func), env(*args))


def fil(**kwargs):
    return effects.Filter(design_func=butter, **kwargs)


def through(data, make):
    """Source into effect."""
    def build():
        src, block = Source(data), make()
        return [(src.output, block.input)], [block.output]
    return build


def played(score, make):
    """Notes into instrument."""
    def build():
        src, block = Player(score), make()
        return [(src.output, block.input)], [block.output]
    return build


def alone(make):
    def build():
        block = make()
        return [], list(block.outputs)
    return build


def modulated(make, lfo=lambda: oscillators.Lfo(20., outputRange=(200., 900.))):
    def build():
        block, mod = make(), lfo()
        return [(mod.output, block.input)], [block.output]
    return build


def sweep():
    src, mod, block = Source(MONO), oscillators.Lfo(30., outputRange=(200., 3000.)), fil()
    return [(src.output, block.input), (mod.output, block.frequency)], [block.output]


def mixing():
    a, b, c, mixer = Source(MONO), oscillators.Oscillator(), effects.Gain(.3), Mixer(nInputs=2, gains=GAINS)
    return [(a.output, mixer.inputs[0]), (b.output, c.input), (c.output, mixer.inputs[1])], [mixer.output]


def stereo_mixing():
    a, b, mixer = Source(MONO), oscillators.Oscillator(), StereoMixer(nInputs=2, gains=GAINS, pannings=PANS)
    return [(a.output, mixer.inputs[0]), (b.output, mixer.inputs[1])], [mixer.output]


def plus():
    a, b, c = Source(MONO), oscillators.Oscillator(), Source(OTHER)
    mixer = a + b + c
    return [], [mixer.output]


def kick_and_hat():
    np.random.seed(5)
    seq, kick, hat, mixer = Sequencer([STEPS, [0, 60]], tempo=1200), synthesizer.Kick(), synthesizer.HiHat(loopedNoise=True), Mixer(nInputs=2)
    return [(seq.outputs[0], kick.input), (seq.outputs[1], hat.input), (kick.output, mixer.inputs[0]), (hat.output, mixer.inputs[1])], [mixer.output]


def merged():
    seq = Sequencer([STEPS, [62, 65, 0]], splitOutputs=False, tempo=1500)
    return [], [seq.output]


def micro():
    seq, mr = Sequencer([STEPS, STEPS], tempo=1200), MicroRhyhtm(RHYTHM)
    seq.apply_micro_rhythm(mr, channel=1)
    return [], list(seq.outputs)


def arpeggio():
    seq, arp, synth = Sequencer([CHORDS], tempo=900, relNoteLength=.9), Arpeggiator(.014), synthesizer.MonophonicSynthesizer(voice())
    return [(seq.output, arp.input), (arp.output, synth.input)], [synth.output]


def note_chain():
    a, b, mixer, lengthener, limit = Player(SCORE), Player(HITS), MessageMixer(2), NoteLengthener(.02), MaxNotes(1)
    return [(a.output, mixer.inputs[0]), (b.output, mixer.inputs[1]), (mixer.output, lengthener.input), (lengthener.output, limit.input)], [limit.output]


def song():
    seq, synth, low, delay, out = Sequencer(STEPS, tempo=1200), synthesizer.PolyphonicSynthesizer(voice(env=envelopes.AR)), fil(frequency=2000.), effects.Delay(.007), effects.StereoDelay(.003, .013)
    return [(seq.output, synth.input), (synth.output, low.input), (low.output, delay.input), (delay.output, out.input)], [out.output]


def fan():
    src, left, right, comb = Source(MONO), effects.Gain(2.), effects.TanhDistortion(3.), effects.AudioCombiner(2)
    return [(src.output, left.input), (src.output, right.input), (left.output, comb.inputs[0]), (right.output, comb.inputs[1])], [comb.output, left.output]


def pwm():
    return oscillators.PwmOscillator(300., dutyCycle=.3)


def split():
    src, splitter, gain, comb = Source(STEREO), effects.AudioSplitter(2), effects.Gain(.5), effects.AudioCombiner(2)
    return [(src.output, splitter.input), (splitter.outputs[1], gain.input), (gain.output, comb.inputs[0]), (splitter.outputs[0], comb.inputs[1])], [comb.output]


NETWORKS = {
    'oscillator': alone(oscillators.Oscillator),
    'triangle': alone(lambda: oscillators.Oscillator(330., wave_func=triangle)),
    'phasor': alone(lambda: oscillators.Phasor(11.)),
    'lfo': alone(lambda: oscillators.Lfo(17., wave_func=square, outputRange=(2., 5.))),
    'audio lfo': alone(lambda: oscillators.Lfo(17., shape=N)),
    'fm': alone(oscillators.FmOscillator),
    'pwm': alone(pwm),
    'chirp': alone(lambda: oscillators.Chirper(100., .03, 900.)),
    'vibrato': modulated(oscillators.Oscillator, lambda: oscillators.Lfo(15., shape=N, outputRange=(400., 500.))),
    'siren': modulated(lambda: oscillators.Oscillator(wave_func=square)),
    'mono synthesizer': played(SCORE, lambda: synthesizer.MonophonicSynthesizer(voice())),
    'lowest first': played(SCORE, lambda: synthesizer.MonophonicSynthesizer(voice(triangle, envelopes.AR), policy='lowest')),
    'poly synthesizer': played(SCORE, lambda: synthesizer.PolyphonicSynthesizer(voice())),
    'kick': played(HITS, synthesizer.Kick),
    'envelope': played(SCORE, lambda: envelopes.ADSR(.004, .004, .5, .01)),
    'looping envelope': played(SCORE, lambda: envelopes.AR(.003, .006, loop=True)),
    'arpeggiator': played([[ON, HIGH], [], [], [OFF]], lambda: Arpeggiator(.014, order='upDown')),
    'audio file': alone(audio_file),
    'stereo loop': alone(lambda: audio_file(2, loop=True, start=100, stop=700)),
    'slow file': alone(lambda: audio_file(playbackSpeed=.7)),
    'tremolo': through(MONO, lambda: effects.Tremolo(30.)),
    'delay': through(MONO, lambda: effects.Delay(.005, feedback=.5)),
    'stereo delay': through(STEREO, lambda: effects.StereoDelay(.004, .02, .5, .3)),
    'filter': through(MONO, lambda: fil(frequency=900.)),
    'stereo filter': through(STEREO, lambda: fil(frequency=3000., btype='highpass')),
    'sweep': sweep,
    'subsampler': through(STEREO, lambda: effects.Subsampler(8)),
    'bitcrusher': through(MONO, lambda: effects.Bitcrusher(9)),
    'octaver': through(MONO, effects.OctaveDistortion),
    'tanh': through(STEREO, lambda: effects.TanhDistortion(2.)),
    'pitch shifter': through(MONO, lambda: effects.PitchShifter(2.)),
    'gain': through(STEREO, lambda: effects.Gain(.7)),
    'reverb': through(MONO, lambda: effects.Reverb(decay=.4, preDelay=.002, nEchos=4)),
    'ring modulator': through(MONO, effects.RingModulator),
    'mixer': mixing,
    'stereo mixer': stereo_mixing,
    'plus': plus,
    'drums': kick_and_hat,
    'merged sequencer': merged,
    'micro rhythm': micro,
    'arpeggio': arpeggio,
    'note effects': note_chain,
    'song': song,
    'fan': fan,
    'split': split,
    'held chord': played([[], [], [], [HIGH], [HIGH_OFF]], lambda: Arpeggiator(.011, order='down', initialNotes=HELD)),
    'clock': alone(lambda: Clock(60., dutyCycle=.3)),
    'release': played(HITS, lambda: envelopes.R(.02)),
    'transformer': modulated(lambda: effects.Transformer.from_ranges((-1., 1.), (0., 5.)), lambda: oscillators.Lfo(40.)),
}
assert len(NETWORKS) == 49


class Network:

    """Network with recorders at its outputs. Runs in its own time."""

    def __init__(self, name, permutation=None, start=0):
        self.name = name
        wires, outputs = NETWORKS[name]()
        self.wires = wires
        for i in permutation or range(len(wires)):
            src, dst = wires[i]
            src.connect(dst)
        self.taps = [Tap(out) for out in outputs]
        blocks = [self.taps[0]]
        if start:
            everything = determine_execution_order(blocks)
            blocks = [everything[(start - 1) % len(everything)]]
        self.blocks = determine_execution_order(blocks)
        self.cycles = 0

    def cycle(self):
        ClockMixin.set_current_time(self.cycles * INTERVAL)
        for block in self.blocks:
            block.update()
        self.cycles += 1

    def repatch(self, wire):
        src, dst = self.wires[wire]
        src.disconnect(dst)
        src.connect(dst)
        self.blocks = determine_execution_order([self.taps[0]])

    def record(self):
        return [tap.record for tap in self.taps]

    def verify(self, want, where):
        """Compare with the network on its own."""
        for tap in self.taps:
            for i, (raw, value) in enumerate(zip(tap.kept, tap.record)):
                require(np.array_equal(raw, value), '%s: %s changed its buffer %d after it had output it', where, self.name, i)
        compare(self.record(), want, '%s: %s' % (where, self.name))


def compare(got, want, where):
    for k, (tap, ref) in enumerate(zip(got, want)):
        for i, (value, expected) in enumerate(zip(tap, ref)):
            if isinstance(expected, list):
                require(value == expected, '%s sends %s instead of %s at its output %d in cycle %d', where, value, expected, k, i)
                continue
            require(value.shape == expected.shape, '%s has a buffer of shape %s at its output %d in cycle %d', where, value.shape, k, i)
            same = np.array_equal(value, expected) or np.allclose(value, expected, rtol=1e-9, atol=1e-12)
            require(same, '%s is not what it is on its own (output %d, cycle %d)', where, k, i)


def untouched(where):
    for key, value in pickle.loads(ORIGINAL).items():
        now = SHARED[key]
        same = len(now) == len(value) and all(np.array_equal(a, b) if isinstance(b, np.ndarray) else a == b for a, b in zip(now, value))
        require(same, '%s: the %s given to several blocks were changed', where, key)


def in_child(func, *args):
    """Run func in a fork of this process, which never runs any block itself."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            try:
                result = ('ok', func(*args))
            except Violation as err:
                result = ('violation', err.msg)
            except BaseException as err:  # pylint: disable=broad-except
                import traceback
                result = ('violation', 'unexpected exception\n' + traceback.format_exc()[-2000:])
            with os.fdopen(w, 'wb') as f:
                pickle.dump(result, f, protocol=4)
        finally:
            os._exit(0)
    os.close(w)
    try:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
    finally:
        _, status = os.waitpid(pid, 0)
    require(data, 'the process ended with status %d', status)
    kind, result = pickle.loads(data)
    require(kind == 'ok', '%s', result)
    return result


def on_its_own(name, cycles):
    net = Network(name)
    for _ in range(cycles):
        net.cycle()
    untouched(name)
    return net.record()


def interleavings(length):
    """All merges of A and B, length steps each. The first step of each is building the network."""
    for places in itertools.combinations(range(2 * length), length):
        yield ''.join('A' if i in places else 'B' for i in range(2 * length))


@functools.lru_cache(maxsize=None)
def reference(name, cycles):
    return in_child(on_its_own, name, cycles)


def pair_run(case, ctx):
    """Network A next to every network B."""
    a, = case
    length = 4 if ctx.thorough else 3
    refs = {b: reference(b, length) for b in NETWORKS}

    def explore():
        for b in NETWORKS:
            for schedule in interleavings(length):
                nets = {}
                for who in schedule:
                    if who not in nets:
                        nets[who] = Network(a if who == 'A' else b)
                    else:
                        nets[who].cycle()
                for net in nets.values():
                    net.verify(refs[net.name], '%s next to %s in the order %s' % (a, b, schedule))
            untouched('%s next to %s' % (a, b))
    in_child(explore)
    for b in NETWORKS:
        for schedule in interleavings(length):
            ctx.step(2 * length)
            ctx.trace()
            ctx.state(a, b, schedule)
    ctx.outcome(str(refs[a]))


def engine_run(case, ctx):
    """Networks A and B in one engine, in both orders, and each on its own again."""
    a, = case
    cycles = 6 if ctx.thorough else 4
    refs = {b: reference(b, cycles) for b in NETWORKS}

    def explore():
        for b in NETWORKS:
            for names in ([a, b], [b, a], [a]):
                nets = [Network(name) for name in names]
                osc, dac = oscillators.Oscillator(), Dac(1)
                osc | dac
                run_klang(*[net.taps[0] for net in nets], dac, duration=(cycles + .5) * INTERVAL, offline=True)
                for net in nets:
                    for tap in net.taps:
                        require(len(tap.record) == cycles, '%s in one engine: %d buffers instead of %d', names, len(tap.record), cycles)
                    net.verify(refs[net.name], '%s in one engine' % names)
            untouched('%s and %s in one engine' % (a, b))
    in_child(explore)
    for b in NETWORKS:
        ctx.step(5 * cycles)
        ctx.trace(5)
        ctx.state(a, b)
    ctx.outcome(str(refs[a]))


def order_cases(tier):
    for name in NETWORKS:
        yield [name]


def order_run(case, ctx):
    """All orders of patching, all starts of the execution order, all points of re-patching."""
    name, = case
    cycles = 8 if ctx.thorough else 5
    want = reference(name, cycles)

    def explore():
        n = len(Network(name).wires)
        count = 0
        for permutation in itertools.permutations(range(n)):
            for start in range(len(Network(name).blocks) + 1):
                net = Network(name, permutation, start)
                for _ in range(cycles):
                    net.cycle()
                net.verify(want, 'patched in the order %s, started from block %d' % (permutation, start))
                count += 1
        for wire in range(n):
            for when in itertools.product((False, True), repeat=cycles):
                net = Network(name)
                for repatch in when:
                    if repatch:
                        net.repatch(wire)
                    net.cycle()
                net.verify(want, 'connection %d made again before the cycles %s' % (wire, [i for i, x in enumerate(when) if x]))
                count += 1
        for _ in range(3):
            net = Network(name)
            for _ in range(cycles):
                net.cycle()
            net.verify(want, 'built again')
        untouched(name)
        return count
    count = in_child(explore)
    ctx.step(count * cycles)
    ctx.trace(count)
    for k in range(count):
        ctx.state(name, k)
    ctx.outcome(str(want))


EXAMPLES = ['hello_world', 'aeolian_arp', 'arpeggiator_demo', 'audio_file_demo', 'haunting_envelopes', 'micro_rhythm_demo',
            'reverberation_demo', 'sequencer_demo', 'tempo_aware_effects']


def example(name, cycles):
    """What a shipped example outputs."""
    started = []
    original = klang.klang.run_klang
    klang.klang.run_klang = lambda *blocks, **kwargs: started.extend(blocks)
    random.seed(3)
    np.random.seed(3)
    ClockMixin.set_current_time(0.)
    try:
        space = runpy.run_path(os.path.join(ROOT, 'examples', name + '.py'))
    finally:
        klang.klang.run_klang = original
    dac = started[0] if started else space['dac']
    taps = [Tap(x.incomingConnection) for x in dac.inputs if x.connected]
    run_klang(dac, duration=(cycles + .5) * INTERVAL, offline=True)
    return [tap.record for tap in taps]


def example_cases(tier):
    for name in EXAMPLES:
        if os.path.exists(os.path.join(ROOT, 'examples', name + '.py')):
            yield [name]


def example_run(case, ctx):
    """Every example after every other one in the same process."""
    name, = case
    cycles = 200 if ctx.thorough else 60
    others = [x for x, in example_cases(ctx.tier)]
    want = in_child(example, name, cycles)

    def explore():
        for other in others:
            example(other, 5)
            compare(example(name, cycles), want, 'example %s after %s' % (name, other))
    in_child(explore)
    require(any(np.any(value) for tap in want for value in tap), 'example %s is silent', name)
    require(all(np.all(np.isfinite(value)) for tap in want for value in tap), 'example %s outputs non-numbers', name)
    ctx.step(len(others) * cycles)
    ctx.trace(len(others))
    for other in others:
        ctx.state(name, other)
    ctx.outcome(name)


FAMILIES = [
    Family('order', order_cases, order_run, '49 networks x all orders of making their connections x the execution order determined from every block; every connection made again before any subset of 5 (thorough: 8) cycles', timeout=400.),
    Family('engine', order_cases, engine_run, 'all ordered pairs of 49 networks in one engine (in both orders) and one after the other, 4 (thorough: 6) cycles', timeout=800.),
    Family('examples', example_cases, example_run, 'all shipped examples that end in an audio output, each after each, 60 (thorough: 200) cycles, seeded', timeout=600.),
    Family('pairs', order_cases, pair_run, lambda tier: 'all ordered pairs of 49 networks x all interleavings of building each and %d cycles each' % (3 if tier == 'thorough' else 2), timeout=800.),
]

ASSUMPTIONS = [
    'Networks without feedback loops (the place where a loop is cut is free) and without randomness (hi-hat with looped noise, seeded).',
    'References are computed in a forked process in which nothing else has run.',
    'Equal means equal up to 1e-9: an implementation may reorder floating point sums.',
]
