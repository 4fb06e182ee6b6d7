"""P10: monophonic synthesizer. All press / release histories against the list of held keys."""
import itertools

import numpy as np

from mc import Family, require, compositions, sequences
from klang.audio.envelopes import ADSR, R
from klang.audio.oscillators import Oscillator
from klang.audio.synthesizer import MonophonicSynthesizer
from klang.audio.voices import Voice
from klang.block import Block
from klang.connections import MessageOutput
from klang.messages import Note

N = 256
POLICIES = ('newest', 'oldest', 'lowest', 'highest')


class ProbeOscillator(Block):
    """First half of the buffer is the frequency, second half one."""

    def __init__(self, frequency=0.):
        super().__init__(nInputs=1, nOutputs=1)
        self.frequency, = self.inputs
        self.frequency.set_value(frequency)
        self.update()

    def update(self):
        y = np.ones(N)
        y[:N // 2] = self.frequency.value
        self.output.set_value(y)

    def __deepcopy__(self, memo):
        return type(self)(self.frequency.value)


class Held:
    """Reference: list of held (pitch, velocity, frequency) in pressing order."""

    def __init__(self, policy):
        self.policy = policy
        self.keys = []

    def event(self, note):
        if note.on:
            self.keys.append(note)
        else:
            for k in self.keys:
                if k.pitch == note.pitch:
                    self.keys.remove(k)
                    break

    def selected(self):
        if not self.keys:
            return None
        return {'newest': lambda k: k[-1], 'oldest': lambda k: k[0],
                'lowest': lambda k: min(k, key=lambda n: n.pitch),
                'highest': lambda k: max(k, key=lambda n: n.pitch)}[self.policy](self.keys)


def make(policy):
    synth = MonophonicSynthesizer(Voice(ProbeOscillator(), R(0.)), policy)
    src = MessageOutput()
    src.connect(synth.input)
    return synth, src


def check_sound(what, synth, note):
    y = np.array(synth.output.value)
    require(y.shape == (N,), '%s: output shape %s', what, y.shape)
    if note is None:
        require(not y.any(), '%s: still sounds %r although nothing is held', what, y[-1])
    else:
        require(abs(y[N // 2:] - note.velocity).max() < 1e-9 and abs(y[:N // 2] - note.velocity * note.frequency).max() < 1e-6,
                '%s: sounds velocity %r frequency %r, expected %s', what, y[-1], y[0] / y[-1] if y[-1] else 0, note)


def notes_of(seq, pitches):
    """Events (key index, on) -> notes with distinct velocities; odd frequencies at times. Or always
    the same note for the same key.
    """
    ret = []
    for i, (k, on) in enumerate(seq):
        if pitches is KEYSETS['same']:
            ret.append(Note(pitches[k], velocity=.3 + .2 * k if on else 0.))
            continue
        vel = (.9 - .11 * i % .8 + .05) if on else 0.
        ret.append(Note(pitches[k], velocity=vel, frequency=None if i % 3 else 50. + 7. * i + k))
    return ret


def legal(seq):
    held = set()
    for k, on in seq:
        if on and k in held:
            return False
        (held.add if on else held.discard)(k)
    return True


KEYSETS = {'low': (60, 64, 67), 'edge': (0, 127, 64), 'near': (62, 61, 60), 'same': (60, 59, 61)}


def history_cases(tier):
    events = [(k, on) for k in range(3) for on in (True, False)]
    for name in KEYSETS:
        depth = (6 if name == 'low' else 5) if tier == 'quick' else 8
        for policy in POLICIES:
            for head in sequences(events, 2):
                if legal(head):
                    yield [name, policy, depth, [list(e) for e in head]]


def history_run(case, ctx):
    name, policy, depth, head = case
    events = [(k, on) for k in range(3) for on in (True, False)]
    for tail in sequences(events, depth - 2):
        seq = [tuple(e) for e in head] + list(tail)
        if not legal(seq):
            continue
        synth, src = make(policy)
        held = Held(policy)
        for i, note in enumerate(notes_of(seq, KEYSETS[name])):
            src.send(note)
            synth.update()
            held.event(note)
            check_sound((case[:2], seq[:i + 1]), synth, held.selected())
            ctx.state(policy, name, tuple(n.pitch for n in held.keys))
            ctx.outcome(policy, held.selected())
        synth.update()
        check_sound((case[:2], seq, 'next buffer'), synth, held.selected())
        ctx.step(depth + 1)
        ctx.trace()


def order_cases(tier):
    for policy in POLICIES:
        for press in itertools.permutations(range(5 if tier == 'quick' else 6)):
            yield [policy, list(press)]


def order_run(case, ctx):
    """Chords of 5 or 6 keys pressed in any order and released in any order."""
    policy, press = case
    pitches = [60 + 3 * i for i in range(len(press))]
    notes = [Note(pitches[k], velocity=.4 + .1 * k) for k in press]
    synth, src = make(policy)
    for release in itertools.permutations(range(len(press))):
        held = Held(policy)
        for note in notes + [Note(pitches[k], 0.) for k in release]:
            src.send(note)
            synth.update()
            held.event(note)
            check_sound((case, release, str(note)), synth, held.selected())
        ctx.step(2 * len(press))
        ctx.trace()
        ctx.outcome(policy, release)
    ctx.state(policy, tuple(press))


def group_cases(tier):
    events = [(k, on) for k in range(3) for on in (True, False)]
    for policy in POLICIES:
        for head in sequences(events, 2):
            if legal(head):
                yield [policy, 5 if tier == 'quick' else 6, [list(e) for e in head]]


def group_run(case, ctx):
    policy, depth, head = case
    events = [(k, on) for k in range(3) for on in (True, False)]
    for tail in sequences(events, depth - 2):
        seq = [tuple(e) for e in head] + list(tail)
        if not legal(seq):
            continue
        notes = notes_of(seq, KEYSETS['low'])
        for parts in compositions(depth):
            synth, src = make(policy)
            held = Held(policy)
            start = 0
            for n in parts:
                for j, note in enumerate(notes[start:start + n]):
                    if (start + j) % 2:
                        src.send(note)
                    else:
                        synth.input.push(note)
                    held.event(note)
                start += n
                synth.update()
                check_sound((policy, seq, parts, start), synth, held.selected())
                ctx.step()
            ctx.state(policy, tuple(seq), parts)
            ctx.trace()
    ctx.outcome(policy, str(head))


def idle_cases(tier):
    for policy in POLICIES:
        for retrigger in (False, True):
            for seq in sequences([(k, on) for k in range(2) for on in (True, False)], 4 if tier == 'quick' else 5):
                if legal(seq):
                    yield [policy, retrigger, [list(e) for e in seq]]


def idle_run(case, ctx):
    """Releasing keys that are not held changes nothing: differential against the history without them."""
    policy, retrigger, seq = case
    pitches = (60, 64)
    never = 72

    def play(extra, many=1):
        synth = MonophonicSynthesizer(Voice(Oscillator(), ADSR(.004, .003, .5, .01, retrigger=retrigger)), policy)
        out = []
        held = set()
        notes = notes_of([tuple(e) for e in seq], pitches)
        for i, (k, on) in enumerate(seq + [[0, None]]):
            if i == extra:
                for _ in range(many):
                    synth.input.push(Note(never, 0.))
                for j, p in enumerate(pitches):
                    if j not in held:
                        synth.play_note(Note(p, 0.))
            synth.update()
            out.append(np.array(synth.output.value))
            if on is None:
                break
            if on:
                held.add(k)
                synth.input.push(notes[i])
            elif k in held:
                held.discard(k)
                synth.input.push(notes[i])
            synth.update()
            out.append(np.array(synth.output.value))
        for _ in range(3):
            synth.update()
            out.append(np.array(synth.output.value))
        return np.concatenate(out)

    ref = play(None)
    for extra in range(len(seq) + 1):
        for many in (1, 2):
            got = play(extra, many)
            require((got == ref).all(), '%s: releasing unheld keys before event %d changes the sound from sample %d on', case, extra, int((got != ref).argmax()))
            ctx.step(len(seq))
            ctx.trace()
    ctx.state(str(case))
    ctx.outcome(ref.tobytes())


def double_cases(tier):
    events = [(k, on) for k in range(2) for on in (True, False)]
    for policy in POLICIES:
        for seq in sequences(events, 6 if tier == 'quick' else 8):
            for same in (False, True):
                yield [policy, [list(e) for e in seq], same]


def double_run(case, ctx):
    """A key pressed again while held: sounds while held under either reading, silent when all presses are released."""
    policy, seq, same = case
    pitches = KEYSETS['same'] if same else (60, 64)
    synth, src = make(policy)
    count = [0, 0]
    for i, note in enumerate(notes_of([tuple(e) for e in seq], pitches)):
        k, on = seq[i]
        count[k] = count[k] + 1 if on else max(0, count[k] - 1)
        src.send(note)
        synth.update()
        y = np.array(synth.output.value)
        if not any(count):
            require(not y.any(), '%s: still sounds after event %d although nothing is held', case, i)
        if on and (policy == 'newest'):
            require(y.any(), '%s: pressed key does not sound after event %d', case, i)
    for k in (0, 1):
        for _ in range(count[k]):
            src.send(Note(pitches[k], 0.))
    synth.update()
    require(not np.array(synth.output.value).any(), '%s: stuck after releasing everything', case)
    ctx.state(policy, tuple(map(tuple, seq)))
    ctx.step(len(seq))
    ctx.trace()
    ctx.outcome(policy, tuple(count))


def release_cases(tier):
    for policy in POLICIES:
        for release in (0, 100, 300, 1000):
            for seq in ([(0, True), (0, False)], [(0, True), (1, True), (0, False), (1, False)], [(0, True), (1, True), (1, False), (0, False)]):
                for gap in (1, 2, 3):
                    yield [policy, release, [list(e) for e in seq], gap]


def release_run(case, ctx):
    """After the last release the sound fades for the release time and then there is silence for ever."""
    policy, release, seq, gap = case
    synth = MonophonicSynthesizer(Voice(ProbeOscillator(), ADSR(0., 0., 1., release / 44100)), policy)
    for note in notes_of([tuple(e) for e in seq], (60, 64)):
        synth.input.push(note)
        for _ in range(gap):
            last = np.array(synth.output.value)
            synth.update()
    tail = [np.array(synth.output.value)] if gap == 1 else []
    if gap > 1:
        tail = [np.zeros(N)] * 0
    for _ in range(release // N + 3):
        synth.update()
        tail.append(np.array(synth.output.value))
    tail = np.concatenate(tail)
    require(not tail[release + 3:].any(), '%s: sounds after its release time', case)
    require(not synth.voice.active, '%s: voice still active', case)
    ctx.state(str(case))
    ctx.step(len(seq) * gap)
    ctx.trace()
    ctx.outcome(float(tail.sum()))


FAMILIES = [
    Family('histories', history_cases, history_run,
           lambda t: 'all legal press / release histories of %s events over 3 keys (4 key sets incl. pitch 0 and 127, fresh or equal notes), releases also of keys not held, 4 policies' % ('6 / 5' if t == 'quick' else '8')),
    Family('chords', order_cases, order_run,
           lambda t: 'chords of %d keys: every pressing order x every releasing order x 4 policies' % (5 if t == 'quick' else 6)),
    Family('groupings', group_cases, group_run,
           lambda t: 'all histories of %d events x all groupings into buffers x 4 policies' % (5 if t == 'quick' else 6)),
    Family('unheld', idle_cases, idle_run, 'all histories of 4-5 events over 2 keys with releases of keys not held inserted anywhere, with and without retriggering'),
    Family('double', double_cases, double_run, 'all histories of 6-8 events over 2 keys including keys pressed again while held, with fresh or equal notes'),
    Family('release', release_cases, release_run, 'release times around the buffer size'),
]
ASSUMPTIONS = ['which of two presses of the same key is meant by a release is left open']
