"""P11: polyphonic synthesizer. All note histories against the set of held notes."""
import itertools

import numpy as np

from mc import Family, require, compositions, sequences
from checks.p10 import ProbeOscillator, N
from klang.audio.envelopes import ADSR, R
from klang.audio.oscillators import Oscillator
from klang.audio.synthesizer import PolyphonicSynthesizer
from klang.audio.voices import Voice
from klang.connections import MessageOutput
from klang.messages import Note


class Small(PolyphonicSynthesizer):
    """Same code with few voices."""
    MAX_VOICES = 3


def make(cls=Small, release=0., oscillator=None, envelope=None):
    synth = cls(Voice(oscillator or ProbeOscillator(), envelope or R(release)))
    src = MessageOutput()
    src.connect(synth.input)
    return synth, src


def expected(held, n):
    """Held notes -> level of the two halves of the buffer."""
    return sum(k.velocity * k.frequency for k in held) / n, sum(k.velocity for k in held) / n


def check_sound(what, synth, held):
    y = np.array(synth.output.value)
    require(y.shape == (N,), '%s: output shape %s', what, y.shape)
    a, b = expected(held, len(synth.voices))
    require(abs(y[:N // 2] - a).max() < 1e-6 and abs(y[N // 2:] - b).max() < 1e-9,
            '%s: output levels %r %r, expected %r %r for held notes %s', what, y[0], y[-1], a, b, [str(k) for k in held])


class Held:
    """Reference: held notes (all notes of a pitch end together)."""

    def __init__(self):
        self.keys = []

    def event(self, note):
        if note.on:
            self.keys.append(note)
        else:
            self.keys = [k for k in self.keys if k.pitch != note.pitch]


def notes_of(seq, pitches):
    """Velocities that make every subset recognisable; odd frequencies at times. Or always the same
    note for the same key.
    """
    if pitches is KEYSETS['same']:
        return [Note(pitches[k], velocity=2.**-k if on else 0.) for k, on in seq]

    return [Note(pitches[k], velocity=2.**-(i % 10) if on else 0., frequency=None if i % 3 else 50. + 7. * i + k)
            for i, (k, on) in enumerate(seq)]


def legal(seq, limit):
    held = set()
    for k, on in seq:
        if on and (k in held or len(held) >= limit):
            return False
        (held.add if on else held.discard)(k)
    return True


KEYSETS = {'low': (60, 64, 67), 'edge': (0, 127, 64), 'four': (0, 61, 60, 62), 'same': (61, 60, 62)}


def alphabet(name):
    return [(k, on) for k in range(len(KEYSETS[name])) for on in (True, False)]


def history_cases(tier):
    depths = dict(low=6, edge=6, four=5, same=5) if tier == 'quick' else dict(low=8, edge=8, four=7, same=7)
    for name, depth in depths.items():
        for head in sequences(alphabet(name), 3):
            if legal(head, 3):
                yield [name, depth, [list(e) for e in head]]


def history_run(case, ctx):
    name, depth, head = case
    for tail in sequences(alphabet(name), depth - 3):
        seq = [tuple(e) for e in head] + list(tail)
        if not legal(seq, 3):
            continue
        synth, src = make()
        require(len(synth.voices) >= 3, 'fewer than 3 voices')
        held = Held()
        for i, note in enumerate(notes_of(seq, KEYSETS[name])):
            src.send(note)
            synth.update()
            held.event(note)
            check_sound((name, seq[:i + 1]), synth, held.keys)
            ctx.state(name, tuple(n.pitch for n in held.keys))
            ctx.outcome(tuple(str(k) for k in held.keys))
        synth.update()
        check_sound((name, seq, 'next buffer'), synth, held.keys)
        ctx.step(depth + 1)
        ctx.trace()


def group_cases(tier):
    depths = dict(low=5, edge=5, four=4, same=4) if tier == 'quick' else dict(low=7, edge=6, four=6, same=6)
    for name, depth in depths.items():
        for head in sequences(alphabet(name), 3):
            if legal(head, 3):
                yield [name, depth, [list(e) for e in head]]


def group_run(case, ctx):
    name, depth, head = case
    for tail in sequences(alphabet(name), depth - 3):
        seq = [tuple(e) for e in head] + list(tail)
        if not legal(seq, 3):
            continue
        notes = notes_of(seq, KEYSETS[name])
        for parts in compositions(depth):
            synth, src = make()
            held = Held()
            start = 0
            for n in parts:
                for j in range(start, start + n):
                    if j % 3 == 0:
                        src.send(notes[j])
                    elif j % 3 == 1:
                        synth.input.push(notes[j])
                    else:
                        src.send(notes[j])
                    held.event(notes[j])
                start += n
                synth.update()
                check_sound((name, seq, parts, start), synth, held.keys)
                ctx.step()
            ctx.state(name, tuple(seq), parts)
            ctx.trace()
    ctx.outcome(name, str(head))


def direct_cases(tier):
    for seq in sequences(alphabet('low'), 4):
        if legal(seq, 3):
            yield [list(e) for e in seq]


def direct_run(case, ctx):
    """play_note() is the same as sending; synthesizers do not share voices."""
    notes = notes_of([tuple(e) for e in case], KEYSETS['low'])
    voice = Voice(ProbeOscillator(), R(0.))
    one, two = Small(voice), Small(voice)
    held = Held()
    for i, note in enumerate(notes):
        one.play_note(note)
        one.update()
        two.update()
        held.event(note)
        check_sound((case, i), one, held.keys)
        require(not np.array(two.output.value).any(), '%s: second synthesizer with the same template sounds', case)
    ctx.state(str(case))
    ctx.step(len(case))
    ctx.trace()
    ctx.outcome(tuple(n.pitch for n in held.keys))


def tail_cases(tier):
    for release in (0, 1, 255, 256, 257, 700):
        for name in ('low', 'edge'):
            for seq in sequences(alphabet(name), 4 if tier == 'quick' else 5):
                if legal(seq, 3):
                    yield [release, name, [list(e) for e in seq]]


def tail_run(case, ctx):
    """When all notes have been released the output is silent after the release time and for ever."""
    release, name, seq = case
    pitches = KEYSETS[name]
    for parts in ([len(seq)], [1] * len(seq), [2, len(seq) - 2], [len(seq) - 1, 1]):
        synth, src = make(envelope=ADSR(.001, .001, .5, release / 44100))
        held = set()
        start = 0
        notes = notes_of([tuple(e) for e in seq], pitches)
        for n in parts:
            for j in range(start, start + n):
                src.send(notes[j])
                (held.add if seq[j][1] else held.discard)(seq[j][0])
            start += n
            synth.update()
        for k in held:
            src.send(Note(pitches[k], 0.))
        tail = []
        for _ in range(release // N + 3):
            synth.update()
            tail.append(np.array(synth.output.value))
        tail = np.concatenate(tail)
        require(not tail[release + 3:].any(), '%s %s: sounds %d samples after everything was released, release is %d samples',
                case, parts, np.flatnonzero(tail)[-1] if tail.any() else 0, release)
        require(not any(v.active for v in synth.voices), '%s %s: a voice is still active', case, parts)
        # Afterwards it plays again
        src.send(Note(pitches[0], 1.))
        synth.update()
        synth.update()
        require(np.array(synth.output.value).any(), '%s %s: does not play any more', case, parts)
        ctx.step(len(seq))
        ctx.trace()
    ctx.state(str(case))
    ctx.outcome(float(tail.sum()), release)


def super_cases(tier):
    for seq in sequences(alphabet('low'), 5 if tier == 'quick' else 6):
        if legal(seq, 3):
            yield [list(e) for e in seq]


def super_run(case, ctx):
    """Sum of the voices: sample exact superposition of what a voice sounds like playing each note."""
    pitches = KEYSETS['low']
    notes = notes_of([tuple(e) for e in case], pitches)

    def play(select):
        synth = Full(Voice(Oscillator(), ADSR(.004, .003, .5, .008)))
        out = []
        for i, note in enumerate(notes):
            if i in select:
                synth.input.push(note)
            for _ in range(1 if note.on else 3):
                synth.update()
                out.append(np.array(synth.output.value))
        return np.concatenate(out), len(synth.voices)

    def voice_alone(select):
        voice = Voice(Oscillator(), ADSR(.004, .003, .5, .008))
        out = []
        for i, note in enumerate(notes):
            if i in select:
                voice.input.push(note)
            for _ in range(1 if note.on else 3):
                if i >= min(select):
                    voice.update()
                    out.append(np.array(voice.output.value))
                else:
                    out.append(np.zeros(N))
        return np.concatenate(out)

    total, n = play(range(len(notes)))
    parts = 0.
    for i, (k, on) in enumerate(case):
        if on:
            off = [j for j in range(i + 1, len(case)) if case[j] == [k, False]][:1]
            alone, m = play({i, *off})
            require(n == m, 'number of voices changed')
            require(np.allclose(alone, voice_alone([i, *off]) / n, rtol=0, atol=1e-9),
                    '%s: note %d does not sound like its voice divided by the number of voices', case, i)
            parts = parts + alone
            ctx.step()
    require(np.allclose(total, parts, rtol=0, atol=1e-9), '%s: output is not the sum of its notes', case)
    ctx.state(str(case))
    ctx.trace()
    ctx.outcome(total.tobytes())


class Full(PolyphonicSynthesizer):
    """Enough voices that none gets reused."""
    MAX_VOICES = 6


def many_cases(tier):
    for nHeld in range(0, 25):
        for together in (True, False):
            for order in ('up', 'down', 'evenodd'):
                for churn in (0, 1, 30):
                    yield [nHeld, together, order, churn]


def many_run(case, ctx):
    """The real number of voices: any number of held notes up to it, others coming and going meanwhile."""
    nHeld, together, order, churn = case
    synth, src = make(PolyphonicSynthesizer)
    nVoices = len(synth.voices)
    nHeld = min(nHeld, nVoices)
    held = Held()
    pitches = [30 + 2 * i for i in range(nHeld)]
    if order == 'down':
        pitches.reverse()
    elif order == 'evenodd':
        pitches = pitches[::2] + pitches[1::2]
    for i, p in enumerate(pitches):
        note = Note(p, (i + 1) / (nVoices + 1))
        src.send(note)
        held.event(note)
        if not together:
            synth.update()
            check_sound((case, i), synth, held.keys)
    synth.update()
    check_sound((case, 'all on'), synth, held.keys)
    if nHeld < nVoices:
        for c in range(churn):
            src.send(Note(100 + c % 20, .9))
            if c % 2:
                synth.update()
            src.send(Note(100 + c % 20, 0.))
            synth.update()
            check_sound((case, 'others', c), synth, held.keys)
    for p in (sorted(pitches) if order == 'evenodd' else pitches):
        note = Note(p, 0.)
        src.send(note)
        held.event(note)
        if not together:
            synth.update()
            check_sound((case, 'off', p), synth, held.keys)
    synth.update()
    check_sound((case, 'all off'), synth, [])
    ctx.state(str(case))
    ctx.step(2 * nHeld + churn)
    ctx.trace()
    ctx.outcome(nHeld, churn)


def over_cases(tier):
    for seq in sequences(alphabet('four'), 5 if tier == 'quick' else 7):
        # one key pressed again while held, or more keys than voices
        if not legal(seq, 2):
            yield ['four', [list(e) for e in seq]]
    for seq in sequences(alphabet('same'), 5 if tier == 'quick' else 7):
        if not legal(seq, 2):
            yield ['same', [list(e) for e in seq]]


class Two(PolyphonicSynthesizer):
    """Two voices only."""
    MAX_VOICES = 2


def over_run(case, ctx):
    """More notes than voices, or notes pressed again: never a note that is not held, silence in the end."""
    name, seq = case
    synth, src = make(Two)
    pitches = KEYSETS[name]
    held = Held()
    for i, note in enumerate(notes_of([tuple(e) for e in seq], pitches)):
        src.send(note)
        synth.update()
        held.event(note)
        y = np.array(synth.output.value) * len(synth.voices)
        fits = False
        for r in range(min(len(held.keys), len(synth.voices)) + 1):
            for sub in itertools.combinations(held.keys, r):
                a, b = expected(sub, 1)
                fits = fits or abs(y[0] - a) < 1e-6 and abs(y[-1] - b) < 1e-9
        require(fits, '%s: sounds something else than held notes after event %d', case, i)
        if note.on:
            require(y.any(), '%s: silent right after note-on %d', case, i)
    for p in pitches:
        src.send(Note(p, 0.))
    synth.update()
    require(not np.array(synth.output.value).any(), '%s: stuck after releasing everything', case)
    ctx.state(str(case))
    ctx.step(len(seq))
    ctx.trace()
    ctx.outcome(len(held.keys), float(y.sum()))


FAMILIES = [
    Family('histories', history_cases, history_run,
           lambda t: 'all legal on / off histories of %s events over 3-4 keys incl. pitches 0 and 127 (3 voices)' % ('5-6' if t == 'quick' else '7-8')),
    Family('groupings', group_cases, group_run,
           lambda t: 'all histories of %s events x all groupings into buffers' % ('4-5' if t == 'quick' else '6-7')),
    Family('direct', direct_cases, direct_run, 'all histories of 4 events via play_note, two synthesizers from one template voice'),
    Family('tails', tail_cases, tail_run, 'release times around the buffer size x all histories of 4-5 events x 4 groupings, then everything released'),
    Family('superposition', super_cases, super_run, 'all histories of 5-6 events: output equals the sum of the single notes'),
    Family('many', many_cases, many_run, '0..24 held notes on the real number of voices, other notes coming and going'),
    Family('overflow', over_cases, over_run, 'all histories of 5 (thorough 7) events with more notes than voices or repeated note-ons'),
]
ASSUMPTIONS = ['which notes sound when more notes are held than there are voices is left open']
