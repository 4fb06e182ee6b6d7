"""P21: notes. All pitches, boundary velocities and frequencies, all MIDI channels."""
import itertools
import json
import numbers
import sys
import types
from fractions import Fraction

import numpy as np

from mc import Family, require


class FakePort:

    """Stands in for a MIDI port and records what is sent."""

    sent = []
    ports = []

    def get_ports(self):
        return list(FakePort.ports)

    def open_port(self, *args, **kwargs):
        return self

    def open_virtual_port(self, *args, **kwargs):
        return self

    def close_port(self):
        pass

    def send_message(self, message):
        FakePort.sent.append(list(message))

    def delete(self):
        pass


rtmidi = types.ModuleType('rtmidi')
rtmidi.MidiOut = rtmidi.MidiIn = FakePort
sys.modules['rtmidi'] = rtmidi

from klang.messages import Note  # noqa: E402
from klang.midi import MidiOut, note_to_midi_message  # noqa: E402
from klang.music.tunings import TEMPERAMENTS  # noqa: E402

TINY = 5e-324
VELOCITIES = [0, 0., -0., TINY, 1e-9, .001, 1 / 128., 1 / 127. - 1e-12, 1 / 127., .5, 1 - 1e-16, 1 - 1e-9, 1, 1., True,
              np.float64(.3), np.float32(.25), np.int64(1), np.float64(0.), Fraction(1, 3)]
BAD_VELOCITIES = [-TINY, -1e-9, -1, 1 + 1e-15, 1.0000001, 2, 127, float('nan'), float('inf'), -float('inf'), np.float64(1.5), np.int64(-1)]
BAD_PITCHES = [-1, -2, 128, 129, 1000, -128, -.5, 128., float('nan'), float('inf'), np.int64(128), np.int8(-1)]
FREQUENCIES = [None, 0, 0., TINY, 8.17, 440, 440., 1e6, np.float64(2.5), np.float32(2.5), np.int64(7)]
BAD_FREQUENCIES = [-TINY, -1e-9, -1, -440., float('nan'), -float('inf'), np.float64(-2.)]
NUMBER_TYPES = (int, np.int64, np.int8, np.uint8)


def serializable(x):
    return not isinstance(x, Fraction)


def raises(func, *args, **kwargs):
    try:
        func(*args, **kwargs)
    except ValueError:
        return True
    except Exception as err:  # pylint: disable=broad-except
        require(False, '%s%r raised %r', func, args, err)
    return False


def create_cases(tier):
    for p in range(128):
        yield [p]


def create_run(case, ctx):
    """Creation, silencing and conversions of all notes with this pitch."""
    p, = case
    for kind in NUMBER_TYPES:
        pitch = kind(p)
        for v, f in itertools.product(VELOCITIES, FREQUENCIES):
            note = Note(pitch, v, f)
            require(note.pitch == p and note.velocity == v, 'Note(%r, %r, %r) is %r', pitch, v, f, note)
            require(0 <= note.pitch <= 127 and 0 <= note.velocity <= 1 and note.frequency >= 0, 'invalid %r', note)
            want = 440. * 2. ** ((p - 69) / 12.) if f is None else f
            require(abs(note.frequency - want) <= 1e-9 * want, 'Note(%r, %r, %r) has frequency %r', pitch, v, f, note.frequency)
            on, off = note.on, note.off
            require(bool(on) == bool(v > 0) and bool(off) is not bool(on), '%r: on %r, off %r', note, on, off)
            before = tuple(note)
            for _ in range(2):
                silent = note.silence()
                require(type(silent) is Note and silent.off and not silent.on and silent.velocity == 0, '%r silenced is %r', note, silent)
                require(silent.pitch == note.pitch and silent.frequency == note.frequency, '%r silenced is %r', note, silent)
                again = silent.silence()
                require(again == silent and again.off, '%r', again)
            require(tuple(note) == before, '%r modified', note)
            dct = note.to_dict()
            keep = dict(dct)
            for _ in range(2):
                back = Note.from_dict(dct)
                require(type(back) is Note and back == note and back.on == note.on, '%r from dictionary is %r', note, back)
                require(dct == keep, 'from_dict modified dictionary of %r to %r', note, dct)
            dct['pitch'] = -5
            require(note.to_dict() == keep, 'dictionaries of %r are shared', note)
            if serializable(v):
                text = note.to_json()
                require(isinstance(text, str), '%r', text)
                back = Note.from_json(text)
                require(type(back) is Note and back == note and back.on == note.on, '%r from JSON is %r', note, back)
                require(json.loads(text).keys() == keep.keys(), '%r', text)
                require(Note.from_json(silent.to_json()) == silent, '%r', silent)
            require(isinstance(str(note), str), '%r', note)
            ctx.step()
            ctx.state(p, repr(v), repr(f))
        for v in BAD_VELOCITIES:
            require(raises(Note, pitch, v), 'Note(%r, %r) accepted', pitch, v)
            require(raises(Note, pitch, velocity=v, frequency=3.), 'Note(%r, %r, 3) accepted', pitch, v)
            require(raises(Note.from_dict, {'type': 'Note', 'pitch': p, 'velocity': v, 'frequency': 1.}), 'from_dict accepted velocity %r', v)
        for f in BAD_FREQUENCIES:
            for v in (0., .5):
                require(raises(Note, pitch, v, f), 'Note(%r, %r, %r) accepted', pitch, v, f)
        ctx.trace()
    # Defaults
    require(Note(p).on and Note(p).velocity == 1, 'default velocity')
    for name, temperament in TEMPERAMENTS.items():
        note = Note(p, .5, temperament=temperament)
        require(note.frequency == temperament.pitch_2_frequency(p), '%s: %r', name, note)
        require(Note(p, .5, 3., temperament).frequency == 3., '%s: given frequency', name)
        require(note.silence().frequency == note.frequency, '%s: %r', name, note)
        require(Note.from_json(note.to_json()) == note, '%s: %r', name, note)
        ctx.step()
    ctx.outcome(p)


def invalid_cases(tier):
    for i in range(len(BAD_PITCHES)):
        yield [i]


def invalid_run(case, ctx):
    """Invalid pitches are refused whatever else is given; foreign dictionaries are refused and left alone."""
    pitch = BAD_PITCHES[case[0]]
    for v in VELOCITIES + BAD_VELOCITIES:
        for f in FREQUENCIES[1:] + BAD_FREQUENCIES:
            require(raises(Note, pitch, v, f), 'Note(%r, %r, %r) accepted', pitch, v, f)
            require(raises(Note.from_dict, {'type': 'Note', 'pitch': pitch, 'velocity': v, 'frequency': f}), 'from_dict')
            ctx.step()
            ctx.state(repr(pitch), repr(v), repr(f))
    for type_ in ('note', '', None, 'ndarray', 3):
        dct = {'type': type_, 'pitch': 60, 'velocity': .5, 'frequency': 1.}
        keep = dict(dct)
        require(raises(Note.from_dict, dct), 'from_dict accepted type %r', type_)
        require(dct == keep, 'from_dict modified %r to %r', keep, dct)
    ctx.trace()
    ctx.outcome(case[0])


def midi_receive(message):
    """What a MIDI receiver understands: (channel, pitch, on)."""
    require(len(message) == 3, 'MIDI message %r', message)
    for byte in message:
        require(isinstance(byte, numbers.Integral), 'MIDI message %r', message)
    status, data1, data2 = (int(b) for b in message)
    require(status in range(0x80, 0xA0) and 0 <= data1 < 128 and 0 <= data2 < 128, 'MIDI message %r', message)
    return status & 0xF, data1, status >= 0x90 and data2 > 0


def midi_cases(tier):
    for channel in range(16):
        yield [channel]


MIDI_VELOCITIES = VELOCITIES + [k / 127. for k in range(128)] + [k / 128. for k in range(129)] + [1e-3 * k for k in range(20)]


def midi_run(case, ctx):
    """All pitches and velocities on this channel."""
    channel, = case
    for p in range(128):
        for v in MIDI_VELOCITIES:
            note = Note(p, v)
            got = midi_receive(note_to_midi_message(note, channel))
            require(got == (channel, p, bool(note.on)), '%r on channel %d is %r', note, channel, got)
            if channel == 0:
                require(midi_receive(note_to_midi_message(note)) == got, '%r: default channel', note)
            ctx.step()
        ctx.state(channel, p)
        off = Note(p, .5).silence()
        require(midi_receive(note_to_midi_message(off, channel)) == (channel, p, False), '%r', off)
    ctx.trace()
    ctx.outcome(channel)


def block_cases(tier):
    for channel in range(16):
        for ports in (0, 1, 2):
            yield [channel, ports]


def block_run(case, ctx):
    """All histories of notes and updates of a MIDI output block."""
    channel, ports = case
    FakePort.ports = ['port %d' % i for i in range(ports)]
    devnull = sys.stdout
    sys.stdout = open('/dev/null', 'w')
    try:
        block = MidiOut(channel=channel)
    finally:
        sys.stdout.close()
        sys.stdout = devnull
    notes = {'on': Note(60, .8), 'off': Note(60, 0.), 'quiet': Note(0, 1e-4), 'top': Note(np.int64(127), np.float64(1.))}
    for hist in itertools.product(tuple(notes) + ('update',), repeat=6 if ctx.thorough else 5):
        FakePort.sent = []
        want = []
        queue = []
        for op in hist + ('update',):
            if op == 'update':
                block.update()
                want += queue
                queue = []
                got = [midi_receive(m) for m in FakePort.sent]
                require(got == want, '%s %s: sent %s instead of %s', case, hist, got, want)
            else:
                block.input.push(notes[op])
                queue.append((channel, notes[op].pitch, notes[op].on))
            ctx.step()
            ctx.state(channel, ports, len(want), len(queue))
        ctx.trace()
    ctx.outcome(*case)


FAMILIES = [
    Family('notes', create_cases, create_run, '128 pitches x 4 number types x 20 velocities x 11 frequencies, 12 invalid velocities, 7 invalid frequencies, all temperaments'),
    Family('invalid', invalid_cases, invalid_run, '12 invalid pitches x all velocities and frequencies; foreign dictionaries'),
    Family('midi', midi_cases, midi_run, '16 channels x 128 pitches x ~290 velocities'),
    Family('midiOut', block_cases, block_run, '16 channels x ports: all histories of 5 (6) notes and updates'),
]
ASSUMPTIONS = ['the rtmidi port is replaced by one which records messages', 'pitches are whole numbers']
