"""P22: computer keyboard. All press / repeat / release histories, events injected where the listener delivers them."""
import enum
import io
import itertools
import sys

import pynput.keyboard

from mc import Family, require

KeyCode = pynput.keyboard.KeyCode


class FakeListener:

    """Listener without a thread. Remembers the event handlers."""

    def __init__(self, on_press=None, on_release=None, suppress=False, **kwargs):
        self.on_press = on_press
        self.on_release = on_release
        FakeListener.latest = self

    def start(self):
        pass

    def stop(self):
        pass


pynput.keyboard.Listener = FakeListener

from klang.connections import MessageInput  # noqa: E402
from klang.keyboard import Keyboard, MusicalKeyboard  # noqa: E402
from klang.messages import Note  # noqa: E402
from klang.music.tunings import TEMPERAMENTS  # noqa: E402



class Special(enum.Enum):

    """Stand-in for pynput's special keys (which are all the same one in its dummy backend)."""

    esc = KeyCode.from_vk(0xff1b)
    shift = KeyCode.from_vk(0xffe1)


NOTE_KEYS = dict(zip('awsedftgzhujkolp', range(16)))
REF = 5


def make_key(name):
    """A listener creates a fresh key code for every event; special keys are enum members."""
    if name in ('esc', 'shift'):
        return Special[name]
    if name.startswith('dead'):
        return KeyCode.from_dead(name[4:])
    if name.startswith('vk'):
        return KeyCode.from_vk(int(name[2:]))
    return KeyCode.from_char(name)


class Rig:

    """Keyboard with an input on every output."""

    def __init__(self, cls, **kwargs):
        self.block = cls(**kwargs)
        self.listener = FakeListener.latest
        self.sinks = []
        for output in self.block.outputs:
            sink = MessageInput()
            output.connect(sink)
            self.sinks.append(sink)

    def event(self, name, press):
        """Deliver event; returns messages per output."""
        key = make_key(name)
        stdout, sys.stdout = sys.stdout, io.StringIO()
        try:
            result = (self.listener.on_press if press else self.listener.on_release)(key)
        finally:
            sys.stdout = stdout
        require(result is not False, 'event handler stops the listener')
        return key, [list(sink.receive()) for sink in self.sinks]


def base_cases(tier):
    keys = ('a', 'A', 'y', 'esc', 'shift', 'vk65', 'vk66') + (('dead~',) if tier != 'quick' else ())
    for trio in itertools.combinations(keys, 3):
        yield list(trio)


def base_run(case, ctx):
    """All histories of presses (repeated while held) and releases of three keys."""
    ops = [(k, p) for k in case for p in (True, False)]
    for hist in itertools.product(ops, repeat=6 if ctx.thorough else 5):
        rig = Rig(Keyboard)
        held = set()
        for name, press in hist + tuple((k, False) for k in case):
            key, (msgs,) = rig.event(name, press)
            expected = (name not in held) if press else (name in held)
            require(len(msgs) == int(expected), '%s: %s of %r (held: %s) gave %d events', hist,
                    'press' if press else 'release', name, sorted(held), len(msgs))
            if msgs:
                require(msgs[0] == key and bool(msgs[0].pressed) == press, '%s: event %r, pressed %r', hist, msgs[0], msgs[0].pressed)
            (held.add if press else held.discard)(name)
            ctx.step()
            ctx.state(str(case), tuple(sorted(held)))
        ctx.trace()
    ctx.outcome(str(case))


class Model:

    """Reference of musical keyboard."""

    def __init__(self, others):
        self.others = others
        self.held = {}      # key -> pitch or None
        self.octave = REF
        self.known = True   # Octave inside of the usual range all the time
        self.velocity = 1.
        self.temperament = TEMPERAMENTS['Equal']

    def control(self, name):
        if name in 'yx':
            self.octave += 1 if name == 'x' else -1
            if not 0 <= self.octave <= 9:
                self.known = False
        elif name in 'cv':
            self.velocity = min(1., max(.1, self.velocity + (.1 if name == 'v' else -.1)))
        else:
            self.temperament = list(TEMPERAMENTS.values())[int(name)]


def check_event(model, rig, name, press, what):
    """One event on real keyboard and model."""
    key, msgs = rig.event(name, press)
    main = msgs[0]
    other = msgs[1] if len(msgs) > 1 else []
    fresh = (name not in model.held) if press else (name in model.held)
    verb = 'press' if press else 'release'
    if name in NOTE_KEYS:
        require(not other, '%s: %s of %r on secondary output', what, verb, name)
        require(len(main) == int(fresh), '%s: %s of %r gave %d notes', what, verb, name, len(main))
        if fresh:
            note, = main
            require(type(note) is Note and bool(note.on) == press and bool(note.off) != press, '%s: %s of %r gave %r', what, verb, name, note)
            require(0 <= note.pitch < 128 and 0 <= note.velocity <= 1 and note.frequency >= 0, '%s: invalid %r', what, note)
            if press:
                if model.known:
                    pitch = NOTE_KEYS[name] + 12 * model.octave
                    require(note.pitch == pitch, '%s: %r plays pitch %d instead of %d', what, name, note.pitch, pitch)
                require(abs(note.velocity - model.velocity) < 1e-6, '%s: %r at velocity %g', what, note, model.velocity)
                want = model.temperament.pitch_2_frequency(note.pitch)
                require(abs(note.frequency - want) < 1e-9 * want, '%s: %r, frequency should be %g', what, note, want)
                model.held[name] = note.pitch
            else:
                pitch = model.held.pop(name)
                require(note.pitch == pitch, '%s: release of %r ends pitch %d, but it plays %d', what, name, note.pitch, pitch)
        return
    require(not main, '%s: %s of %r gave note %r', what, verb, name, main)
    if name in 'yxcv0123456789':
        require(not other, '%s: %s of control key %r on secondary output', what, verb, name)
        if press and fresh:
            model.control(name)
    else:
        count = int(fresh and model.others)
        require(len(other) == count, '%s: %s of %r gave %d events on secondary output', what, verb, name, len(other))
        if other:
            require(other[0] == key and bool(other[0].pressed) == press, '%s: wrong event %r', what, other[0])
    if press:
        model.held[name] = None
    else:
        model.held.pop(name, None)


def finish(model, rig, what):
    """Release everything: nothing may sound."""
    for name in sorted(model.held):
        check_event(model, rig, name, False, what + ' (finally)')


ALPHABETS = [
    ['a', 'k', 'y', 'x', '1'],
    ['a', 'p', 'x', 'c', 'b'],
    ['l', 'y', 'v', 'esc', '4'],
    ['z', 'u', '0', '9', 'vk65'],
    ['g', 'vk65', 'vk66', 'esc', 'shift'],
    ['s', 'd', 'c', 'v', 'A'],
]


def musical_cases(tier):
    for keys in ALPHABETS:
        for others in (False, True):
            for first in keys:
                for firstPress in (True, False):
                    yield [keys, others, first, firstPress]


def musical_run(case, ctx):
    """All histories of presses (or repeats) and releases of playing, control and other keys."""
    keys, others, first, firstPress = case
    ops = [(k, p) for k in keys for p in (True, False)]
    for hist in itertools.product(ops, repeat=5 if ctx.thorough else 4):
        rig = Rig(MusicalKeyboard, others=others)
        model = Model(others)
        full = ((first, firstPress),) + hist
        for name, press in full:
            check_event(model, rig, name, press, str(full))
            ctx.step()
            ctx.state(others, tuple(sorted(model.held.items(), key=str)), model.octave, round(model.velocity, 2), str(model.temperament))
        finish(model, rig, str(full))
        ctx.trace()
    ctx.outcome(str(case))


def tap_cases(tier):
    for first in ('none', 'hold'):
        for letters in (('y', 'x', 'a', 'b'), ('c', 'v', 'a'), ('0', '5', 'x', 'p')):
            yield [first, list(letters)]


def tap_run(case, ctx):
    """All sequences of whole key strokes, while another playing key is held or not."""
    first, letters = case
    for hist in itertools.product(letters, repeat=8 if ctx.thorough else 6):
        rig = Rig(MusicalKeyboard, others=True)
        model = Model(True)
        if first == 'hold':
            check_event(model, rig, 'k', True, str(case))
        for name in hist:
            for press in (True, False):
                check_event(model, rig, name, press, '%s %s' % (case, hist))
                ctx.step()
        if first == 'hold':
            check_event(model, rig, 'k', False, '%s %s' % (case, hist))
        finish(model, rig, str(hist))
        ctx.state(str(case), model.octave, round(model.velocity, 2), str(model.temperament))
        ctx.trace()
    ctx.outcome(str(case))


def range_cases(tier):
    for control in ('x', 'y', 'c', 'v') + tuple('0123456789'):
        for n in range(0, 16):
            yield [control, n]


def range_run(case, ctx):
    """Far octaves, velocities and all tunings: all playing keys, with up to three other control strokes while held."""
    control, n = case
    for length in range(0, 4 if ctx.thorough else 3):
        for mid in itertools.product('xycv3', repeat=length):
            for name in NOTE_KEYS:
                rig = Rig(MusicalKeyboard)
                model = Model(False)
                what = '%d x %r, hold %r, %s' % (n, control, name, mid)
                for _ in range(n):
                    check_event(model, rig, control, True, what)
                    check_event(model, rig, control, False, what)
                check_event(model, rig, name, True, what)
                for c in mid:
                    check_event(model, rig, c, True, what)
                    check_event(model, rig, name, True, what)   # Key repeat
                    check_event(model, rig, c, False, what)
                check_event(model, rig, name, False, what)
                check_event(model, rig, name, True, what)
                finish(model, rig, what)
                ctx.step()
                ctx.trace()
                ctx.state(control, n, name, mid)
    ctx.outcome(*case)


def pair_cases(tier):
    for keys in ('ax', 'ac', 'a3', 'ak'):
        for first in range(4):
            for who in (0, 1):
                for single in (False, True):
                    yield [keys, first, who, single]


def pair_run(case, ctx):
    """Two keyboards: all histories of events arriving at either one (as with two devices), each follows its own model."""
    keys, first, who, single = case
    ops = [(k, p) for k in keys for p in (True, False)]
    alphabet = [(i, *op) for i in (0, 1) for op in ops]
    for hist in itertools.product(alphabet, repeat=5 if ctx.thorough else 4):
        rigs, models = [], []
        what = 'two keyboards %s %s' % (case, hist)
        for i, (w, name, press) in enumerate([(who, *ops[first])] + list(hist)):
            while len(rigs) < 2 and (not single or w >= len(rigs) or i == 2):
                # Second one comes up later
                rigs.append(Rig(MusicalKeyboard))
                models.append(Model(False))
            check_event(models[w], rigs[w], name, press, what)
            ctx.step()
        for model, rig in zip(models, rigs):
            finish(model, rig, what)
        ctx.state(*hist)
        ctx.trace()
    ctx.outcome(str(case))


FAMILIES = [
    Family('keyboard', base_cases, base_run, lambda tier: 'all combinations of 3 of 7 (8) keys incl. keys without a character: all histories of %d presses / releases (repeats included)' % (5 if tier == 'quick' else 6)),
    Family('musical', musical_cases, musical_run, lambda tier: '6 alphabets of playing, control and other keys, secondary output on / off: all histories of %d presses / releases' % (5 if tier == 'quick' else 6)),
    Family('strokes', tap_cases, tap_run, lambda tier: 'all sequences of %d key strokes, with and without a held key' % (6 if tier == 'quick' else 8)),
    Family('pairs', pair_cases, pair_run, lambda tier: 'two keyboards, 4 pairs of keys: all histories of %d events at either one' % (5 if tier == 'quick' else 6)),
    Family('ranges', range_cases, range_run, '14 control keys pressed 0..15 times x 16 playing keys x all sequences of up to 2 (3) control strokes while held'),
]
ASSUMPTIONS = [
    'a physical key is the key pynput reports for its press and release; events are injected through the handlers given to the (stubbed) listener',
    'exact pitches are compared as long as the octave never left 0..9; beyond only validity and pairing',
]
