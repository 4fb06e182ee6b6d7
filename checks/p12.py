"""P12: arpeggio and arpeggiator. All add / remove / next histories against the set of held notes."""
import itertools
import random
from fractions import Fraction

from mc import Family, require, sequences, expect_raises
from klang.arpeggiator import Arpeggiator, Arpeggio
from klang.audio.helpers import INTERVAL
from klang.config import TEMPO
from klang.connections import MessageInput, MessageOutput
from klang.messages import Note

ORDERS = ('up', 'down', 'upDown', 'downUp', 'alternating', 'random')


def cycle_of(order, n):
    """Independent reference: indices (into the pitch sorted notes) of one full cycle."""
    if n <= 1:
        return list(range(n))
    if order == 'up':
        return list(range(n))
    if order == 'down':
        return list(range(n - 1, -1, -1))
    if order == 'upDown':
        return list(range(n)) + list(range(n - 2, 0, -1))
    if order == 'downUp':
        return list(range(n - 1, -1, -1)) + list(range(1, n - 1))
    if order == 'alternating':
        ret = []
        lo, hi = 0, n - 1
        while lo <= hi:
            ret.append(lo)
            lo += 1
            if lo <= hi:
                ret.append(hi)
                hi -= 1
        return ret
    return None  # random


class Shuffler:
    """Replaces random.shuffle by a chosen permutation (the k-th), so that shuffles get enumerated."""

    def __init__(self, k):
        self.k = k

    def __call__(self, x, *args):
        perms = list(itertools.islice(itertools.permutations(list(x)), self.k % 24 + 1))
        x[:] = perms[self.k % len(perms)]


def with_shuffles(order, run):
    """Call run() for each shuffle outcome."""
    if order != 'random':
        return run()
    original = random.shuffle
    try:
        for k in (0, 1, 3, 5, 8, 16, 23):
            random.seed(k)
            random.shuffle = Shuffler(k)
            run()
    finally:
        random.shuffle = original
    random.seed(1)
    return run()


def check_cycle(what, arp, order, held, fresh):
    """Two full cycles from here visit all held notes in the chosen order."""
    pitches = sorted(held)
    n = len(pitches)
    if n == 0:
        try:
            next(arp)
        except StopIteration:
            return
        require(False, '%s: empty arpeggio returned a note', what)
    ref = cycle_of(order, n)
    length = n if ref is None else len(ref)
    got = [next(arp) for _ in range(2 * length)]
    for note in got:
        require(note.pitch in held and held[note.pitch] == note, '%s: returned %s, held are %s', what, note, pitches)
    got = [note.pitch for note in got]
    for start in range(length + 1):
        require(set(got[start:start + length]) == set(pitches), '%s: a cycle of %d steps %s does not visit all of %s', what, length, got[start:start + length], pitches)
    if ref is None:
        for start in (0, length):
            require(got[:length] == got[length:] or sorted(got[start:start + n]) == pitches, '%s: %s', what, got)
        require(sorted(got[:n]) == pitches, '%s: %s', what, got)
        return
    want = [pitches[i] for i in ref]
    rotations = [want[i:] + want[:i] for i in range(length)]
    require(got[:length] == got[length:], '%s: cycles differ: %s', what, got)
    if fresh:
        require(got[:length] == want, '%s: first cycle is %s, expected %s', what, got[:length], want)
    else:
        require(got[:length] in rotations, '%s: cycle is %s, expected (rotated) %s', what, got[:length], want)


KEYS = (60, 67, 64, 0)


def ops(nKeys):
    return [('add', k) for k in range(nKeys)] + [('rem', k) for k in range(nKeys)] + [('next', 0)]


def history_cases(tier):
    for order in ORDERS:
        for nKeys, depth in ((3, 5), (4, 4)) if tier == 'quick' else ((3, 7), (4, 6)):
            for head in sequences(ops(nKeys), 2):
                yield [order, nKeys, depth, [list(o) for o in head]]


def apply_op(what, arp, held, op, i):
    kind, k = op
    if kind == 'add':
        note = Note(KEYS[k], velocity=1. - .1 * (i % 5), frequency=None if i % 2 else 100. + i)
        arp.add_note(note)
        held.setdefault(note.pitch, note)
    elif kind == 'rem':
        note = Note(KEYS[k], 0., frequency=33.)
        if note.pitch in held:
            arp.remove_note(note)
            del held[note.pitch]
        else:
            require(expect_raises(arp.remove_note, note), '%s: removing an absent note did not raise', what)
    else:
        try:
            got = next(arp)
        except StopIteration:
            got = None
        require((got is None) == (not held), '%s: next returned %s with %s held', what, got, sorted(held))
        require(got is None or held.get(got.pitch) == got, '%s: returned %s which is not held', what, got)
    pitches = [n.pitch for n in arp]
    require(sorted(pitches) == sorted(held) and len(arp) == len(held), '%s: contains %s, expected %s', what, pitches, sorted(held))
    for key in KEYS:
        require((Note(key) in arp) == (key in held), '%s: contains(%d) is wrong', what, key)


def history_run(case, ctx):
    order, nKeys, depth, head = case
    for tail in sequences(ops(nKeys), depth - 2):
        seq = [tuple(o) for o in head] + list(tail)
        if not any(o[0] == 'add' for o in seq):
            continue

        def run():
            arp = Arpeggio(order)
            held = {}
            for i, op in enumerate(seq):
                apply_op((order, seq[:i + 1]), arp, held, op, i)
                ctx.state(order, tuple(sorted(held)), getattr(arp, 'current', i))
            check_cycle((order, seq), arp, order, held, fresh=all(o[0] != 'next' for o in seq))
            ctx.step(depth)
            ctx.trace()
            ctx.outcome(order, tuple(sorted(held)))
        with_shuffles(order, run)


def size_cases(tier):
    for order in ORDERS:
        for n in range(0, 13 if tier == 'quick' else 25):
            for how in ('initial', 'up', 'down', 'mixed'):
                for skip in range(0, min(2 * n, 8) + 1):
                    for shrink in (0, 1, 2, 5):
                        yield [order, n, how, skip, shrink]


def size_run(case, ctx):
    """Any number of notes, inserted in any direction, partially played, then shrunk."""
    order, n, how, skip, shrink = case
    pitches = [20 + 4 * i + i % 3 for i in range(n)]
    if how == 'down':
        pitches.reverse()
    elif how == 'mixed':
        pitches = pitches[1::2] + pitches[::2]
    notes = [Note(p, .5) for p in pitches]

    def run():
        arp = Arpeggio(order, initialNotes=notes) if how == 'initial' else Arpeggio(order=order)
        held = {note.pitch: note for note in notes}
        if how != 'initial':
            for note in notes:
                arp.add_note(note)
        for _ in range(skip):
            if held:
                note = next(arp)
                require(note.pitch in held, '%s: returned %s', case, note)
        for note in notes[:shrink]:
            arp.remove_note(note)
            del held[note.pitch]
        check_cycle(case, arp, order, held, fresh=skip == 0)
        ctx.step(n + skip + shrink)
        ctx.trace()
    with_shuffles(order, run)
    ctx.state(str(case))
    ctx.outcome(order, n, shrink)


def order_cases(tier):
    yield from ['', 'UP', 'updown', 'foo', None]


def order_run(case, ctx):
    require(expect_raises(Arpeggio, case), 'order %r is not rejected', case)
    ctx.state(case)
    ctx.step()
    ctx.trace()
    ctx.outcome('rejected')


# Arpeggiator

INTERVALS = (1., 1.3, 2., 2.5, 3., 4.)      # in buffers


def make(interval, order, given=None):
    """Interval in buffers, or given."""
    arp = Arpeggiator(interval * INTERVAL if given is None else given, order)
    src, dst = MessageOutput(), MessageInput()
    src.connect(arp.input)
    arp.output.connect(dst)
    return arp, src, dst


_GRIDS = {}


def grid(interval, length, given=None):
    """Updates at which an arpeggiator with an always held note ticks; checked against the ideal times."""
    key = interval, length, str(given)
    if key not in _GRIDS:
        arp, src, dst = make(interval, 'up', given)
        src.send(Note(60))
        ticks = []
        for i in range(length):
            arp.update()
            ons = [m for m in dst.receive() if m.on]
            require(len(ons) <= 1, 'interval %s: %d notes in one update', interval, len(ons))
            if ons:
                ticks.append(i)
        for k, i in enumerate(ticks):
            require(-1e-6 <= i - k * interval <= 1. + 1e-6, 'interval of %s buffers: tick %d in buffer %d', interval, k, i)
        require(len(ticks) >= int((length - 2) / interval), 'interval of %s buffers: only %d ticks in %d buffers', interval, len(ticks), length)
        _GRIDS[key] = frozenset(ticks)
    return _GRIDS[key]


def rate_cases(tier):
    for k in range(20, 400 if tier == 'quick' else 2000):
        yield [k / 20.]
    for note in ('1/256', '1/64', '1/32', '1/16', '1/8', '1/4', '3/16', '3/64', '1/24', '1/48', '5/16', '1/2', '1', 'one'):
        yield [note]


def rate_run(case, ctx):
    if isinstance(case[0], str):  # Note value, or number of seconds
        seconds = 1 if case[0] == 'one' else float(Fraction(case[0]) * 4) * 60. / TEMPO
        ctx.outcome(len(grid(seconds / INTERVAL, 1100, 1 if case[0] == 'one' else Fraction(case[0]))))
    else:
        ctx.outcome(len(grid(case[0], 300)))
    ctx.state(case[0])
    ctx.step(300)
    ctx.trace()


class Monitor:
    """Follows the emitted messages."""

    def __init__(self, what):
        self.what = what
        self.sounding = None
        self.played = []

    def message(self, msg, held):
        if msg.on:
            require(self.sounding is None, '%s: %s starts while %s still sounds', self.what, msg, self.sounding)
            require(msg.pitch in held and held[msg.pitch] == msg, '%s: plays %s, held are %s', self.what, msg, sorted(held))
            self.sounding = msg
            self.played.append(msg.pitch)
        else:
            require(self.sounding is not None, '%s: note-off %s although nothing sounds', self.what, msg)
            require(msg.pitch == self.sounding.pitch and msg.frequency == self.sounding.frequency,
                    '%s: note-off %s while %s sounds', self.what, msg, self.sounding)
            self.sounding = None


def player_cases(tier):
    # one step = the messages before one update: nothing, press / release of a key, both in one buffer
    for order in ORDERS:
        for interval in INTERVALS if tier == 'quick' else INTERVALS + (1.7, 5.5):
            for head in sequences(range(8), 2):
                yield [order, interval, 5 if tier == 'quick' else 6, list(head)]


STEPS = [(), (('on', 0),), (('off', 0),), (('on', 1),), (('off', 1),),
         (('on', 0), ('off', 0)), (('off', 0), ('on', 1)), (('on', 1), ('off', 1), ('on', 0))]


def player_run(case, ctx):
    order, interval, depth, head = case
    for tail in sequences(range(len(STEPS)), depth - 2):
        idle = int(2 * interval) + 3
        steps = head + list(tail)
        if not any(op == 'on' for s in steps for op, _ in STEPS[s]):
            continue
        steps = [STEPS[s] for s in steps] + [()] * idle
        last = len(steps)
        steps += [(('off', 0), ('off', 1))] + [()] * idle
        ticks = grid(interval, 60)
        arp, src, dst = make(interval, order)
        held = {}
        mon = Monitor((case, tail))
        random.seed(len(steps))
        for i, step in enumerate(steps):
            for op, k in step:
                note = Note(KEYS[k], .9 if op == 'on' else 0., frequency=None if i % 2 else 70. + i)
                src.send(note)
                if op == 'on':
                    held.setdefault(note.pitch, note)
                else:
                    held.pop(note.pitch, None)
            arp.update()
            msgs = list(dst.receive())
            for msg in msgs:
                mon.message(msg, held)
            ons = sum(m.on for m in msgs)
            require(ons == (1 if held and i in ticks else 0), '%s: %d notes started in buffer %d with %d keys held (tick: %s)', mon.what, ons, i, len(held), i in ticks)
            if i == last - 1 and len(held) > 1:
                require(interval > 2.5 or set(mon.played[-2:]) == set(held), '%s: last notes %s do not visit %s', mon.what, mon.played[-2:], sorted(held))
            ctx.state(interval, tuple(sorted(held)), mon.sounding is not None, i in ticks)
            if i > last + interval + 1:
                require(mon.sounding is None and not msgs, '%s: not silent although nothing is held any more: %s', mon.what, msgs)
        ctx.step(len(steps))
        ctx.trace()
        ctx.outcome(order, interval, tuple(mon.played))


def tune_cases(tier):
    for order in ORDERS:
        for n in range(1, 7):
            for interval in INTERVALS:
                for late in (0, 1, 2):
                    yield [order, n, interval, late]


def tune_run(case, ctx):
    """With constant keys the arpeggiator plays the cycle of its order."""
    order, n, interval, late = case
    arp, src, dst = make(interval, order)
    pitches = [50 + 7 * i for i in range(n)]
    mon = Monitor(case)
    held = {}
    random.seed(n)
    for i in range(int(3 * interval * max(1, 2 * n - 2)) + 8):
        if i == late:
            for p in pitches:
                held[p] = Note(p, .5)
                src.send(held[p])
        arp.update()
        for msg in dst.receive():
            mon.message(msg, held)
    ref = cycle_of(order, n)
    length = n if ref is None else len(ref)
    got = mon.played[:2 * length]
    require(len(got) == 2 * length, '%s: played only %s', case, got)
    if ref is None:
        require(sorted(got[:n]) == pitches, '%s: played %s', case, got)
    else:
        require(got == [pitches[k] for k in ref] * 2, '%s: played %s', case, got)
    ctx.state(str(case))
    ctx.step(i)
    ctx.trace()
    ctx.outcome(order, tuple(got))


FAMILIES = [
    Family('histories', history_cases, history_run,
           lambda t: 'all add / remove / next histories of %s operations over 3-4 keys, 6 orders, 8 shuffle outcomes' % ('4-5' if t == 'quick' else '6-7')),
    Family('sizes', size_cases, size_run, 'up to 12 (24) notes x insertion direction x notes already played x notes removed, all orders'),
    Family('orders', order_cases, order_run, 'invalid orders are rejected'),
    Family('rates', rate_cases, rate_run, 'intervals of 1..20 (100) buffers in steps of 1/20, 300 buffers each; 14 note values, one second as integer, 1100 buffers each'),
    Family('arpeggiator', player_cases, player_run,
           lambda t: 'all press / release timings of %d buffers over 2 keys (8 message groups per buffer) x intervals x orders, then everything released' % (5 if t == 'quick' else 6)),
    Family('tunes', tune_cases, tune_run, '1-6 constant keys x orders x intervals x first buffer: two full cycles'),
]
ASSUMPTIONS = ['arpeggiator intervals of at least one buffer', 'the first of two notes with the same pitch is the one that counts']
