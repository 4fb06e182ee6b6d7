"""P13: note effects. All note histories against reference queues."""
import itertools

from mc import Family, require, sequences, compositions
from klang.clock import ClockMixin
from klang.connections import MessageInput, MessageOutput
from klang.messages import Note
from klang.note_effects import MaxNotes, MessageMixer, NoteLengthener

KEYS = (60, 0, 127)


def attach(effect):
    src, dst = MessageOutput(), MessageInput()
    src.connect(effect.input)
    effect.output.connect(dst)
    return src, dst


def note(i, k, on=True, same=False):
    if same:
        return Note(KEYS[k], .5 if on else 0.)
    return Note(KEYS[k], (.1 + .09 * (i % 10)) if on else 0., frequency=None if i % 3 else 20. + i)


# Note lengthener: what arrives before an update, and how far the clock moves to the next one

GROUPS = [(), ((0, True),), ((1, True),), ((0, True), (0, True)), ((0, True), (1, True)), ((1, True), (0, False))]
STEPS = (0., .25, .5, 1., 2.25)


def lengthen_cases(tier):
    for duration in (0., .25, .5, .75, 1., 1.5):
        for start in (0., 7.):
            for head in sequences(range(len(GROUPS) * len(STEPS)), 2):
                yield [duration, start, 3 if tier == 'quick' else 4, list(head)]
                if start:
                    yield [duration, start, 3 if tier == 'quick' else 4, list(head), True]


def lengthen_run(case, ctx):
    duration, start, depth, head, *same = case
    for tail in sequences(range(len(GROUPS) * len(STEPS)), depth - 2):
        seq = [(GROUPS[x % len(GROUPS)], STEPS[x // len(GROUPS)]) for x in head + list(tail)]
        run_lengthener((case, tail), seq, duration, start, ctx, bool(same))


def run_lengthener(what, seq, duration, start, ctx, same=False):
    """Reference: list of sounding (end time, note); compare all messages per update."""
    effect = NoteLengthener(duration)
    src, dst = attach(effect)
    now = start
    active = []
    total = 0
    for i, (group, dt) in enumerate(list(seq) + [((), .25)] * 8):
        ClockMixin.set_current_time(now)
        ons = []
        for j, (k, on) in enumerate(group):
            msg = note(3 * i + j, k, on, same)
            src.send(msg)
            if on:
                ons.append(msg)
        ended = [(e, n) for e, n in active if e <= now]
        active = [(e, n) for e, n in active if e > now]
        effect.update()
        got = list(dst.receive())
        gotOns = [m for m in got if m.on]
        gotOffs = [m for m in got if m.off]
        require(gotOns == ons, '%s: update %d passed on note-ons %s, expected %s', what, i, gotOns, ons)
        want = [n.silence() for _, n in ended]
        require(gotOffs == want, '%s: update %d at %s sent note-offs %s, expected %s', what, i, now, gotOffs, want)
        active.extend((now + duration, n) for n in ons)
        total += len(ons)
        ctx.state(duration, tuple((e - now, n.pitch) for e, n in active))
        ctx.step()
        now += dt
    require(not active, '%s: reference has notes left', what)
    ctx.trace()
    ctx.outcome(total, duration)
    ClockMixin.set_current_time(0.)


def phrase_cases(tier):
    """Longer regular phrases with many overlapping notes."""
    for duration in (.1, .3, .5, 1., 3., 10.):
        for dt in (.1, .25, .3, 1.):
            for per in (1, 2, 3):
                for n in (5, 20, 60):
                    yield [duration, dt, per, n]


def phrase_run(case, ctx):
    duration, dt, per, n = case
    seq = [(tuple(((i + j) % 3, True) for j in range(per)), dt) for i in range(n)] + [((), dt)] * int(duration / dt + 2)
    run_lengthener(case, seq, duration, 0., ctx)


# Note limiter

def limit_cases(tier):
    for n in (1, 2, 3, 4):
        for head in sequences(range(5), 3):
            for same in (False, True):
                yield [n, (6 if same else 7) + (tier != 'quick'), list(head), same]


def limit_run(case, ctx):
    """Notes (three pitches), end of buffer and note-offs in any order."""
    n, depth, head, same = case
    for tail in sequences(range(5), depth - 3):
        effect = MaxNotes(n) if n != 1 else MaxNotes()
        src, dst = attach(effect)
        seq = head + list(tail) + [3]
        what = (n, seq, same)
        sounding, expected, ons = [], [], []
        simple = 4 not in seq
        for i, x in enumerate(seq):
            if x < 3:
                msg = note(i, x, same=same)
                src.send(msg)
                ons.append(msg)
                sounding.append(msg)
                if len(sounding) > n:
                    expected.append(sounding.pop(0).silence())
                expected.append(msg)
                continue
            if x == 4:
                src.send(note(i, 0, False))
                continue
            effect.update()
            ctx.step()
            got = list(dst.receive())
            check_limited(what, got, n, ons, ctx)
            if simple:
                require([m for m in got if m.on] == ons, '%s: passed on %s, expected %s', what, got, ons)
                require([m for m in got if m.off] == [m for m in expected if m.off], '%s: sent %s, expected the note-offs of %s', what, got, expected)
                level = len(ctx.limited[1])
                require(level == len(sounding), '%s: %d notes sound, expected %d', what, level, len(sounding))
            ons, expected = [], []
            ctx.state(n, len(sounding), tuple(m.pitch for m in sounding))
        del ctx.limited
        ctx.trace()
        ctx.outcome(n, tuple(m.pitch for m in sounding))


def check_limited(what, got, n, ons, ctx):
    """What sounds after each message."""
    if not hasattr(ctx, 'limited') or ctx.limited[0] != what:
        ctx.limited = [what, []]
    sounding = ctx.limited[1]
    for m in got:
        if m.on:
            sounding.append(m)
        else:
            require(any(s.pitch == m.pitch for s in sounding), '%s: note-off %s for a note that does not sound', what, m)
            for s in sounding:
                if s.pitch == m.pitch:
                    sounding.remove(s)
                    break
        require(len(sounding) <= n, '%s: %d notes sounding', what, len(sounding))
    require([m for m in got if m.on] == ons, '%s: passed on %s, expected %s', what, [str(m) for m in got], [str(m) for m in ons])


# Message mixer

def mix_cases(tier):
    for nInputs in (1, 2, 3):
        for added in (0, 1):
            for head in sequences(range(nInputs + added + 1), 2):
                yield [nInputs, added, (7 if nInputs + added < 4 else 6) + (tier != 'quick'), list(head)]


def mix_run(case, ctx):
    nInputs, added, depth, head = case
    total = nInputs + added
    for tail in sequences(range(total + 1), depth - 2):
        mixer = MessageMixer(nInputs) if nInputs != 2 else MessageMixer()
        for _ in range(added):
            mixer.add_new_channel()
        require(len(mixer.inputs) == total, '%s: %d inputs', case, len(mixer.inputs))
        srcs = [MessageOutput() for _ in range(total)]
        dst, dst2 = MessageInput(), MessageInput()
        for src, inp in zip(srcs, mixer.inputs):
            src.connect(inp)
        mixer.output.connect(dst)
        mixer.output.connect(dst2)
        seq = head + list(tail) + [total]
        pending = []
        for i, x in enumerate(seq):
            if x < total:
                msg = (x, i) if i % 2 else Note(60, .5, frequency=100. * x + i)
                pending.append((x, msg))
                srcs[x].send(msg)
                continue
            mixer.update()
            got, got2 = list(dst.receive()), list(dst2.receive())
            require(got == got2, '%s: outputs differ', seq)
            require(sorted(map(repr, got)) == sorted(repr(m) for _, m in pending), '%s: forwarded %s, expected %s', seq, got, pending)
            for k in range(total):
                mine = [m for x, m in pending if x == k]
                require([m for m in got if m in mine] == mine, '%s: order of input %d: %s', seq, k, got)
            ctx.state(total, tuple(x for x, _ in pending))
            ctx.outcome(total, len(pending))
            pending = []
            ctx.step()
        ctx.trace()


def full_cases(tier):
    for nInputs in (1, 2, 3, 5):
        for n in (1, 2, 49, 50):
            yield [nInputs, n]


def full_run(case, ctx):
    """As many messages as the queues hold."""
    nInputs, n = case
    mixer = MessageMixer(nInputs)
    srcs = [MessageOutput() for _ in range(nInputs)]
    for src, inp in zip(srcs, mixer.inputs):
        src.connect(inp)
    got = []
    dst = MessageInput()
    dst.push = got.append
    mixer.output.connect(dst)
    for i in range(n):
        for k, src in enumerate(srcs):
            src.send((k, i))
    mixer.update()
    require(sorted(got) == sorted((k, i) for k in range(nInputs) for i in range(n)), '%s: forwarded %s', case, got)
    for k in range(nInputs):
        require([m for m in got if m[0] == k] == [(k, i) for i in range(n)], '%s: order', case)
    ctx.state(str(case))
    ctx.step(n * nInputs)
    ctx.trace()
    ctx.outcome(len(got))


# Parameters changed while notes are sounding

DURATIONS = (.25, .5, 1., 3.)
LIMITS = (1, 2, 3)


def change_cases(tier):
    for first in range(len(DURATIONS)):
        for second in range(len(DURATIONS)):
            yield ['duration', first, second]
    for first in LIMITS:
        for second in LIMITS:
            yield ['limit', first, second]


def change_run(case, ctx):
    kind, *head = case
    if kind == 'duration':
        for tail in sequences(range(len(DURATIONS)), 3 if ctx.thorough else 2):
            for mask in range(1, 2 ** (len(tail) + 2)):
                change_durations(case, [DURATIONS[i] for i in head + list(tail)], mask, ctx)
    else:
        for tail in sequences(LIMITS, 3 if ctx.thorough else 2):
            for counts in itertools.product((0, 1, 3), repeat=len(tail) + 2):
                change_limits(case, head + list(tail), counts, ctx)


def change_durations(case, durations, mask, ctx):
    """Each note lasts as long as the duration was when it came in."""
    effect = NoteLengthener(durations[0])
    src, dst = attach(effect)
    active = []
    for i in range(len(durations) + 24):
        now = .25 * i
        ClockMixin.set_current_time(now)
        ons = []
        if i < len(durations):
            effect.duration = durations[i]
            if mask >> i & 1:
                ons.append(Note(60 + i, velocity=.5))
                src.send(ons[0])
        ended = [n.silence() for e, n in active if e <= now]
        active = [(e, n) for e, n in active if e > now]
        effect.update()
        got = list(dst.receive())
        require([m for m in got if m.on] == ons, '%s: durations %s: passed on %s, expected %s', case, durations, got, ons)
        offs = [m for m in got if m.off]
        require(sorted(offs) == sorted(ended), '%s: durations %s, notes %s: sent note-offs %s at %s, expected %s', case, durations, bin(mask), offs, now, ended)
        active.extend((now + durations[i], n) for n in ons)
        ctx.step()
    require(not active, '%s: reference has notes left', case)
    ClockMixin.set_current_time(0.)
    ctx.trace()
    ctx.state('duration', tuple(durations), mask)
    ctx.outcome('duration', tuple(durations))


def change_limits(case, limits, counts, ctx):
    """The limit counts when the next note comes in."""
    effect = MaxNotes(limits[0])
    src, dst = attach(effect)
    sounding, want = [], []
    pitch = 20
    for i, (limit, count) in enumerate(zip(limits, counts)):
        effect.nNotes = limit
        for _ in range(count):
            pitch += 1
            msg = Note(pitch, velocity=.5)
            src.send(msg)
            want.append(msg)
            sounding.append(msg)
            want = want[:-1]
            while len(sounding) > limit:
                want.append(sounding.pop(0).silence())
            want.append(msg)
        effect.update()
        got = list(dst.receive())
        require([m for m in got if m.on] == [m for m in want if m.on], '%s: limits %s, notes %s: passed on %s, expected %s', case, limits, counts, got, want)
        require([m for m in got if m.off] == [m for m in want if m.off], '%s: limits %s, notes %s: sent %s in update %d, expected %s', case, limits, counts, got, i, want)
        want = []
        ctx.step()
    ctx.trace()
    ctx.state('limit', tuple(limits), counts)
    ctx.outcome('limit', tuple(limits))


FAMILIES = [
    Family('lengthener', lengthen_cases, lengthen_run,
           lambda t: 'all histories of %d updates: 6 message groups x 5 clock steps x 6 durations x 2 start times' % (3 if t == 'quick' else 4)),
    Family('phrases', phrase_cases, phrase_run, 'up to 60 x 3 regularly overlapping notes'),
    Family('limiter', limit_cases, limit_run,
           lambda t: 'all histories of %d events (note-on of 3 pitches, note-off, update) for limits 1-4' % (7 if t == 'quick' else 8)),
    Family('mixer', mix_cases, mix_run, 'all histories of 6-8 sends and updates over 1-4 inputs, incl. inputs added later'),
    Family('changes', change_cases, change_run, lambda t: 'all histories of %d durations of the lengthener x all subsets of them with a note; of limits x 0, 1 or 3 notes each' % (4 if t == 'quick' else 5)),
    Family('full', full_cases, full_run, 'up to 50 messages on up to 5 inputs per update'),
]
ASSUMPTIONS = ['note effects generate the note-offs themselves; incoming note-offs are not interpreted', 'limits of at least one note', 'the order between different inputs of the mixer is open']
