"""P14: sequencer. All short patterns, tempi, channel layouts and micro rhythm histories against nominal step times."""
import itertools
from fractions import Fraction

import numpy as np

from mc import Family, require, sequences
from klang.audio.helpers import INTERVAL
from klang.clock import ClockMixin
from klang.composite import Composite
from klang.connections import MessageInput
from klang.errors import KlangError
from klang.music.note_values import (EIGHT_NOTE, HALF_NOTE, QUARTER_NOTE, SIXTEENTH_NOTE, WHOLE_NOTE, DOTTED_QUARTER_NOTE)
from klang.music.rhythm import MicroRhyhtm
from klang.sequencer import Sequencer

EPS = 1e-6


def pitches_of(step):
    """Pitches of one pattern step."""
    if isinstance(step, (tuple, list)):
        return [p for p in step if p]
    return [step] if step else []


def tempo_for(stepBuffers, grid=SIXTEENTH_NOTE, beatValue=QUARTER_NOTE):
    """Tempo at which one step takes so many buffers."""
    return float(grid / beatValue) * 60. / (stepBuffers * INTERVAL)


class Recorder:
    """Message log of one output."""

    def __init__(self, output):
        self.input = MessageInput()
        output.connect(self.input)
        self.log = []

    def collect(self, u):
        self.log.extend((u, m) for m in self.input.receive())


def run(sequencer, recorders, nUpdates, hook=None, start=0.):
    for u in range(nUpdates):
        ClockMixin.set_current_time(start + u * INTERVAL)
        if hook:
            hook(u)
        sequencer.update()
        for r in recorders:
            r.collect(u)
    ClockMixin.set_current_time(0.)


def check_steps(what, ons, pattern, step, nUpdates, late=1.):
    """ons: [(update, pitch)] against the nominal times (in buffers) of all steps."""
    pos = 0
    k = 0
    while True:
        nominal = k * step
        if nominal > nUpdates - 1 - EPS:
            break
        want = pitches_of(pattern[k % len(pattern)])
        got = ons[pos:pos + len(want)]
        complete = nominal + late + EPS < nUpdates
        if not complete and len(got) < len(want):
            break
        require([p for _, p in got] == want, '%s: step %d (cycle %d) plays %s, expected pitches %s at buffer %.2f', what, k % len(pattern), k // len(pattern), got, want, nominal)
        for u, _ in got:
            if not complete and u > nominal + late:
                break
            require(nominal - EPS <= u <= nominal + late + EPS, '%s: step %d (cycle %d) plays in buffer %d, nominal %.3f', what, k % len(pattern), k // len(pattern), u, nominal)
        pos += len(want)
        k += 1
    require(pos == len(ons) or ons[pos][0] >= nUpdates - 1, '%s: extra notes %s', what, ons[pos:pos + 3])
    return k


def check_pairs(what, log, length, nUpdates):
    """Every note-on is ended once, after its note length (in buffers)."""
    open_ = []
    for u, m in log:
        if m.on:
            require(m.velocity == 1., '%s: velocity %s', what, m)
            open_.append((u, m))
        else:
            match = [x for x in open_ if x[1].pitch == m.pitch]
            require(match, '%s: note-off %s in buffer %d without note', what, m, u)
            start, on = match[0]
            require(m == on.silence(), '%s: note-off %s for %s', what, m, on)
            require(start + length - EPS <= u <= start + length + 1 + EPS, '%s: note %s from buffer %d ended in buffer %d, length is %.2f buffers', what, on, start, u, length)
            open_.remove(match[0])
    for start, on in open_:
        require(start + length + 1 + EPS >= nUpdates - 1, '%s: note %s from buffer %d was not ended until buffer %d, length is %.2f buffers', what, on, start, nUpdates, length)


def ons_of(log):
    return [(u, m.pitch) for u, m in log if m.on]


ALPHABET = (0, 60, 127, (60, 64, 1))
STEPS = (.4, .5, .75, 1., 1.3, 1.5, 2., 3.3)


def pattern_cases(tier):
    for n in range(1, 5 if tier == 'quick' else 6):
        for pattern in sequences(range(len(ALPHABET)), n):
            for step in STEPS + (() if tier == 'quick' else (.3, .9, 1.01, 5.)):
                if n * step >= 2.1:
                    yield [list(pattern), step]


def pattern_run(case, ctx):
    idx, step = case
    pattern = [ALPHABET[i] for i in idx]
    nUpdates = int(5 * step * len(pattern)) + 2
    seqr = Sequencer([pattern], tempo=tempo_for(step))
    rec = Recorder(seqr.outputs[0])
    run(seqr, [rec], nUpdates)
    k = check_steps(case, ons_of(rec.log), pattern, step, nUpdates)
    check_pairs(case, rec.log, .5 * step, nUpdates)
    ctx.state(str(case))
    ctx.step(nUpdates)
    ctx.trace()
    ctx.outcome(str(ons_of(rec.log)), k)


def length_cases(tier):
    for n in (1, 2, 3, 4, 5, 7, 8, 12, 16, 32, 64):
        for step in (.05, .1, .125, .25, 1 / 3, .5, 2 / 3, .99, 1., 1.01, 1.25, 2., 2.5, 7.3, 10.):
            if n * step >= 2.1:
                for kind in ('list', 'tuple', 'array', 'flat', 'flatarray') + (('chords', 'flatchords') if 1 < n <= 12 else ()):
                    yield [n, step, kind]


def length_run(case, ctx):
    """Long patterns, many steps per buffer, all ways of giving a pattern."""
    n, step, kind = case
    pattern = [1 + (7 * i) % 120 for i in range(n)]
    if kind.endswith('chords'):  # Flat patterns start with a single note
        pattern = [p if i % 2 == 0 else [p, (p + 4) % 128] if i % 4 == 1 else (p, (p + 3) % 128, (p + 9) % 128) for i, p in enumerate(pattern)]
    arg = {'chords': [pattern], 'flatchords': pattern, 'list': [pattern], 'tuple': (tuple(pattern),), 'flat': pattern}.get(kind)
    if arg is None:
        arg = np.array([pattern] if kind == 'array' else pattern)
    nUpdates = int(4 * step * n) + 2
    seqr = Sequencer(arg, tempo=tempo_for(step), absNoteLength=2.5 * INTERVAL)
    require(len(seqr.outputs) == 1, '%s: %d outputs', case, len(seqr.outputs))
    rec = Recorder(seqr.outputs[0])
    run(seqr, [rec], nUpdates)
    check_steps(case, ons_of(rec.log), pattern, step, nUpdates)
    check_pairs(case, rec.log, 2.5, nUpdates)
    ctx.state(str(case))
    ctx.step(nUpdates)
    ctx.trace()
    ctx.outcome(n, step)


def tempo_cases(tier):
    for tempo in (30, 60, 95, 120, 133.3, 240, 600):
        for beatValue in (QUARTER_NOTE, EIGHT_NOTE, HALF_NOTE, DOTTED_QUARTER_NOTE):
            for grid in (SIXTEENTH_NOTE, EIGHT_NOTE, QUARTER_NOTE, Fraction(1, 12)):
                for length in (['rel', .1], ['rel', .5], ['rel', 1.], ['rel', 2.5], ['abs', 0.], ['abs', .03], ['abs', .2], None):
                    yield [tempo, str(beatValue), str(grid), length]


def tempo_run(case, ctx):
    """Real tempi, grids, beat values and note lengths."""
    tempo, beatValue, grid, length = case
    beatValue, grid = Fraction(beatValue), Fraction(grid)
    pattern = [60, 0, 62]
    stepTime = float(grid / beatValue) * 60. / tempo
    step = stepTime / INTERVAL
    nUpdates = min(int(3.3 * step * len(pattern)) + 2, 2500)
    kwargs = {} if length is None else {'relNoteLength': length[1]} if length[0] == 'rel' else {'absNoteLength': length[1]}
    seqr = Sequencer([pattern], tempo=tempo, beatValue=beatValue, grid=grid, **kwargs)
    rec = Recorder(seqr.outputs[0])
    run(seqr, [rec], nUpdates, start=11.)
    check_steps(case, ons_of(rec.log), pattern, step, nUpdates)
    noteLength = {None: .5 * step}.get(None if length is None else 1, 0)
    if length is not None:
        noteLength = length[1] * step if length[0] == 'rel' else length[1] / INTERVAL
    check_pairs(case, rec.log, noteLength, nUpdates)
    ctx.state(str(case))
    ctx.step(nUpdates)
    ctx.trace()
    ctx.outcome(stepTime, noteLength)


CHANNELS = ([60, 62, 64], [70, 0], [80], [0, 0, 90, 91, 92], [50, (51, 52), 0, 53])


def channel_cases(tier):
    for n in range(1, 4 if tier == 'quick' else 5):
        for rows in itertools.product(range(len(CHANNELS)), repeat=n):
            for split in (True, False):
                for later in range(0, n):
                    for step in (1., 2.3):
                        yield [list(rows), split, later, step]


def channel_run(case, ctx):
    """Channels given at once or added later (with a tempo of their own), split or merged."""
    rows, split, later, step = case
    patterns = [[p + i if not isinstance(p, tuple) and p else p for p in CHANNELS[r]] for i, r in enumerate(rows)]
    first = len(patterns) - later
    seqr = Sequencer(patterns[:first], tempo=tempo_for(step), splitOutputs=split) if split is False else Sequencer(patterns[:first], tempo=tempo_for(step))
    steps = [step] * first
    for i, row in enumerate(patterns[first:]):
        own = step * (2 + i) / 2
        seqr.add_new_channel(row, tempo=tempo_for(own))
        steps.append(own)
    patterns = [p if len(p) * s >= 2.1 else p for p, s in zip(patterns, steps)]
    require(len(seqr.outputs) == (len(rows) if split else 1), '%s: %d outputs', case, len(seqr.outputs))
    require(seqr.nChannels == len(rows), '%s: %d channels', case, seqr.nChannels)
    recs = [Recorder(out) for out in seqr.outputs]
    nUpdates = 40
    run(seqr, recs, nUpdates)
    # What each channel plays alone
    alone = []
    for i, (pattern, s) in enumerate(zip(patterns, steps)):
        one = Sequencer([pattern], tempo=tempo_for(s))
        rec = Recorder(one.outputs[0])
        run(one, [rec], nUpdates)
        if len(pattern) * s >= 2.1:
            check_steps((case, 'channel', i), ons_of(rec.log), pattern, s, nUpdates)
        check_pairs((case, 'channel', i), rec.log, .5 * s, nUpdates)
        alone.append(rec.log)
    if split:
        for i, rec in enumerate(recs):
            require(rec.log == alone[i], '%s: output %d plays %s, alone it plays %s', case, i, rec.log[:6], alone[i][:6])
    else:
        for u in range(nUpdates):
            got = [m for v, m in recs[0].log if v == u]
            want = [[m for v, m in log if v == u] for log in alone]
            require(sorted(got) == sorted(m for w in want for m in w), '%s: buffer %d merges %s into %s', case, u, want, got)
            for w in want:
                it = iter(got)
                require(all(m in it for m in w), '%s: buffer %d reorders %s to %s', case, u, w, got)
    ctx.state(str(case))
    ctx.step(nUpdates)
    ctx.trace()
    ctx.outcome(split, str(alone))


# Micro rhythm

RHYTHMS = {
    'triplet': ([Fraction(1, 4), Fraction(1, 8)], 1., QUARTER_NOTE),
    'reversed': ([Fraction(1, 8), Fraction(1, 4)], 1., QUARTER_NOTE),
    'soft': ([Fraction(1, 4), Fraction(1, 16), Fraction(1, 8)], .6, HALF_NOTE),
    'straight': ([Fraction(1, 4), Fraction(1, 8)], 0., QUARTER_NOTE),
    'whole': ([Fraction(1, 4), Fraction(1, 8), Fraction(1, 8)], 1., WHOLE_NOTE),
    'even': ([Fraction(1, 8)] * 4, 1., QUARTER_NOTE),
}


def rhythm(name):
    notes, phrasing, beatValue = RHYTHMS[name]
    return MicroRhyhtm(notes, phrasing=phrasing, beatValue=beatValue)


def warped(name, x, phrasing=None):
    """Reference warp of the cycle position x in [0, 1)."""
    notes, phr, beatValue = RHYTHMS[name]
    phr = phr if phrasing is None else phrasing
    n = 1 // beatValue
    beat = int(n * x + 1e-9)
    r = max(0., n * x - beat)
    total = float(sum(notes))
    acc = 0.
    for i, note in enumerate(notes):
        d = float(note) / total
        if r <= acc + d or i == len(notes) - 1:
            y = (i + (r - acc) / d) / len(notes)
            break
        acc += d
    return (1. - phr) * x + phr * (beat + y) / n


def check_cycles(what, ons, n, cycle, nUpdates):
    """Steps in order, every step once per cycle, inside of its cycle (in buffers)."""
    for j, (u, pitch) in enumerate(ons):
        c, k = divmod(j, n)
        require(pitch == 60 + k, '%s: note %d is step %d instead of %d: %s', what, j, pitch - 60, k, ons[max(0, j - 4):j + 3])
        require(c * cycle - EPS <= u <= (c + 1) * cycle + 2 + EPS, '%s: step %d of cycle %d plays in buffer %d, a cycle has %s buffers', what, k, c, u, cycle)
    full = int((nUpdates - 3) / cycle)
    require(len(ons) >= full * n, '%s: only %d steps in %d cycles: %s', what, len(ons), full, ons)


def micro_cases(tier):
    for name in RHYTHMS:
        for n in (1, 2, 3, 4, 5, 8):
            for step in (1.5, 2.) if tier == 'quick' else (1.25, 1.5, 2., 3.7):
                if n * step < 8:
                    step = (7 + step) / n
                span = int(2 * n * step) + 2
                for i in range(0, span):
                    yield [name, n, step, i]


def micro_run(case, ctx):
    """Apply in buffer i, remove (or replace) in any later buffer; four cycles."""
    name, n, step, i = case
    cycle = n * step
    nUpdates = int(4 * cycle) + 3
    pattern = [60 + k for k in range(n)]
    for j in list(range(i, int(2 * cycle) + 4)) + [None]:
        for again in (None, 'other', 'same'):
            if again and (j is None or (i + (j or 0)) % 3 and ctx.tier == 'quick'):
                continue
            seqr = Sequencer([pattern, [100]], tempo=tempo_for(step))
            recs = [Recorder(out) for out in seqr.outputs]
            mr = rhythm(name)

            def hook(u):
                if u == i:
                    seqr.apply_micro_rhythm(mr, 0)
                if u == j:
                    if again is None:
                        seqr.reset_micro_rhythm(0)
                    elif again == 'same':
                        seqr.apply_micro_rhythm(mr, 0)
                    else:
                        seqr.apply_micro_rhythm(rhythm('reversed'), 0)
            run(seqr, recs, nUpdates, hook)
            check_cycles((case, j, again), ons_of(recs[0].log), n, cycle, nUpdates)
            check_pairs((case, j, again), recs[0].log, .5 * step, nUpdates)
            ons1 = [u for u, m in recs[1].log if m.on]
            require(len(ons1) >= int((nUpdates - 2) / step) and all(-EPS <= u - k * step <= 1 + EPS for k, u in enumerate(ons1)) or step < 2, '%s: other channel disturbed: %s', (case, j, again), ons1)
            ctx.step(nUpdates)
            ctx.trace()
    ctx.state(str(case))
    ctx.outcome(name, n, str(ons_of(recs[0].log)))


def shared_cases(tier):
    for name in RHYTHMS:
        for n, step in ((4, 2.), (5, 2.)) if tier == 'quick' else ((4, 2.), (5, 2.), (8, 1.5), (3, 3.)):
            for i in range(int(2 * n * step)):
                yield [name, n, step, i]


def shared_run(case, ctx):
    """A micro rhythm in use by another sequence is refused; both sequences play on. Free again it can be moved."""
    name, n, step, i = case
    cycle = n * step
    nUpdates = int(5 * cycle) + 3
    pattern = [60 + k for k in range(n)]
    for first in (0, 1):
        for move in (None, i + 1, i + 2, int(i + cycle)):
            seqr = Sequencer([pattern, pattern], tempo=tempo_for(step))
            other = Sequencer([pattern], tempo=tempo_for(step))
            recs = [Recorder(out) for out in seqr.outputs + other.outputs]
            mr = rhythm(name)
            seqr.apply_micro_rhythm(mr, first)

            def hook(u):
                if u == i:
                    for target, channel in ((seqr, 1 - first), (other, 0)):
                        try:
                            target.apply_micro_rhythm(mr, channel)
                        except KlangError:
                            pass
                        else:
                            require(False, '%s: micro rhythm of another sequence accepted', case)
                if u == move:
                    seqr.reset_micro_rhythm(first)
                    seqr.apply_micro_rhythm(mr, 1 - first)
            both = Composite()
            both.execOrder = [seqr, other]
            run(both, recs, nUpdates, hook)
            for rec in recs:
                check_cycles((case, first, move), ons_of(rec.log), n, cycle, nUpdates)
            ons = [u for u, m in recs[2].log if m.on]
            require(all(-EPS <= u - k * step <= 1 + EPS for k, u in enumerate(ons)), '%s: the refusing sequence changed its timing: %s', case, ons)
            ctx.step(nUpdates)
            ctx.trace()
    ctx.state(str(case))
    ctx.outcome(str(ons_of(recs[0].log)))


def phrase_cases(tier):
    for name in RHYTHMS:
        for n in (5, 6, 8):
            for phrasings in itertools.product((0., .5, 1.), repeat=4 if tier == 'quick' else 6):
                yield [name, n, list(phrasings)]


def phrase_run(case, ctx):
    """Phrasing changes at any time: order and cycles stay."""
    name, n, phrasings = case
    step = 1.7
    cycle = n * step
    nUpdates = int(4 * cycle) + 3
    seqr = Sequencer([[60 + k for k in range(n)]], tempo=tempo_for(step))
    rec = Recorder(seqr.outputs[0])
    mr = rhythm(name)
    seqr.apply_micro_rhythm(mr, 0)

    def hook(u):
        mr.phrasing.set_value(phrasings[u * len(phrasings) // nUpdates] if n != 6 else phrasings[u % len(phrasings)])
    run(seqr, [rec], nUpdates, hook)
    check_cycles(case, ons_of(rec.log), n, cycle, nUpdates)
    ctx.state(str(case))
    ctx.step(nUpdates)
    ctx.trace()
    ctx.outcome(str(ons_of(rec.log)))


def groove_cases(tier):
    for name in RHYTHMS:
        for n in (1, 2, 3, 4, 6, 8, 16):
            for step in (2., 4.1, 8.):
                for phrasing in (0., .3, .5, 1.) if n * step >= 8 else ():
                    yield [name, n, step, phrasing]


def groove_run(case, ctx):
    """With a constant micro rhythm every step starts when the warped phase reaches it."""
    name, n, step, phrasing = case
    cycle = n * step
    nUpdates = int(3 * cycle) + 3
    seqr = Sequencer([[60 + k for k in range(n)]], tempo=tempo_for(step))
    rec = Recorder(seqr.outputs[0])
    mr = rhythm(name)
    mr.phrasing.set_value(phrasing)
    seqr.apply_micro_rhythm(mr, 0)
    run(seqr, [rec], nUpdates)
    ons = ons_of(rec.log)
    check_cycles(case, ons, n, cycle, nUpdates)
    for j, (u, _) in enumerate(ons):
        c, k = divmod(j, n)
        lo = next(x for x in range(int(c * cycle), int(c * cycle) + int(cycle) + 3)
                  if x / cycle - c >= 1 or x / cycle - c > -EPS and warped(name, max(0., x / cycle - c), phrasing) >= k / n - 1e-6)
        require(lo <= u <= lo + 2, '%s: step %d of cycle %d plays in buffer %d, expected %d', case, k, c, u, lo)
    ctx.state(str(case))
    ctx.step(nUpdates)
    ctx.trace()
    ctx.outcome(str(ons))


FAMILIES = [
    Family('patterns', pattern_cases, pattern_run,
           lambda t: 'all patterns of 1-%d steps over {rest, two pitches, chord} x step lengths of .4-3.3 buffers, 5 cycles' % (4 if t == 'quick' else 5)),
    Family('lengths', length_cases, length_run, 'patterns of 1-64 steps, .05-10 buffers per step, 7 ways of giving them'),
    Family('tempi', tempo_cases, tempo_run, 'tempi 30-600 x beat values x grids x relative / absolute note lengths'),
    Family('channels', channel_cases, channel_run, 'all assignments of 5 patterns to 1-3 (4) channels, some added later with their own tempo, split / merged'),
    Family('micro', micro_cases, micro_run, 'micro rhythm applied in every buffer and removed / replaced / applied again in every later buffer of two cycles'),
    Family('shared', shared_cases, shared_run, 'micro rhythms in use by another sequence, applied in every buffer of two cycles, moved later'),
    Family('phrasing', phrase_cases, phrase_run, 'all phrasing histories of 4 (6) values'),
    Family('groove', groove_cases, groove_run, 'constant micro rhythms: timing against the reference warp'),
]
ASSUMPTIONS = ['a buffer is shorter than half a cycle (an eighth with micro rhythm changes)', 'micro rhythms displace by less than a quarter of a cycle', 'a phase insert may delay a step by one more buffer']
