"""P24: rhythm and tempo arithmetic against exact integer and rational references over whole finite domains."""
import itertools
from fractions import Fraction

import numpy as np

from mc import Family, require
from klang import primes
from klang.constants import TAU
from klang.music import note_values, tempo as tempo_module
from klang.music.metre import create_metre, default_beat_value, number_of_beats
from klang.music.note_values import Tuplet, dedot_note, dot_note
from klang.music.rhythm import MicroRhyhtm, euclidian_rhythm
from klang.primes import find_next_prime, find_next_primes, is_prime, sieve_of_sundaram


def close(a, b, tol=1e-12):
    return abs(a - b) <= tol * max(1., abs(b))


# Euclidean rhythms

def euclid_cases(tier):
    for n in range(1, 33 if tier == 'quick' else 65):
        yield [n]


def euclid_run(case, ctx):
    """Exactly k onsets, and all windows of the same length hold the same number of onsets, give or take one."""
    n, = case
    for k in range(n + 1):
        pattern = [int(x) for x in euclidian_rhythm(k, n)]
        require(len(pattern) == n, 'E(%d, %d) has %d steps', k, n, len(pattern))
        require(set(pattern) <= {0, 1} and sum(pattern) == k, 'E(%d, %d) is %s', k, n, pattern)
        acc = [0] + list(itertools.accumulate(pattern + pattern))
        for m in range(1, n + 1):
            counts = {acc[i + m] - acc[i] for i in range(n)}
            require(max(counts) - min(counts) <= 1, 'E(%d, %d) is uneven: %s', k, n, pattern)
            ctx.step()
        ctx.state(k, n)
        ctx.outcome(tuple(pattern))
    ctx.trace()


# Note values

NOTES = {
    'LARGE': 8, 'LONG': 4, 'DOUBLE_WHOLE': 2, 'WHOLE': 1, 'HALF': Fraction(1, 2), 'QUARTER': Fraction(1, 4), 'EIGHT': Fraction(1, 8),
    'SIXTEENTH': Fraction(1, 16), 'THIRTY_SECOND': Fraction(1, 32), 'SIXTY_FOURTH': Fraction(1, 64), 'HUNDRED_TWENTY': Fraction(1, 128),
    'TWO_HUNDRED_FIFTY_SIXTH': Fraction(1, 256),
}
DOTS = ['', 'DOTTED_', 'DOUBLE_DOTTED_', 'TRIPLE_DOTTED_']


def dotted(note, n):
    """Note plus n times the next briefer one."""
    return sum((Fraction(note) / 2 ** i for i in range(n + 1)), Fraction(0))


def note_cases(tier):
    for name in NOTES:
        yield [name]


def note_run(case, ctx):
    name, = case
    plain = Fraction(NOTES[name])
    for n, prefix in enumerate(DOTS):
        value = getattr(note_values, '%s%s_NOTE' % (prefix, name))
        require(value == dotted(plain, n), '%s%s_NOTE is %s', prefix, name, value)
        for d in range(13 if ctx.thorough else 9):
            require(dot_note(value, d) == dotted(value, d), '%s with %d dots is %s', value, d, dot_note(value, d))
            require(dedot_note(dot_note(value, d), d) == value, '%s with %d dots added and removed', value, d)
            require(dot_note(dedot_note(value, d), d) == value, '%s with %d dots removed and added', value, d)
            require(dot_note(value, -d) == dedot_note(value, d) and dedot_note(value, -d) == dot_note(value, d), '%s: %d negative dots', value, d)
            ctx.step()
            ctx.state(name, n, d)
    ctx.trace()
    ctx.outcome(name)


TUPLET_NOTES = [Fraction(1, 2), Fraction(1, 4), Fraction(1, 8), Fraction(3, 8), Fraction(1, 16)]


def tuplet_cases(tier):
    for num in range(1, 14):
        yield [num]


def tuplet_run(case, ctx):
    """num notes in the time of den."""
    num, = case
    for den in [None] + list(range(1, 14)):
        d = num - 1 if den is None else den
        args = () if den is None else (den,)
        for notes in [[note] * num for note in TUPLET_NOTES] + [list(c) for c in itertools.product(TUPLET_NOTES[1:4], repeat=3)]:
            t = Tuplet(num, notes, *args)
            require(t == sum(notes) * d / num and isinstance(t, Fraction), 'Tuplet(%d, %s, %s) lasts %s', num, notes, den, t)
            require(list(t.notes) == notes and t.num == num and t.den == d, 'Tuplet(%d, %s, %s) holds %d:%d', num, notes, den, t.num, t.den)
            if len(set(notes)) == 1 and len(notes) == num:
                require(t == d * notes[0], 'Tuplet(%d, %s, %s) does not fill %d notes: %s', num, notes, den, d, t)
            if d:
                nested = Tuplet(3, [t, t, t], 2)
                require(nested == 2 * (sum(notes) * d / num), 'nested tuplet lasts %s', nested)
            ctx.step()
        ctx.state(num, d)
    ctx.trace()
    ctx.outcome(num)


# Tempo

TEMPI = [1, 20, 33.3, 60, 77, 90.5, 100, 120, 180, 240, 999, Fraction(121, 2)]
BEATS = [None, Fraction(1, 1), Fraction(1, 2), Fraction(1, 4), Fraction(3, 8), Fraction(1, 8), Fraction(1, 16), Fraction(2, 1)]
NUMERATORS = list(range(1, 17))
DENOMINATORS = [1, 2, 4, 8, 16, 5]


def reference_beat(num, den):
    """Beat value of a metre, as documented: three units in compound, two in complex, one in simple metres."""
    if num >= 6 and num % 3 == 0:
        return Fraction(3, den)
    if num % 2 and num % 3:
        return Fraction(2, den)
    return Fraction(1, den)


def tempo_cases(tier):
    for den in DENOMINATORS:
        for num in NUMERATORS:
            yield [num, den]


def tempo_run(case, ctx):
    num, den = case
    metre = create_metre(num, den)
    beat0 = reference_beat(num, den)
    require((metre.numerator, metre.denominator) == (num, den), 'metre %d/%d is %s', num, den, metre)
    got = default_beat_value(metre)
    require(Fraction(got.numerator, got.denominator) == beat0, 'default beat of %d/%d is %s', num, den, got)
    for beat, bpm in itertools.product(BEATS, TEMPI):
        value = beat or beat0
        kwargs = {} if beat is None else {'beatValue': beat}
        period = Fraction(60) / Fraction(bpm)
        bar = Fraction(num, den) / value * period
        beats = number_of_beats(metre, **kwargs)
        require(Fraction(num, den) / value == Fraction(beats.numerator, beats.denominator), '%d/%d has %s beats of %s', num, den, beats, value)
        require(close(tempo_module.tempo_2_frequency(bpm) * period, 1.), 'beat frequency at %s bpm', bpm)
        require(close(tempo_module.tempo_2_period(bpm), period), 'beat period at %s bpm', bpm)
        got = tempo_module.bar_period(bpm, metre, **kwargs)
        require(close(got, bar), 'bar period of %d/%d at %s bpm for beat %s: %s', num, den, bpm, value, got)
        got = tempo_module.angular_velocity(bpm, metre, **kwargs)
        require(close(got * bar / TAU, 1.), 'angular velocity of %d/%d at %s bpm for beat %s: %s', num, den, bpm, value, got)
        for note in (Fraction(1, 1), Fraction(1, 4), Fraction(3, 16), Fraction(1, 256), Tuplet(3, 3 * [Fraction(1, 8)])):
            want = Fraction(note.numerator, note.denominator) / value * period
            for f in (tempo_module.note_duration, tempo_module.compute_duration):
                got = f(note, bpm, metre, **kwargs)
                require(close(got / want, 1.), '%s of %s in %d/%d at %s bpm, beat %s: %s', f.__name__, note, num, den, bpm, value, got)
            got = tempo_module.compute_rate(note, bpm, metre, **kwargs)
            require(close(got * want, 1.), 'rate of %s in %d/%d at %s bpm, beat %s: %s', note, num, den, bpm, value, got)
            ctx.step()
        for plain in (.25, 3., 440.):
            require(tempo_module.compute_duration(plain, bpm, metre, **kwargs) == plain, 'duration %s depends on tempo', plain)
            require(tempo_module.compute_rate(plain, bpm, metre, **kwargs) == plain, 'frequency %s depends on tempo', plain)
        ctx.state(num, den, str(beat), str(bpm))
    ctx.trace()
    ctx.outcome(num, den)


# Primes

def reference_primes(limit):
    flags = bytearray([1]) * (limit + 1)
    flags[:2] = b'\0\0'
    for i in range(2, int(limit ** .5) + 1):
        if flags[i]:
            flags[i * i::i] = bytes(len(range(i * i, limit + 1, i)))
    return flags


LIMIT = 460000
FLAGS = reference_primes(LIMIT)
PRIMES = [i for i in range(LIMIT) if FLAGS[i]]
NEXT = [0] * (LIMIT + 1)
_n = 0
for _i in range(LIMIT, -1, -1):
    if FLAGS[_i]:
        _n = _i
    NEXT[_i] = _n
CACHE = list(primes.PRIMES)
EDGE = CACHE[-1]


def next_primes(n, start):
    out = []
    p = max(start, 0)
    for _ in range(n):
        p = NEXT[p]
        out.append(p)
        p += 1
    return out


def prime_cases(tier):
    chunk = 20000
    for start in range(-chunk, 220000 if tier == 'quick' else LIMIT - chunk, chunk):
        yield ['range', start, start + chunk]
    yield ['range', EDGE - 2000, EDGE + 4000]
    for limit in range(0, 3000 if tier == 'quick' else 12000, 500):
        yield ['sieve', limit, limit + 500]
    yield ['sieve', LIMIT - 2, LIMIT]


def prime_run(case, ctx):
    """Primality, next primes and sieve for every integer of a range."""
    kind, start, end = case
    primes.PRIMES = list(CACHE)
    if kind == 'sieve':
        for limit in range(start, end):
            got = list(sieve_of_sundaram(limit))
            want = list(itertools.takewhile(lambda p: p <= limit, PRIMES))
            require(got == want, 'primes up to %d: %s', limit, got[-5:])
            ctx.step()
            ctx.state(limit)
    else:
        for i in range(start, end):
            require(bool(is_prime(i)) == (i > 0 and bool(FLAGS[i])), 'is_prime(%d) is %s', i, is_prime(i))
            require(find_next_prime(i) == NEXT[max(i, 0)], 'next prime from %d is %d', i, find_next_prime(i))
            ctx.step()
            ctx.state(i)
        for i in range(start, end, 1 if end - start < 10000 else 37):
            for n in (0, 1, 2, 5):
                require(find_next_primes(n, i) == next_primes(n, i), '%d primes from %d: %s', n, i, find_next_primes(n, i))
    ctx.trace()
    ctx.outcome(kind, start)


QUERIES = [-3, 1, 2, 4, 7, 8, 12, 14, 23, 24, 31, 90]


def history_cases(tier):
    for first in QUERIES:
        yield ['small', first]
        yield ['edge', first]


def history_run(case, ctx):
    """Prime searches do not depend on the ones before: all histories of queries around the end of the known primes."""
    kind, first = case
    base, offset = ([2, 3, 5, 7], 0) if kind == 'small' else (CACHE, EDGE - 7)
    depth = 3 if ctx.thorough else 2
    for rest in itertools.product(QUERIES, repeat=depth):
        primes.PRIMES = list(base)
        for q in (first,) + rest:
            start = q + offset
            for n in (1, 3):
                got = find_next_primes(n, start)
                require(got == next_primes(n, start), '%d primes from %d after %s: %s', n, start, (first,) + rest, got)
            ctx.step()
        ctx.state(kind, first, rest)
        ctx.trace()
    primes.PRIMES = list(CACHE)
    ctx.outcome(kind, first)


# Micro rhythms

MICRO_NOTES = [Fraction(1, 2), Fraction(1, 4), Fraction(1, 8), Fraction(3, 16), Tuplet(3, 3 * [Fraction(1, 8)])]
MICRO_BEATS = [Fraction(2, 1), Fraction(1, 1), Fraction(3, 4), Fraction(1, 2), Fraction(3, 8), Fraction(1, 4), Fraction(3, 16), Fraction(1, 8), Fraction(1, 16)]
PHRASINGS = [0., .25, .5, .9, 1.]


def micro_patterns(tier):
    for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        yield from itertools.product(range(len(MICRO_NOTES)), repeat=n)


def micro_cases(tier):
    for pattern in micro_patterns(tier):
        yield list(pattern)


def reference_warp(notes, phrasing, n, x):
    """Exact warp of cycle position x in [0, 1): note starts go to equal steps of each of the n repetitions."""
    total = sum(notes)
    k, r = divmod(n * x, 1)
    acc = Fraction(0)
    for i, note in enumerate(notes):
        d = Fraction(note.numerator, note.denominator) / total
        if r <= acc + d:
            y = (i + (r - acc) / d) / len(notes)
            break
        acc += d
    return (1 - Fraction(phrasing)) * x + Fraction(phrasing) * (k + y) / n


def micro_run(case, ctx):
    notes = [MICRO_NOTES[i] for i in case]
    positions = [Fraction(i, 48) for i in range(48)]
    for beat in MICRO_BEATS:
        n = max(1, int(1 // beat))
        for phrasing in PHRASINGS:
            mr = MicroRhyhtm(notes, phrasing=phrasing, beatValue=beat)
            for how in ('update', 'input', 'warp'):
                if how == 'input':
                    mr = MicroRhyhtm(notes, beatValue=beat)
                    mr.inputs[1].set_value(phrasing)
                previous = -1e-9
                for x in positions:
                    for cycle in (0, 1, -1, 3):
                        phase = float((x + cycle) * 1) * TAU
                        if how == 'warp':
                            y = mr.warp(phase)
                        else:
                            mr.input.set_value(phase)
                            mr.update()
                            y = mr.output.value
                        want = float(reference_warp(notes, phrasing, n, x)) * TAU
                        off = abs(float(y) - want) % TAU
                        require(min(off, TAU - off) <= 1e-9, '%s, beat %s, phrasing %s: %.9f + %d cycles goes to %.9f cycles instead of %.9f',
                                list(map(str, notes)), beat, phrasing, x, cycle, y / TAU, want / TAU)
                        if cycle == 0:
                            require(-1e-9 <= y <= TAU + 1e-9, '%s: %.9f leaves the cycle: %.9f', notes, phase, y)
                            if x:
                                require(y >= previous - 1e-9, '%s: runs backwards at %s', notes, x)
                            else:
                                require(min(abs(y), abs(TAU - y)) <= 1e-9, '%s: start moves to %s', notes, y)
                            previous = float(y)
                        ctx.step()
                    if how != 'update' and beat not in (Fraction(2), Fraction(1, 4)):
                        break
                last = np.nextafter(TAU, 0.)
                y = float(mr.warp(last))
                require(min(abs(y), abs(TAU - y)) <= 1e-6, '%s, phrasing %s: end moves to %s', notes, phrasing, y)
            ctx.state(tuple(case), str(beat), phrasing)
    ctx.trace()
    ctx.outcome(tuple(case))


FAMILIES = [
    Family('euclid', euclid_cases, euclid_run, lambda tier: 'all k onsets in n steps, n <= %d, all windows' % (32 if tier == 'quick' else 64)),
    Family('notes', note_cases, note_run, lambda tier: 'all 48 note values, up to %d dots added or removed' % (8 if tier == 'quick' else 12)),
    Family('tuplets', tuplet_cases, tuplet_run, 'all ratios up to 13:13 for equal notes and all triples of three notes, also nested'),
    Family('tempo', tempo_cases, tempo_run, 'metres 1..16 over 1, 2, 4, 8, 16, 5; 12 tempi, 8 beat values, 5 notes'),
    Family('primes', prime_cases, prime_run, lambda tier: 'every integer from -20000 to %d and around the end of the precomputed primes, sieves for every limit up to %d' % ((220000, 3000) if tier == 'quick' else (LIMIT, 12000))),
    Family('primeHistory', history_cases, history_run, lambda tier: 'all histories of %d out of 12 searches around the end of the known primes' % (3 if tier == 'quick' else 4)),
    Family('micro', micro_cases, micro_run, lambda tier: 'all patterns of up to %d out of 5 notes, 9 beat values, 5 phrasings, 48 phases in 4 cycles' % (3 if tier == 'quick' else 4)),
]
ASSUMPTIONS = [
    'micro rhythms interpolate linearly (the default kind)',
    'tempo conversions are exact up to floating point rounding (1e-12); note values are exact',
]
