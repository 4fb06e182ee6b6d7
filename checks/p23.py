"""P23: pitch names, tunings, scales, chords and name lookup. Complete enumeration of the finite domains."""
import itertools
import pkgutil
import re

import numpy as np

from mc import Family, require
from klang.music.chords import CHORDS, find_chord, invert_chord
from klang.music.intervals import INTERVALS, find_interval
from klang.music.pitch import note_name_2_pitch, pitch_2_note_name
from klang.music.scales import (
    ALL_POSSIBLE_SCALES, KNOWN_SCALES, code_2_scale, find_scale, pitches_2_scale, scale_2_code, scale_2_pitches
)
from klang.music.tunings import EQUAL_TEMPERAMENT, TEMPERAMENTS, Temperament, cent_2_ratio, find_temperament, ratio_2_cent
from klang.util import find_item

NATURALS = {'C': 0, 'D': 2, 'E': 4, 'F': 5, 'G': 7, 'A': 9, 'B': 11}
SHARPS = ['C', 'C#', 'D', 'D#', 'E', 'F', 'F#', 'G', 'G#', 'A', 'A#', 'B']
SHIFTS = {'': 0, '#': 1, '##': 2, 'b': -1, 'bb': -2}
GRAMMAR = re.compile(r'([A-Ga-g])(#{0,2}|b{0,2})(-?[0-9]+)')


def rejected(func, *args):
    """ValueError raised."""
    try:
        result = func(*args)
    except ValueError:
        return True
    except Exception as err:  # pylint: disable=broad-except
        require(False, '%s%r raised %r instead of ValueError', getattr(func, '__name__', func), args, err)
    return result is None


def rows(name):
    """Independent reading of a data base."""
    text = pkgutil.get_data('klang.music', 'data/%s.csv' % name).decode()
    for line in text.splitlines():
        key, *values = line.split(',')
        yield key, values


# -- names ------------------------------------------------------------------------

def pitch_cases(tier):
    for p in range(128):
        yield [p]


def pitch_run(case, ctx):
    """Number -> name -> number; all enharmonic names of this pitch."""
    p, = case
    for kind in (int, np.int64, np.uint8):
        name = pitch_2_note_name(kind(p))
        require(name == SHARPS[p % 12] + str(p // 12 - 1), 'name of pitch %d is %r', p, name)
        require(note_name_2_pitch(name) == p, '%r -> %r', name, note_name_2_pitch(name))
    found = 0
    for letter, base in NATURALS.items():
        for accidental, shift in SHIFTS.items():
            for octave in range(-3, 12):
                if base + shift + 12 * (octave + 1) != p:
                    continue
                for text in (letter + accidental, letter.lower() + accidental):
                    got = note_name_2_pitch(text + str(octave))
                    require(got == p, '%r is pitch %r instead of %d', text + str(octave), got, p)
                    ctx.step()
                    found += 1
    require(found >= 4, 'harness: %d names', found)
    ctx.state(p, found)
    ctx.trace()
    ctx.outcome(p)


NAME_ALPHABET = 'CahH#b-14 x'


def name_cases(tier):
    for first in NAME_ALPHABET:
        for second in NAME_ALPHABET:
            yield [first + second]
    yield ['']


def name_run(case, ctx):
    """All strings over an alphabet: accepted exactly if well-formed."""
    prefix, = case
    for n in range(0, 5 if ctx.thorough else 4):
        for rest in itertools.product(NAME_ALPHABET, repeat=n if prefix else min(n, 1)):
            text = prefix + ''.join(rest)
            match = GRAMMAR.fullmatch(text)
            if match:
                letter, accidental, octave = match.groups()
                want = NATURALS[letter.upper()] + SHIFTS[accidental] + 12 * (int(octave) + 1)
                got = note_name_2_pitch(text)
                require(got == want, '%r is pitch %r instead of %d', text, got, want)
            else:
                require(rejected(note_name_2_pitch, text), '%r accepted', text)
            ctx.step()
            ctx.state(text)
    ctx.trace()
    ctx.outcome(prefix)


# -- tunings ----------------------------------------------------------------------

def tuning_cases(tier):
    for name in TEMPERAMENTS:
        yield ['known', name]
    for kammerton in (220., 415., 432., 435.23, 440., 466.):
        for i in range(6):
            yield ['custom', kammerton, i]


def tuning_run(case, ctx):
    """All pitches of a temperament."""
    if case[0] == 'known':
        t = TEMPERAMENTS[case[1]]
        kammerton = 440.
    else:
        _, kammerton, i = case
        cents = [100. * k + (37. * k * i) % 50 for k in range(12)]
        t = Temperament(cents, kammerton=kammerton)
        for k in range(12):
            ratio = t.pitch_2_frequency(60 + k) / t.pitch_2_frequency(60)
            require(abs(ratio_2_cent(ratio) - (cents[k] - cents[0])) < 1e-6, '%s: step %d', case, k)
    f = [float(t.pitch_2_frequency(p)) for p in range(128)]
    for p in range(128):
        require(np.isfinite(f[p]) and f[p] > 0, '%s: pitch %d at %r', case, p, f[p])
        require(p == 0 or f[p] > f[p - 1], '%s: pitch %d (%g) does not rise above %g', case, p, f[p], f[p - 1])
        require(p < 12 or abs(f[p] - 2 * f[p - 12]) < 1e-9 * f[p], '%s: octave up to pitch %d: %g -> %g', case, p, f[p - 12], f[p])
        for kind in (np.int64, np.int16):
            require(float(t.pitch_2_frequency(kind(p))) == f[p], '%s: pitch %r', case, kind(p))
        ctx.step()
        ctx.state(str(case), p)
    require(abs(f[69] - kammerton) < 1e-9 * kammerton, '%s: reference pitch at %g', case, f[69])
    many = np.asarray(t.pitch_2_frequency(np.arange(128)))
    require(many.shape == (128,) and np.allclose(many, f, rtol=1e-12), '%s: array of pitches', case)
    if case == ['known', 'Equal']:
        for p in range(128):
            want = 440. * 2. ** ((p - 69) / 12.)
            require(abs(f[p] - want) < 1e-9 * want, 'equal temperament: pitch %d at %g', p, f[p])
        require(EQUAL_TEMPERAMENT.pitch_2_frequency(69) == f[69], 'default')
    # Tuning of the data base
    for name, values in rows('tunings'):
        if case[0] == 'known' and case[1] == name.title().strip():
            cents = [float(v) for v in values]
            for k in range(12):
                got = ratio_2_cent(f[60 + k] / f[60])
                require(abs(got - (cents[k] - cents[0])) < 1e-6, '%s: step %d is %g cents', case, k, got)
    ctx.trace()
    ctx.outcome(str(case))


def cent_cases(tier):
    for block in range(-4, 4):
        yield [block]


def cent_run(case, ctx):
    """Cents and ratios are inverse."""
    block, = case
    for c in range(1200 * block, 1200 * (block + 1)):
        r = cent_2_ratio(c)
        require(abs(r - 2. ** (c / 1200.)) < 1e-12 * r, '%d cents -> %r', c, r)
        require(abs(ratio_2_cent(r) - c) < 1e-7, '%d cents -> %r -> %r', c, r, ratio_2_cent(r))
        ctx.step()
        ctx.state(c)
    for a in range(1, 40):
        for b in range(1, 40):
            r = a / b
            require(abs(cent_2_ratio(ratio_2_cent(r)) - r) < 1e-10 * r, 'ratio %g', r)
    x = np.array([0., 100., 702., 1200.])
    require(np.allclose(ratio_2_cent(cent_2_ratio(x)), x), 'array of cents')
    ctx.trace()
    ctx.outcome(block)


# -- scales -----------------------------------------------------------------------

def scale_cases(tier):
    for hi in range(64):
        yield [hi]


def scale_run(case, ctx):
    """64 of all 4096 pitch class sets."""
    hi, = case
    for code in range(64 * hi, 64 * (hi + 1)):
        pitches = [p for p in range(12) if code >> p & 1]
        if not pitches:
            continue
        root = pitches[0]
        relative = [p - root for p in pitches]
        intervals = [b - a for a, b in zip(pitches, pitches[1:] + [root + 12])]
        for scale in (pitches_2_scale(pitches), code_2_scale(code), ALL_POSSIBLE_SCALES[code], pitches_2_scale(pitches[::-1]),
                      pitches_2_scale([p + 12 * (i % 3) for i, p in enumerate(pitches)]), pitches_2_scale(np.array(pitches) - 24),
                      pitches_2_scale(pitches + [pitches[0] + 12])):
            require(list(scale) == intervals, 'scale of pitches %s is %s instead of %s', pitches, list(scale), intervals)
            require(sum(scale) == 12, 'scale %s', list(scale))
        for scale in (intervals, np.array(intervals), tuple(intervals)):
            require(sorted(scale_2_pitches(scale)) == relative, 'pitches of scale %s: %s', intervals, scale_2_pitches(scale))
            require(list(scale_2_pitches(scale)) == relative, 'order of pitches of scale %s: %s', intervals, scale_2_pitches(scale))
            require(list(pitches_2_scale(scale_2_pitches(scale))) == intervals, 'scale %s', intervals)
            require(scale_2_code(scale) == code >> root, 'code of scale %s is %d', intervals, scale_2_code(scale))
            require(list(code_2_scale(scale_2_code(scale))) == intervals, 'scale %s', intervals)
        ctx.step()
        ctx.state(code)
    require(len(ALL_POSSIBLE_SCALES) == 4096, '%d scales', len(ALL_POSSIBLE_SCALES))
    ctx.trace()
    ctx.outcome(hi)


# -- chords -----------------------------------------------------------------------

def chord_cases(tier):
    for name in CHORDS:
        yield ['known', name]
    for n in range(1, 6 if tier == 'quick' else 7):
        for low in range(-1, 4):
            yield ['all', n, low]


def chord_list(case):
    if case[0] == 'known':
        yield list(CHORDS[case[1]])
        return
    _, n, low = case
    top = 12 if n <= 4 else 9
    for rest in itertools.combinations(range(low + 1, low + top + 1), n - 1):
        yield [low, *rest]


def chord_run(case, ctx):
    """All inversions up and down."""
    for chord in chord_list(case):
        n = len(chord)
        for make in (list, tuple, np.array):
            given = make(chord)
            for k in range(-8, 9):
                inv = [int(x) for x in invert_chord(given, k)]
                require(list(given) == chord, 'chord %s modified', chord)
                require(sorted(x % 12 for x in inv) == sorted(x % 12 for x in chord), '%s inverted %d times is %s', chord, k, inv)
                back = [int(x) for x in invert_chord(inv, -k)]
                require(back == [int(x) for x in chord], '%s inverted %d times is %s and back %s', chord, k, inv, back)
                if case[0] == 'all' and chord[-1] - chord[0] < 12:
                    # The k lowest notes go up one octave (or the highest ones down)
                    want = [chord[(i + k) % n] + 12 * ((i + k) // n) for i in range(n)]
                    require(inv == want, '%s inverted %d times is %s instead of %s', chord, k, inv, want)
            ctx.step()
        ctx.state(str(chord))
    ctx.trace()
    ctx.outcome(str(case))


# -- lookup -----------------------------------------------------------------------

DATABASES = {
    'chords': (find_chord, CHORDS),
    'intervals': (find_interval, INTERVALS),
    'scales': (find_scale, KNOWN_SCALES),
    'temperaments': (find_temperament, TEMPERAMENTS),
}


def subsequence(name, key):
    """name is an abbreviation of key: begins like it, with characters left out."""
    it = iter(key)
    return name[0] == key[0] and all(c in it for c in name)


def equal(a, b):
    return a is b or (type(a) is type(b) and np.array_equal(a, b))


def exact_cases(tier):
    for db in DATABASES:
        yield [db]


def exact_run(case, ctx):
    """Every entry of a data base by its exact name, as stored in its file."""
    db, = case
    find, dct = DATABASES[db]
    for key in dct:
        item = find(key)
        want = dct[key] if db != 'scales' else ALL_POSSIBLE_SCALES[dct[key]]
        require(equal(item, want), '%s: %r gives %r', db, key, item)
        ctx.step()
        ctx.state(db, key)
    if db == 'temperaments':
        for name, _ in rows('tunings'):
            require(name.title().strip() in dct, 'temperament %r missing', name)
    else:
        last = {name: values for name, values in rows(db)}
        require(set(last) == set(dct), '%s: names', db)
        for name, values in last.items():
            got = find(name)
            if db == 'chords':
                require([int(x) for x in got] == [int(v) for v in values], 'chord %r is %s', name, got)
                require(0 <= got[0] < 12 and all(0 < b - a < 12 for a, b in zip(got, got[1:])), 'chord %r does not rise in steps of less than an octave: %s', name, list(got))
            elif db == 'scales':
                intervals = [int(v) for v in values]
                require(sum(got) == 12, 'scale %r is %s', name, got)
                require(list(got) == [v for v in intervals if v], 'scale %r is %s instead of %s', name, list(got), intervals)
            else:
                num, _, den = values[0].strip().partition('/')
                require(got * int(den or 1) == int(num), 'interval %r is %s', name, got)
            ctx.step()
    ctx.trace()
    ctx.outcome(db)


def lookup_cases(tier):
    for db in ('chords', 'scales', 'temperaments'):
        for i in range(len(DATABASES[db][1])):
            yield [db, i]
    for i in range(0, len(INTERVALS), 40 if tier == 'quick' else 4):
        yield ['intervals', i]


def check_lookup(find, dct, name, get):
    """find(name) against reference."""
    if name in dct:
        require(equal(find(name), get(name)), '%r is not the exact entry', name)
        return 'exact'
    candidates = [key for key in dct if subsequence(name, key)]
    if len(candidates) == 1:
        try:
            item = find(name)
        except ValueError as err:
            require(False, '%r is a unique completion of %r but: %s', candidates[0], name, err)
        require(equal(item, get(candidates[0])), '%r should give %r', name, candidates[0])
        return 'unique'
    require(rejected(find, name), '%r accepted (%d candidates)', name, len(candidates))
    return 'ambiguous' if candidates else 'unknown'


def lookup_run(case, ctx):
    """Prefixes, suffixes and misspellings of an entry."""
    db, i = case
    find, dct = DATABASES[db]
    key = list(dct)[i]
    names = set()
    if ctx.thorough and db != 'intervals':
        for n in range(1, len(key)):
            names.update((key[:n], key[-n:]))
        names.update((key + 'q', 'q' + key, key.upper() + 'Q'))
    names.update((key[:3], key[:2 * len(key) // 3], key[:1] + key[len(key) // 2:], key[:-1] + '~', key[1:], key[:-1]))
    for name in sorted(n for n in names if n):
        outcome = check_lookup(find, dct, name, lambda k: dct[k] if db != 'scales' else ALL_POSSIBLE_SCALES[dct[k]])
        ctx.step()
        ctx.state(db, name)
        ctx.outcome(db, outcome)
    ctx.trace()


WORDS = [''.join(w) for n in (1, 2, 3) for w in itertools.product('ab', repeat=n)]


def small_cases(tier):
    for i in range(len(WORDS)):
        yield [i]


def small_run(case, ctx):
    """All dictionaries with up to three keys over a small alphabet, all queries."""
    first = WORDS[case[0]]
    for n in (0, 1, 2) if not ctx.thorough else (0, 1, 2, 3):
        for rest in itertools.combinations(WORDS[case[0] + 1:], n):
            dct = {key: object() for key in (first,) + rest}
            for query in WORDS + ['c', 'ac', 'abab']:
                ctx.outcome(check_lookup(lambda name: find_item(dct, name), dct, query, lambda k: dct[k]))
                ctx.step()
            ctx.state(first, rest)
            ctx.trace()


FAMILIES = [
    Family('pitches', pitch_cases, pitch_run, '128 pitches and all their enharmonic names with up to two accidentals'),
    Family('names', name_cases, name_run, lambda tier: 'all strings over 11 characters up to length %d' % (5 if tier == 'quick' else 6)),
    Family('tunings', tuning_cases, tuning_run, '128 pitches in all temperaments and 36 custom ones'),
    Family('cents', cent_cases, cent_run, '9600 cents, 1521 ratios'),
    Family('scales', scale_cases, scale_run, 'all 4095 non-empty pitch class sets, in several spellings'),
    Family('chords', chord_cases, chord_run, 'all data base chords, all chords with up to 5 (6) notes within an octave, -8..8 inversions'),
    Family('entries', exact_cases, exact_run, 'every entry of the chord, interval, scale and temperament data bases'),
    Family('lookup', lookup_cases, lookup_run, 'prefixes, suffixes and misspellings of data base entries', timeout=600.),
    Family('smallLookup', small_cases, small_run, lambda tier: 'all dictionaries of up to %d words over {a, b}, 17 queries each' % (3 if tier == 'quick' else 4)),
]
ASSUMPTIONS = [
    'a completion is what find_item means by it: an entry with the same first character which contains the remaining ones in order',
    'the random temperament is the one drawn when klang is imported',
]
