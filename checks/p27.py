"""P27: written rhythms: the printed sheet music is parsed back and compared with the notes it was made from."""
import itertools
import re
from fractions import Fraction

from mc import Family, require
from klang.music.metre import create_metre
from klang.music.note_formatting import format_notes, format_time_signature, format_tuplet
from klang.music.note_values import Tuplet

Q, E, S, H, W = Fraction(1, 4), Fraction(1, 8), Fraction(1, 16), Fraction(1, 2), Fraction(1)
DQ, DE, DH, DW = Fraction(3, 8), Fraction(3, 16), Fraction(3, 4), Fraction(3, 2)
FILLED, HOLLOW, STEM, BAR, DOT = '●', '○', '│', '│', '.'
FLAGS = {0: '│', 1: '┌┬┐', 2: '╒╤╕'}
BEAMS = '─═┌┬┐╒╤╕'
GROUPS = [  # metre or grouping, its groups
    ('4/4', [Q, Q, Q, Q]),
    ('3/4', [Q, Q, Q]),
    ('2/4', [Q, Q]),
    ('6/8', [DQ, DQ]),
    ('9/8', [DQ, DQ, DQ]),
    ('3+2', [DQ, Q]),
    ('2+2+3', [Q, Q, DQ]),
    ('2+3', [Q, DQ]),
    ('4+4', [H, H]),
    ('6+2', [DH, Q]),
]
METRES = {'4/4': (4, 4), '3/4': (3, 4), '2/4': (2, 4), '6/8': (6, 8), '9/8': (9, 8)}


def beams(note):
    """Number of beams of a written note."""
    base = note if note.numerator == 1 else note / Fraction(3, 2)
    return {E: 1, S: 2, Fraction(1, 32): 3}.get(base, 0)


def heads_of(text):
    """Rows from bottom, positions of the note heads."""
    rows = text.split('\n')
    cols = [i for i, char in enumerate(rows[-1]) if char in FILLED + HOLLOW]
    return rows, cols


def check_heads(rows, cols, notes, what):
    """Heads, dots, stems and flags of every note."""
    require(len(cols) == len(notes), '%s: %d note heads for %d notes:\n%s', what, len(cols), len(notes), '\n'.join(rows))
    page = '\n'.join(rows)
    for col, note in zip(cols, notes):
        head = rows[-1][col]
        require(head == (HOLLOW if note >= H else FILLED), '%s: note %s has head %s:\n%s', what, note, head, page)
        require((rows[-1][col + 1:col + 2] == DOT) == (note.numerator == 3), '%s: wrong dot at note %s:\n%s', what, note, page)
        stem = rows[-2][col + 1:col + 2]
        require((stem == STEM) == (note < W), '%s: note %s has stem %r:\n%s', what, note, stem, page)
        top = rows[-3][col + 1:col + 2]
        if note < W:
            require(top and top in FLAGS[beams(note)], '%s: note %s has %r on top:\n%s', what, note, top, page)
        else:
            require(top not in ('│', *BEAMS), '%s: note %s has %r on top:\n%s', what, note, top, page)


def check_joins(rows, cols, notes, groups, what, bars=True):
    """Bar lines and beams between the notes."""
    page = '\n'.join(rows)
    metre = sum(groups)
    ends = list(itertools.accumulate(groups))
    start = Fraction(0)
    for col, note in zip(cols, notes):
        if start % metre + note >= next(e for e in ends if e > start % metre):
            require(rows[-3][col + 2:col + 3].strip() == '', '%s: beam goes on behind the end of a group:\n%s', what, page)
        start += note
    start = Fraction(0)
    require(BAR not in rows[-1][:cols[0]] and BAR not in rows[-1][cols[-1]:], '%s: bar line at an end:\n%s', what, page)
    for i, (a, b) in enumerate(zip(cols, cols[1:])):
        nextStart = start + notes[i]
        crossed = int(nextStart / metre) - int(start / metre) if bars else 0
        for row in (-1, -2):
            have = rows[row][a + 2:b].count(BAR)
            require(have == crossed, '%s: %d bar lines instead of %d before note %d:\n%s', what, have, crossed, i + 1, page)
        inBar = start % metre
        groupEnd = next(e for e in ends if e > inBar)
        joined = beams(notes[i]) and beams(notes[i + 1]) and inBar + notes[i] < groupEnd
        between = rows[-3][a + 2:b + 1]
        require(bool(joined) == (between != '' and all(c in '─═' for c in between)), '%s: notes %d and %d are %s:\n%s', what, i, i + 1,
                'not joined by a beam' if joined else 'joined by a beam', page)
        if not joined and crossed == 0 and not (beams(notes[i]) or beams(notes[i + 1])):
            require(between.strip() == '', '%s: %r between notes %d and %d:\n%s', what, between, i, i + 1, page)
        nextInBar = nextStart % metre
        goesOn = i + 2 < len(notes) and beams(notes[i + 1]) and beams(notes[i + 2]) and nextInBar + notes[i + 1] < next(e for e in ends if e > nextInBar)
        if not joined and crossed == 0 and goesOn:
            require(between.strip() == '', '%s: beam from note %d to the first note of a group:\n%s', what, i, page)
        start = nextStart


def signature(groups, name):
    """Numerator and denominator as written."""
    den = max(g.denominator for g in groups)
    nums = [g.numerator * den // g.denominator for g in groups]
    if name in METRES:
        return [str(x) for x in METRES[name]]
    total = sum(nums)
    if total % 2 and total % 3:
        return ['+'.join(map(str, nums)), str(den)]
    return [str(total), str(den)]


def check_signature(rows, width, want, what):
    """The time signature in front."""
    page = '\n'.join(rows)
    got = [row[:width].strip() for row in rows[-3:]]
    require(got[0] == want[0] and got[2] == want[1], '%s: time signature reads %s instead of %s:\n%s', what, got, want, page)
    require(set(got[1]) == {'-'} and len(got[1]) == max(map(len, want)), '%s: time signature reads %s:\n%s', what, got, page)
    for row in rows[:-3]:
        require(row[:width].strip() == '', '%s: text above the time signature:\n%s', what, page)


def render(notes, name, groups, **kwargs):
    """Format with either the metre or the grouping."""
    if name in METRES:
        return format_notes(list(notes), metre=create_metre(*METRES[name]), **kwargs)
    return format_notes(list(notes), grouping=list(groups), **kwargs)


def check_page(notes, name, groups, stretch, sign, what):
    """One line of sheet music without tuplets."""
    text = render(notes, name, groups, strech=stretch, timeSignature=sign)
    rows, cols = heads_of(text)
    require(len(rows) == 3 and len({len(r) for r in rows}) == 1, '%s: lines of %s characters:\n%s', what, [len(r) for r in rows], text)
    check_heads(rows, cols, notes, what)
    check_joins(rows, cols, notes, groups, what)
    if sign:
        check_signature(rows, cols[0], signature(groups, name), what)
    else:
        require(cols[0] <= 1 and not any(c.isdigit() for c in text), '%s: time signature not left out:\n%s', what, text)
    # The longer a note, the more room it has
    room = []
    for i, (a, b) in enumerate(zip(cols, cols[1:] + [len(rows[-1])])):
        if BAR not in rows[-1][a:b]:
            room.append((notes[i], b - a))
    for (n1, r1), (n2, r2) in itertools.combinations(room, 2):
        if n1 == n2 or not stretch:
            require(r1 == r2, '%s: equal notes with %d and %d columns:\n%s', what, r1, r2, text)
        elif abs(n1 - n2) >= min(notes):
            require((r1 < r2) == (n1 < n2), '%s: notes %s and %s have %d and %d columns:\n%s', what, n1, n2, r1, r2, text)
    return text


def page_cases(tier):
    depth = 4 if tier == 'quick' else 5
    for gi in range(len(GROUPS)):
        for n in range(1, depth + 1):
            if n < 3:
                yield [gi, n, -1]
            else:
                for first in range(9):
                    yield [gi, n, first]


ALPHABET = [S, E, Q, H, DE, DQ, DH, W, Fraction(3, 32)]


def page_run(case, ctx):
    """All sequences of so many notes."""
    gi, n, first = case
    name, groups = GROUPS[gi]
    for tail in itertools.product(ALPHABET, repeat=n if first < 0 else n - 1):
        notes = list(tail) if first < 0 else [ALPHABET[first]] + list(tail)
        if min(notes) < S:
            continue
        what = '%s %s' % (name, [str(x) for x in notes])
        kept = list(notes)
        for stretch, sign in ((True, True), (False, False)) if n < 4 else ((len(set(notes)) % 2 == 0, notes[0] >= Q),):
            text = check_page(notes, name, groups, stretch, sign, what)
            ctx.outcome(text)
            ctx.step()
        require(notes == kept, '%s: the notes changed', what)
        ctx.state(gi, tuple(notes))
        ctx.trace()


def bar_cases(tier):
    for gi in range(len(GROUPS)):
        for ni in range(len(ALPHABET)):
            yield [gi, ni]


def bar_run(case, ctx):
    """Several bars of equal notes, shifted by a leading note."""
    gi, ni = case
    name, groups = GROUPS[gi]
    if ALPHABET[ni] < S:
        return
    for lead in [[]] + [[x] for x in ALPHABET if x >= S]:
        for count in (5, 8, 16, 24) + ((48,) if ctx.thorough else ()):
            notes = lead + count * [ALPHABET[ni]]
            what = '%s %s + %d * %s' % (name, [str(x) for x in lead], count, ALPHABET[ni])
            for stretch in (True, False):
                ctx.outcome(check_page(notes, name, groups, stretch, True, what))
                ctx.step()
            ctx.state(gi, ni, str(lead), count)
            ctx.trace()


# Tuplets

PARTS = [[E, E, E], [Q, Q, Q], [E, Q], [S, S, S, S, S], [H, H, H], [Q, E, E, Q, E]]


def flat(notes):
    """Single written notes."""
    for note in notes:
        if isinstance(note, Tuplet):
            yield from flat(note.notes)
        else:
            yield note


def tuplet_cases(tier):
    for i in range(len(PARTS) + 2):
        yield [i]


def tuplet_run(case, ctx):
    """Tuplets between other notes, nested, alone."""
    i, = case
    nums = ((3, None), (5, None), (7, 4), (3, 4), (6, 4))
    for num, den in nums:
        kwargs = {} if den is None else {'den': den}
        if i < len(PARTS):
            tup = Tuplet(num, list(PARTS[i]), **kwargs)
        else:
            tup = Tuplet(num, [Tuplet(3, [E, E, E]), PARTS[i - len(PARTS)][0], Tuplet(5, 5 * [S])], **kwargs)
        label = '%d:%d' % (num, num - 1 if den is None else den)
        for before in itertools.chain([()], ((a,) for a in (Q, E, DH))):
            for after in ((), (Q,), (E, E), (tup,)):
                notes = list(before) + [tup] + list(after)
                if min(notes) < S:
                    continue
                what = 'tuplet %s %s after %s before %s' % (label, [str(x) for x in flat([tup])], [str(x) for x in before], [str(x) for x in after])
                text = format_notes(notes)
                rows, cols = heads_of(text)
                require(len({len(r) for r in rows}) == 1, '%s: lines of %s characters:\n%s', what, [len(r) for r in rows], text)
                written = list(flat(notes))
                check_heads(rows, cols, written, what)
                copies = sum(1 for x in notes if isinstance(x, Tuplet))
                have = sum(len(re.findall(r'(?<!\d)%s(?!\d)' % label, row)) for row in rows[:-3])
                inner = i >= len(PARTS) and label in ('3:2', '5:4')
                require(have == copies * (2 if inner else 1), '%s: %d labels %s:\n%s', what, have, label, text)
                check_signature(rows, cols[0], ['4', '4'], what)
                ctx.step()
                ctx.outcome(text)
        if i < len(PARTS):
            text = format_tuplet(tup)
            rows, cols = heads_of(text)
            check_heads(rows, cols, PARTS[i], 'tuplet alone')
            require(len({len(r) for r in rows}) == 1 and label in rows[0], 'tuplet %s alone:\n%s', label, text)
            plain = format_tuplet(tup, explicit=False).split('\n')
            short = str(num) if label == '%d:%d' % (num, num - 1) else label
            require(re.findall(r'[0-9:]+', plain[0]) == [short] and plain[1:] == rows[1:], 'tuplet %s alone, short label:\n%s', label, '\n'.join(plain))
            require(rows[0][0] == '┌' and rows[0][-1] == '┐', 'tuplet %s alone:\n%s', label, text)
        ctx.state(i, num, den)
        ctx.trace()


# Time signatures

def signature_cases(tier):
    for n in range(1, 5 if tier == 'quick' else 6):
        yield [n]


def signature_run(case, ctx):
    """All groupings of so many groups, and metres."""
    n, = case
    for groups in itertools.product([Fraction(1, 8), Q, DQ, H, Fraction(1, 16), Fraction(3, 16)], repeat=n):
        rows = format_time_signature(list(groups)).split('\n')
        require(len(rows) == 3 and len({len(r) for r in rows}) == 1, 'time signature of %s:\n%s', groups, '\n'.join(rows))
        check_signature(rows, len(rows[0]), signature(groups, ''), 'grouping %s' % [str(x) for x in groups])
        ctx.step()
        ctx.state(groups)
        ctx.outcome(tuple(rows))
    for num in range(1, 17):
        for den in (1, 2, 4, 8, 16):
            rows = format_time_signature(create_metre(num, den)).split('\n') if num % 2 == 0 or num % 3 == 0 else None
            if rows is not None:
                check_signature(rows, len(rows[0]), [str(num), str(den)], 'metre %d/%d' % (num, den))
                ctx.step()
    for notes in itertools.product([Fraction(1, 32), Fraction(1, 64), Fraction(1, 24), E, Q], repeat=n):
        if min(notes) >= S:
            continue
        try:
            format_notes(list(notes))
        except ValueError:
            ctx.step()
        else:
            require(False, 'notes below a sixteenth are not rejected: %s', [str(x) for x in notes])
    ctx.trace()


FAMILIES = [
    Family('pages', page_cases, page_run, lambda tier: 'all sequences of up to %d out of 8 note values in 10 metres and groupings' % (4 if tier == 'quick' else 5)),
    Family('bars', bar_cases, bar_run, 'several bars of equal notes, shifted by one leading note'),
    Family('tuplets', tuplet_cases, tuplet_run, '8 tuplets x 5 ratios between other notes, nested, alone'),
    Family('signatures', signature_cases, signature_run, lambda tier: 'all groupings of up to %d groups, metres 1..16; notes too short' % (4 if tier == 'quick' else 5)),
]
ASSUMPTIONS = [
    'plain and single dotted notes from a sixteenth to a whole note; metres with a default grouping, or explicit groupings',
]
