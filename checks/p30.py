"""P30: mathematical, metre, graph, text and progress helpers against independent references over whole finite domains."""
import contextlib
import fractions
import io
import itertools
import json
import math
import os
import random
import re

import numpy as np

from mc import Family, require
from klang import math as kmath
from klang.graph import (
    active_edges, find_back_edges, get_predecessors, get_sinks, get_sources, get_successors, graph_matrix, remove_back_edges,
    topological_sorting,
)
from klang.music import metre as metres
from klang.plotting import fraction_ticks, nice_plotting_shape
from klang.progress_bar import ProgressBar
from klang.sequencer import random_pattern
from klang.util import levenshtein, load_music_data_from_csv, parse_music_data_from_csv, parse_value

Fraction = fractions.Fraction
PI = math.pi


def close(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(1., abs(a), abs(b))


def raises(func, *args):
    try:
        func(*args)
    except Exception:  # Which one is left open
        return True
    return False


# Numbers

def number_cases(tier):
    yield ['wrap']
    for low in range(-4, 5):
        yield ['clip', low]
    yield ['integers']
    yield ['blend']
    for a in (-3., -1., 0., .5, 2., 440.):
        yield ['linear', a]


def number_run(case, ctx):
    kind = case[0]
    if kind == 'wrap':
        sixteenths = range(-16 * 200, 16 * 200 + 1) if ctx.thorough else range(-16 * 40, 16 * 40 + 1)
        values = []
        for k in sixteenths:
            for eps in (0., 1e-3, -1e-3):
                phase = k * PI / 16. + eps
                got = kmath.wrap(phase)
                values.append(phase)
                require(-PI - 1e-12 <= got <= PI + 1e-12, 'wrap(%r) is %r', phase, got)
                turns = (phase - got) / (2. * PI)
                require(abs(turns - round(turns)) < 1e-9, 'wrap(%r) is %r, another angle', phase, got)
                if k % 16 == 0 and k % 32 and eps == 0. and abs(k) < 64:
                    require(abs(abs(got) - PI) < 1e-9, 'wrap(%r) is %r', phase, got)
                if abs(phase) < PI - 1e-4:
                    require(close(got, phase, 1e-12), 'wrap(%r) changes it to %r', phase, got)
                ctx.step()
                ctx.state('wrap', k, eps)
                ctx.outcome(round(got, 3))
        require(kmath.wrap(PI) == -PI, 'wrap(pi) is %r', kmath.wrap(PI))
        require(kmath.wrap(-PI) == -PI, 'wrap(-pi) is %r', kmath.wrap(-PI))
        before = np.array(values)
        array = before.copy()
        got = kmath.wrap(array)
        require(np.array_equal(array, before), 'wrap changes its input')
        require(np.allclose(np.exp(1j * got), np.exp(1j * before), atol=1e-8) and np.max(np.abs(got)) <= PI + 1e-12, 'wrap differs for arrays')
    elif kind == 'clip':
        low = case[1]
        for high in range(low, 6):
            for value in [x / 2. for x in range(-14, 15)] + [-math.inf, math.inf]:
                got = kmath.clip(value, low, high)
                want = low if value < low else high if value > high else value
                require(got == want, 'clip(%r, %r, %r) is %r', value, low, high, got)
                require(kmath.clip(value, lower=low, upper=high) == want, 'clip(%r, %r, %r) by keyword differs', value, low, high)
                ctx.step()
                ctx.state('clip', low, high, value)
                ctx.outcome(want)
    elif kind == 'integers':
        powers = {2 ** k for k in range(80)}
        limit = 70000 if ctx.thorough else 5000
        for n in itertools.chain(range(-300, limit), sorted(powers), [p + 1 for p in powers], [p - 1 for p in powers]):
            require(bool(kmath.is_power_of_two(n)) == (n in powers), 'is_power_of_two(%d) is %r', n, kmath.is_power_of_two(n))
            ctx.state('power', n)
            ctx.step()
        for number in (.5, 1.5, 2.5):
            require(not kmath.is_power_of_two(number), 'is_power_of_two(%r)', number)
        for a in range(-24, 25):
            for b in range(1, 25):
                frac = Fraction(a, b)
                require(bool(kmath.is_dyadic(frac)) == (frac.denominator in powers), 'is_dyadic(%s) is %r', frac, kmath.is_dyadic(frac))
                require(bool(kmath.is_divisible(a, b)) == (math.fmod(a, b) == 0.), 'is_divisible(%d, %d) is %r', a, b, kmath.is_divisible(a, b))
                for sgn in (1, -1):
                    if a:
                        got = kmath.lcm(a, sgn * b)
                        want = next(m for m in range(1, abs(a) * b + 1) if not m % abs(a) and not m % b)
                        require(got == want, 'lcm(%d, %d) is %r', a, sgn * b, got)
                ctx.state('pair', a, b)
                ctx.step()
                ctx.outcome(frac.denominator in powers, a % b == 0)
        for n in (-1e9, -3, -.5, .5, 2, 1e9):
            require(kmath.sign(n) == (1. if n > 0 else -1.), 'sign(%r) is %r', n, kmath.sign(n))
        require(abs(kmath.sign(0)) == 1. and abs(kmath.sign(0.)) == 1., 'sign(0) is %r', kmath.sign(0))
    elif kind == 'blend':
        a, b = np.array([0., 1., -2., .5]), np.array([4., 1., 2., -.25])
        before = a.copy(), b.copy()
        for k in range(-8, 25):
            x = k / 16.
            got = kmath.blend(a, b, x)
            want = [float((1 - Fraction(k, 16)) * Fraction(u) + Fraction(k, 16) * Fraction(v)) for u, v in zip(a, b)]
            require(np.allclose(got, want, atol=1e-12), 'blend(%s, %s, %r) is %s', a, b, x, got)
            for u, v, w in zip(a, b, want):
                require(close(kmath.blend(u, v, x), w, 1e-12), 'blend(%r, %r, %r)', u, v, x)
            require(np.array_equal(a, before[0]) and np.array_equal(b, before[1]), 'blend changes its input')
            ctx.step()
            ctx.state('blend', k)
            ctx.outcome(k)
    else:
        xmin = case[1]
        for xmax, ymin, ymax in itertools.product((-2., -.5, 0., 1., 3., 1000.), (-1., 0., .25, 7.), (-1., 0., .5, 9., 1e4)):
            if xmax == xmin:
                continue
            slope, offset = kmath.linear_mapping((xmin, xmax), (ymin, ymax))
            scale = max(1., abs(ymin), abs(ymax))
            require(abs(slope * xmin + offset - ymin) < 1e-8 * scale and abs(slope * xmax + offset - ymax) < 1e-8 * scale,
                    'linear mapping from %s to %s is %r, %r', (xmin, xmax), (ymin, ymax), slope, offset)
            ctx.step()
            ctx.state('linear', xmin, xmax, ymin, ymax)
            ctx.outcome(round(float(slope), 6))
    ctx.trace()


DTYPES = ['float64', 'float32', 'int8', 'int16', 'int32', 'int64']


def normalize_cases(tier):
    for dtype in DTYPES:
        for n in range(1, 4 if tier == 'quick' else 5):
            yield [dtype, n]


def normalize_run(case, ctx):
    """Largest magnitude 1, all proportions and signs kept."""
    name, n = case
    dtype = np.dtype(name)
    if dtype.kind == 'i':
        info = np.iinfo(dtype)
        values = [0, 1, -1, info.max, info.min, info.min + 1, info.max // 2]
    else:
        values = [0., 1., -1., 1e-6, -1e6, .3, -.25]
    for combo in itertools.product(values, repeat=n):
        for shape in ((n,), (n, 1)):
            array = np.array(combo, dtype=dtype).reshape(shape)
            before = array.copy()
            if not any(combo):
                require(raises(kmath.normalize_values, array), 'silence %s can be normalized', array)
                continue
            got = np.asarray(kmath.normalize_values(array))
            exact = [Fraction(x) for x in before.ravel().tolist()]
            peak = max(abs(x) for x in exact)
            want = np.array([float(x / peak) for x in exact]).reshape(shape)
            require(got.shape == shape and np.allclose(got, want, rtol=1e-5, atol=1e-7), '%s %s normalized is %s', name, before.tolist(), got.tolist())
            require(np.array_equal(array, before), 'normalizing changes its input')
        ctx.step()
        ctx.state(name, combo)
        ctx.outcome(tuple(np.sign(combo)))
    ctx.trace()


# Metres

def metre_cases(tier):
    for numerator in range(2, 25 if tier == 'quick' else 65):
        yield [numerator]


def metre_run(case, ctx):
    n, = case
    for d in range(1, 65):
        metre = metres.create_metre(n, d)
        require(metre.numerator == n and metre.denominator == d, 'metre %d/%d is %s', n, d, metre)
        dyadic = d in (1, 2, 4, 8, 16, 32, 64)
        compound = n in range(6, 1000, 3)
        complex_ = n % 2 == 1 and n % 3 > 0
        require(bool(metres.is_irrational(metre)) != dyadic, '%d/%d irrational: %r', n, d, metres.is_irrational(metre))
        require(bool(metres.is_compound(metre)) == compound, '%d/%d compound: %r', n, d, metres.is_compound(metre))
        require(bool(metres.is_complex(metre)) == complex_, '%d/%d complex: %r', n, d, metres.is_complex(metre))
        require(bool(metres.is_simple(metre)) == (n in (2, 3, 4)), '%d/%d simple: %r', n, d, metres.is_simple(metre))
        require(not metres.is_fractional(metre), '%d/%d fractional', n, d)
        beat = metres.default_beat_value(metre)
        want = Fraction(3, d) if compound else Fraction(2, d) if complex_ else Fraction(1, d)
        require(beat.numerator * want.denominator == beat.denominator * want.numerator, 'beat of %d/%d is %s', n, d, beat)
        beats = metres.number_of_beats(metre)
        require(beats.numerator * want.numerator * d == beats.denominator * want.denominator * n, '%d/%d has %s beats', n, d, beats)
        for m in (Fraction(1, 4), Fraction(1, 8), Fraction(3, 8)):
            beats = metres.number_of_beats(metre, m)
            require(Fraction(beats.numerator, beats.denominator) == Fraction(n, d) / m, '%d/%d has %s beats of %s', n, d, beats, m)
        ctx.step()
        ctx.state(n, d)
        ctx.outcome(dyadic, compound, complex_)
    ctx.trace()


# Graphs

def reachable(adj, src):
    """All nodes behind at least one edge from src."""
    seen, todo = set(), list(adj[src])
    while todo:
        node = todo.pop()
        if node not in seen:
            seen.add(node)
            todo.extend(adj[node])
    return seen


def check_graph(n, edges, ctx):
    edges = sorted(set(edges))
    adj = {i: {b for a, b in edges if a == i} for i in range(n)}
    graph = np.zeros((n, n), dtype=int)
    for a, b in edges:
        graph[a, b] = 1
    before = graph.copy()
    if edges:
        require(np.array_equal(graph_matrix(edges, order=n), graph), 'matrix of %s', edges)
        require(np.array_equal(graph_matrix(edges, directed=False, order=n), ((graph + graph.T) > 0).astype(int)), 'undirected matrix of %s', edges)
        used = max(max(e) for e in edges) + 1
        require(np.array_equal(graph_matrix(edges), graph[:used, :used]), 'matrix of %s without order', edges)
    require(sorted(map(int, get_sources(graph))) == [i for i in range(n) if all(b != i for _, b in edges)], 'sources of %s', edges)
    require(sorted(map(int, get_sinks(graph))) == [i for i in range(n) if not adj[i]], 'sinks of %s', edges)
    for i in range(n):
        require(sorted(map(int, get_successors(graph, i))) == sorted(adj[i]), 'successors of %d in %s', i, edges)
        require(sorted(map(int, active_edges(graph, i))) == sorted(adj[i]), 'active edges of %d in %s', i, edges)
        require(sorted(map(int, get_predecessors(graph, i))) == sorted(a for a, b in edges if b == i), 'predecessors of %d in %s', i, edges)

    back = [(int(a), int(b)) for a, b in find_back_edges(graph)]
    require(set(back) <= set(edges), 'back edges %s not in %s', back, edges)
    for a, b in back:
        require(a == b or a in reachable(adj, b), 'back edge %s of %s is on no cycle', (a, b), edges)
    kept = [e for e in edges if e not in back]
    rest = {i: {b for a, b in kept if a == i} for i in range(n)}
    require(all(i not in reachable(rest, i) for i in range(n)), '%s without back edges %s still has a cycle', edges, back)
    dag = np.asarray(remove_back_edges(graph))
    require(sorted((int(a), int(b)) for a, b in zip(*dag.nonzero())) == kept, 'DAG of %s is %s', edges, dag.tolist())
    order = [int(i) for i in topological_sorting(graph)]
    require(sorted(order) == list(range(n)), 'order of %s is %s', edges, order)
    # Which edges are ignored has to break cycles only
    place = {node: i for i, node in enumerate(order)}
    for a, b in edges:
        if place[a] >= place[b]:
            require(a == b or a in reachable(adj, b), 'order %s of %s ignores edge %s', order, edges, (a, b))
    require(all(place[a] < place[b] for a, b in kept), 'order %s of %s ignores edges', order, edges)
    require(np.array_equal(graph, before), 'graph %s changed', edges)
    ctx.step()
    ctx.state(n, tuple(edges))
    ctx.outcome(len(back), tuple(order))


def graph_cases(tier):
    for n in (1, 2, 3):
        yield ['loops', n, 0, 1]
    parts = 16
    for part in range(parts):
        yield ['simple', 4, part, parts]
        yield ['dags', 5, part, parts]
        if tier != 'quick':
            yield ['loops', 4, part, parts]
    if tier != 'quick':
        for part in range(256):
            yield ['simple', 5, part, 256]


def graph_run(case, ctx):
    kind, n, part, parts = case
    nodes = range(n)
    if kind == 'loops':
        pairs = list(itertools.product(nodes, nodes))
    else:
        pairs = list(itertools.permutations(nodes, 2))
    if kind == 'dags':
        # All orientations along one order, all labelings (quick: every fifth)
        pairs = list(itertools.combinations(nodes, 2))
        labelings = list(itertools.permutations(nodes))[::1 if ctx.thorough else 12]
        for mask in range(part, 1 << len(pairs), parts):
            for labels in labelings:
                check_graph(n, [(labels[a], labels[b]) for k, (a, b) in enumerate(pairs) if mask >> k & 1], ctx)
    else:
        for mask in range(part, 1 << len(pairs), parts):
            check_graph(n, [pair for k, pair in enumerate(pairs) if mask >> k & 1], ctx)
    ctx.trace()


# Words

def word_cases(tier):
    letters = 'abc' if tier == 'quick' else 'abcd'
    for n in range(1, 5):
        for first in itertools.product(letters, repeat=min(n, 2)):
            yield [letters, n, ''.join(first)]


def distance(first, second, cache={}):
    if not first or not second:
        return len(first) + len(second)
    key = first, second
    if key not in cache:
        cache[key] = min(distance(first[1:], second) + 1, distance(first, second[1:]) + 1, distance(first[1:], second[1:]) + (first[0] != second[0]))
    return cache[key]


def word_run(case, ctx):
    letters, n, head = case
    for rest in itertools.product(letters, repeat=n - len(head)):
        a = head + ''.join(rest)
        for m in range(1, 5 if ctx.thorough else 4):
            for b in map(''.join, itertools.product(letters, repeat=m)):
                want = distance(a, b)
                got = levenshtein(a, b)
                require(got == want, 'edit distance of %r and %r is %r, not %d', a, b, got, want)
                ctx.step()
        ctx.state(a)
    ctx.outcome(n)
    ctx.trace()


# Music data

FIELDS = ['0', '12', '-3', '2.5', '3/2', '1/1', 'abc', 'a b', '1e3', '']
SEPS = [',', ';', '\t']


def csv_cases(tier):
    for sep in range(len(SEPS)):
        for n in range(1, 4 if tier == 'quick' else 5):
            yield [sep, n]


def field_value(text):
    if re.fullmatch(r'-?\d+', text):
        return int(text)
    if re.fullmatch(r'-?\d+(\.\d+)?(e\d+)?', text):
        return float(text)
    return text


def csv_run(case, ctx):
    sep, n = SEPS[case[0]], case[1]
    for fields in itertools.product(FIELDS, repeat=n):
        want = [field_value(f) for f in fields]
        for f, w in zip(fields, want):
            got = parse_value(f)
            require(got == w and isinstance(got, type(w)), 'value %r is %r', f, got)
        text = sep.join(('first',) + fields) + '\n' + sep.join(['second one', '7']) + '\n'
        expected = {'first': want, 'second one': [7]}
        for data in (text, text.encode(), text[:-1]):
            got = parse_music_data_from_csv(data, sep)
            require(got == expected and list(got) == list(expected), '%r is parsed to %r', data, got)
        ctx.step()
        ctx.state(sep, fields)
        ctx.outcome(tuple(map(str, want)))
    path = os.path.join(os.environ['VERIF_SCRATCH'], 'p30_%d.csv' % os.getpid())
    with open(path, 'w') as f:
        f.write('a,1,2\nb,3,4,5\nc,6,7,8,9\n'.replace(',', sep))
    want = {'a': [1, 2], 'b': [3, 4, 5], 'c': [6, 7, 8, 9]}
    require(load_music_data_from_csv(path, sep) == want, 'file is loaded as %r', load_music_data_from_csv(path, sep))
    if sep == ',':
        require(load_music_data_from_csv(path) == want, 'file is loaded as %r', load_music_data_from_csv(path))
        require(parse_music_data_from_csv('x,1') == {'x': [1]}, 'default separator')
    require(parse_music_data_from_csv('') == {}, 'nothing is parsed to something')
    from klang.scraping import print_dict_2_csv
    numbers = [-3, 0, 7, 12, 2.5]
    for k in range(1, 4):
        for values in itertools.product(numbers, repeat=k):
            data = {'major': list(values), 'b 2': [n], 'a minor': list(values[::-1])}
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                print_dict_2_csv(data, sep)
            require(parse_music_data_from_csv(out.getvalue(), sep) == data, '%r is printed as %r', data, out.getvalue())
            ctx.step()
    os.remove(path)
    ctx.trace()


# Progress

def progress_cases(tier):
    for length in list(range(0, 13)) + [50, 333]:
        for width in (1, 2, 7, 20, 40):
            yield [length, width, '']
        yield [length, 20, 'Bouncing']


def progress_run(case, ctx):
    """A scripted clock: the k-th step starts after k seconds."""
    length, width, prefix = case

    class Bar(ProgressBar):
        stream = io.StringIO()
        now = 100.

        @staticmethod
        def clock():
            return Bar.now

    kwargs = dict(width=width)
    if prefix:
        kwargs['prefix'] = prefix
    numbers = []
    for i in Bar.range(length, **kwargs):
        numbers.append(i)
        Bar.now += 1.
        ctx.step()
    require(numbers == list(range(length)), 'range of %d is %s', length, numbers)
    text = Bar.stream.getvalue()
    if length == 0:
        require('*' not in text, 'progress without steps: %r', text)
        return
    require(text.count('\n') == 1 and text.endswith('\n'), 'output of %d steps has %d lines', length, text.count('\n'))
    frames = [frame for frame in text.split('\r') if '[' in frame and ']' in frame and re.search(r'\[[* ]*\]', frame)]
    require(len(frames) == length, '%d steps are shown %d times', length, len(frames))
    previous = -1
    for i, frame in enumerate(frames):
        bar = re.search(r'\[([* ]*)\]', frame).group(1)
        stars = bar.count('*')
        require(len(bar) == width, 'bar %r is not %d wide', bar, width)
        require(bar == '*' * stars + ' ' * (width - stars), 'bar %r has gaps', bar)
        require(stars >= previous, 'bar goes back from %d to %d', previous, stars)
        if length > 1:
            exact = Fraction(i, length - 1) * width
            require(abs(stars - exact) <= 1, '%d of %d: %d stars of %d', i, length, stars, width)
            require((stars == width) or i < length - 1, 'bar is not full in the end: %r', bar)
            require(i > 0 or stars == 0, 'bar is not empty at the start: %r', bar)
        if prefix:
            require(prefix in frame, 'no prefix in %r', frame)
        found = re.search(r'(-?[\d.]+|inf) sec', frame)
        require(found, 'no remaining time in %r', frame)
        remaining = float(found.group(1))
        if i > 0:
            require(abs(remaining - (length - 1 - i)) < .01, '%d of %d: %s seconds remain', i, length, remaining)
        else:
            require(remaining > 0., 'at the start: %s seconds remain', remaining)
        previous = stars
        ctx.state(length, width, i)
        ctx.outcome(stars)
    bar = Bar(length, **kwargs)
    for i in range(length):
        require(bool(bar.is_at_end(i)) == (i == length - 1), 'end of %d at %d', length, i)
    ctx.trace()


# Plots

def plot_cases(tier):
    yield ['shape', 1500 if tier == 'quick' else 20000]
    for base in (1., .5, 2. * PI):
        yield ['ticks', base]


def label_value(label, symbol):
    """Value of a tick label in units of the base."""
    require(label.startswith('$') and label.endswith('$'), 'label %r', label)
    body = label[1:-1]
    if body == '0':
        return Fraction(0)
    if body == symbol:
        return Fraction(1)
    found = re.fullmatch(r'\\frac\{(.+)\}\{(\d+)\}(.*)', body)
    require(found, 'label %r', label)
    top, bottom, behind = found.groups()
    if top == symbol:
        require(not behind, 'label %r', label)
        return Fraction(1, int(bottom))
    require(behind == symbol, 'label %r', label)
    return Fraction(int(top), int(bottom))


def plot_run(case, ctx):
    if case[0] == 'shape':
        for n in range(1, case[1]):
            rows, cols = nice_plotting_shape(n)
            require(rows * cols >= n and rows >= 1 and rows == int(rows) and cols == int(cols), '%d plots in %d x %d', n, rows, cols)
            require((rows - 1) * cols < n and rows * (cols - 1) < n, '%d plots in %d x %d: empty row or column', n, rows, cols)
            require(abs(rows - cols) <= 2, '%d plots in %d x %d', n, rows, cols)
            ctx.step()
            ctx.state('shape', n)
            ctx.outcome(rows, cols)
    else:
        base = case[1]
        values = sorted({Fraction(a, b) for b in range(1, 11) for a in range(-3 * b, 3 * b + 1)})
        labels = fraction_ticks([float(v) * base for v in values], base, 'x')
        require(len(labels) == len(values), '%d labels for %d ticks', len(labels), len(values))
        for label, value in zip(labels, values):
            require(label_value(label, 'x') == value, 'tick %s is labeled %r', value, label)
            ctx.step()
            ctx.state('tick', base, str(value))
            ctx.outcome(label)
    ctx.trace()


# Tables of web pages

DIGITS = '0123456789te'
MAJOR = (0, 2, 4, 5, 7, 9, 11)
ACCIDENTALS = {'': 0, '♯': 1, '♭': -1}


def table_cases(tier):
    for n in range(1, 4 if tier == 'quick' else 5):
        for part in range(4):
            yield ['chords', n, part]
    for part in range(8):
        yield ['scales', 7, part]
    yield ['names', 0, 0]


def page(caption, rows):
    """Page with several tables. The one with the caption holds the rows."""
    def table(title, lines):
        body = ''.join('<tr>%s</tr>' % ''.join('<td>%s</td>' % cell for cell in line) for line in lines)
        return '<table>%s<tbody><tr><th>Head</th></tr>%s</tbody></table>' % ('<caption>%s\n</caption>' % title if title else '', body)

    import bs4
    text = '<html><body>%s%s%s</body></html>' % (table('', [['x'] * 4]), table('Other', [['y'] * 5]), table(caption, rows))
    return bs4.BeautifulSoup(text, 'html.parser').find_all('table')


def chord_row(name, classes):
    return [name, 'picture', 'sound', '1 3 5', classes, 'Major']


def scale_row(name, degrees):
    return [name, 'picture', 'sound', degrees, '2-2', '7', 'x', 'y', 'z']


def rising(classes):
    """Pitches rise, a lower pitch class is one of the next octave."""
    pitches = [classes[0]]
    for pc in classes[1:]:
        pitch = pc
        while pitch < pitches[-1]:
            pitch += 12
        pitches.append(pitch)
    return pitches


def table_run(case, ctx):
    from klang import scraping
    kind, n, part = case
    if kind == 'chords':
        combos = list(itertools.product(range(12), repeat=n))[part::4]
        rows, want = [], {}
        for combo in combos:
            name = 'Chord %s (comment)[12]' % ' '.join(map(str, combo))
            rows.append(chord_row(name, ' '.join(DIGITS[pc] for pc in combo)))
            want['chord ' + ' '.join(map(str, combo))] = rising(combo)
        for at in range(0, len(rows), 200):
            table = scraping.find_table(page('List', rows[at:at + 200]), 'List')
            got = {name: np.asarray(chord).tolist() for name, chord in scraping.extract_chords(table).items()}
            expected = dict(list(want.items())[at:at + 200])
            for name in expected:
                require(got.get(name) == expected[name], '%r is %s instead of %s', name, got.get(name), expected[name])
                ctx.step()
                ctx.state(name)
                ctx.outcome(tuple(expected[name]))
            require(len(got) == len(expected), '%d chords of %d', len(got), len(expected))
    elif kind == 'scales':
        accidentals = list(itertools.product(ACCIDENTALS, repeat=6))
        if not ctx.thorough:
            accidentals = accidentals[::3]
        rows, want = [], {}
        for number, combo in enumerate(accidentals[part::8]):
            signs = ('',) + combo
            degrees = ' '.join('%s%d' % (acc, i + 1) for i, acc in enumerate(signs))
            pitches = sorted({(MAJOR[i] + ACCIDENTALS[acc]) % 12 for i, acc in enumerate(signs)})
            rows.append(scale_row('Scale %d' % number, degrees))
            want['scale %d' % number] = degrees, [b - a for a, b in zip(pitches, pitches[1:] + [pitches[0] + 12])]
        table = scraping.find_table(page('Scales', rows), 'Scales')
        got = scraping.extract_scales(table)
        for name, (degrees, scale) in want.items():
            require(name in got and np.asarray(got[name]).tolist() == scale, '%s is %s instead of %s', degrees, got.get(name), scale)
            ctx.step()
            ctx.state(degrees)
            ctx.outcome(tuple(scale))
        require(len(got) == len(want), '%d scales of %d', len(got), len(want))
    else:
        rows = [
            chord_row('"First" chord', '0 4 7'), chord_row('Second / Third', '0 3 7'), chord_row('Fourth or Fifth[1] (x)', '0 2 7 or 0 5 7'),
            chord_row('Sixth', '0 1 / 0 2 / 0 3'), chord_row('Skipped', '0 x 7'), [],
        ]
        want = {'first chord': [0, 4, 7], 'second': [0, 3, 7], 'third': [0, 3, 7], 'fourth': [0, 2, 7], 'fourth 1': [0, 5, 7], 'fifth': [0, 2, 7],
                'fifth 1': [0, 5, 7], 'sixth': [0, 1], 'sixth 1': [0, 2], 'sixth 2': [0, 3]}
        got = {name: np.asarray(chord).tolist() for name, chord in scraping.extract_chords(scraping.find_table(page('C', rows), 'C')).items()}
        require(got == want, 'chords %s instead of %s', got, want)
        rows = [
            scale_row('Major scale', '1 2 3 4 5 6 7'), scale_row('Two / Three', '1 3 5'), scale_row('Bad', '—'), scale_row('Quarter tone scale', '1 2'),
            scale_row('Up down', '1 2 3 8\n1 ♭2 3'), scale_row('Long', '1 2 etc.'), scale_row('Natural', '1 ♮2 ♯♯3 ♭♭7'),
        ]
        want = {'major scale': [2, 2, 1, 2, 2, 2, 1], 'two': [4, 3, 5], 'three': [4, 3, 5], 'up down': [2, 2, 8], 'up down 1': [1, 3, 8],
                'natural': [2, 4, 3, 3]}
        got = {name: np.asarray(scale).tolist() for name, scale in scraping.extract_scales(scraping.find_table(page('S', rows), 'S')).items()}
        require(got == want, 'scales %s instead of %s', got, want)
        require(raises(scraping.find_table, page('S', rows), 'Missing'), 'a missing table is found')
        ctx.step()
        ctx.state('names')
        ctx.outcome('names')
    ctx.trace()


def random_cases(tier):
    for length in range(0, 9):
        yield [length]


def random_run(case, ctx):
    """Random patterns: length, period, range; all values come."""
    length, = case
    for period in [None] + list(range(1, 10)):
        for lo, hi in ((60, 72), (0, 2), (5, 5), (-3, 1)):
            seen = set()
            for seed in range(40):
                random.seed(seed)
                kw = {} if period is None else {'period': period}
                if (lo, hi) != (60, 72):
                    kw.update(minVal=lo, maxVal=hi)
                pattern = random_pattern(length, **kw)
                what = 'random pattern of %d, period %s, from %d to %d: %s' % (length, period, lo, hi, pattern)
                require(len(pattern) == length, '%s', what)
                require(all(lo <= v <= hi and v == int(v) for v in pattern), '%s', what)
                p = period or max(length, 1)
                require(all(pattern[i] == pattern[i % p] for i in range(length)), '%s', what)
                seen.update(pattern)
                ctx.step()
            if length and hi - lo < 3:
                require(seen == set(range(lo, hi + 1)), '%s: only %s in 40 patterns', what, seen)
            ctx.state(length, period, lo, hi)
    random.seed()
    ctx.trace()
    ctx.outcome(length)


FAMILIES = [
    Family('patterns', random_cases, random_run, 'random patterns of 0-8 steps x 10 periods x 4 ranges x 40 seeds'),
    Family('numbers', number_cases, number_run, 'phases in sixteenths of pi over 40 (200) half turns, clip over all half integer triples, integers up to 5000 (70000), linear maps over a grid'),
    Family('normalize', normalize_cases, normalize_run, lambda tier: 'all arrays of up to %d out of 7 values (extremes included), 6 types, 2 shapes' % (3 if tier == 'quick' else 4)),
    Family('metres', metre_cases, metre_run, lambda tier: 'all metres 2..%d over 1..64' % (24 if tier == 'quick' else 64)),
    Family('graphs', graph_cases, graph_run, lambda tier: 'all directed graphs with 3 nodes and self loops, with 4 nodes%s; all acyclic ones with 5 nodes in %s' % (('', '10 labelings') if tier == 'quick' else (' and self loops, with 5 nodes', 'all labelings')), timeout=600.),
    Family('words', word_cases, word_run, lambda tier: 'all pairs of words of up to %s letters out of %s' % (('4 and 3', 'three') if tier == 'quick' else ('4', 'four'))),
    Family('csv', csv_cases, csv_run, lambda tier: 'all lines of up to %d out of 10 fields, 3 separators' % (3 if tier == 'quick' else 4)),
    Family('progress', progress_cases, progress_run, '15 lengths up to 333, 5 widths, prefix; every step'),
    Family('plots', plot_cases, plot_run, 'subplot shapes for every number up to 1500 (20000); all fractions with denominators up to 10 between -3 and 3'),
    Family('tables', table_cases, table_run, lambda tier: 'all chords of up to %d pitch classes, %s scales of seven degrees with accidentals, synonyms and invalid rows' % ((3, 'every third of the') if tier == 'quick' else (4, 'all'))),
]

ASSUMPTIONS = [
    'The sign of zero and the class of the exception for silence are left open; angles are compared up to 1e-9.',
    'Which edge of a cycle is the back edge is left open.',
]
