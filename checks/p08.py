"""P08: comb / echo filters, C and Python, against their difference equations."""
import itertools

import numpy as np

from mc import Family, require, compositions, expect_raises, sequences
from klang.audio import filters as mod

KINDS = ('Forward', 'Backward', 'Echo')
NAMES = {'Forward': 'ForwardCombFilter', 'Backward': 'BackwardCombFilter', 'Echo': 'EchoFilter'}


def make(impl, kind, k, alpha=None):
    """impl: C (compiled), P (pure Python) or D (what users get)."""
    cls = getattr(mod, {'C': 'C', 'P': 'Py', 'D': ''}[impl] + NAMES[kind])
    return cls(k) if alpha is None else cls(k, alpha)


def reference(kind, k, gains, x):
    """Difference equation; gains per sample."""
    y = []
    for n, v in enumerate(x):
        a = gains[n]
        if kind == 'Forward':
            y.append(v + a * (x[n - k] if n >= k else 0.))
        elif kind == 'Backward':
            y.append(v + a * (y[n - k] if n >= k else 0.))
    if kind == 'Echo':
        w = []
        for n, v in enumerate(x):
            y.append(w[n - k] if n >= k else 0.)
            w.append(v + gains[n] * y[n])
    return y


def compare(case, what, got, want):
    require(len(got) == len(want), '%s %s: %d samples, expected %d', case, what, len(got), len(want))
    for n, (g, w) in enumerate(zip(got, want)):
        require(abs(g - w) <= 1e-9 * max(1., abs(w)), '%s %s: sample %d is %r, expected %r', case, what, n, g, w)


X = [1., -2., 3.5, .25, -5., 7., 11., -13., 17., -.75, 19., 23., -29., 31.]


def chunk_cases(tier):
    total = 12 if tier == 'quick' else 14
    for k in list(range(1, 7)) + [9, 11]:
        for alpha in (.5, -.9, 1.):
            for kind in KINDS:
                for first in range(1, total + 1):
                    yield [k, alpha, kind, total, first]


def chunk_run(case, ctx):
    k, alpha, kind, total, first = case
    x = X[:total]
    want = reference(kind, k, [alpha] * total, x)
    arr = np.array(x)
    for rest in compositions(total - first):
        parts = (first,) + rest
        for impl in 'CDP':
            if impl == 'P' and max(parts) > k:
                continue
            if impl == 'D' and (len(parts) > 3 or k > 4):
                continue
            fil = make(impl, kind, k, alpha)
            got = []
            start = 0
            for n in parts:
                got.extend(fil.filter(arr[start:start + n]).tolist())
                start += n
            compare(case + [parts], impl, got, want)
            ctx.trace()
            ctx.step(len(parts))
            ctx.state(case[0], case[1], kind, impl, parts)
    require(arr.tolist() == x, '%s: input was modified', case)
    ctx.outcome(kind, k, alpha, tuple(want))


def signal_cases(tier):
    for k in (1, 2, 3, 4):
        for kind in KINDS:
            for head in sequences((0., 1., -1.), 3):
                yield [k, kind, list(head)]


def signal_run(case, ctx):
    """All short ternary signals; chunk = delay, and everything at once for the compiled one."""
    k, kind, head = case
    for tail in sequences((0., 1., -1.), 3 if not ctx.thorough else 5):
        x = head + list(tail)
        want = reference(kind, k, [.75] * len(x), x)
        for impl in 'CP':
            fil = make(impl, kind, k, .75)
            got = []
            for s in range(0, len(x), k):
                got.extend(fil.filter(np.array(x[s:s + k])).tolist())
            compare(case, '%s %s' % (impl, x), got, want)
        got = make('C', kind, k, .75).filter(np.array(x)).tolist()
        compare(case, 'whole %s' % x, got, want)
        ctx.state(k, kind, tuple(x))
        ctx.trace(3)
        ctx.step(3)
        ctx.outcome(tuple(want))


# Layouts ------------------------------------------------------------------------------------------
def layouts(x, dtype):
    """(name, array-like) all holding the samples x."""
    n = len(x)
    base = np.array(x, dtype=dtype)
    yield 'plain', base.copy()
    buf = np.full(2 * n, 77, dtype=dtype)
    buf[::2] = base
    yield 'strided', buf[::2]
    yield 'reversed', base[::-1].copy()[::-1]
    buf = np.full((n, 3), 77, dtype=dtype)
    buf[:, 1] = base
    yield 'column', buf[:, 1]
    buf = np.full((3, n), 77, dtype=dtype)
    buf[1] = base
    yield 'row', buf[1]
    buf = np.asfortranarray(buf)
    yield 'fortran row', buf[1]
    ro = base.copy()
    ro.setflags(write=False)
    yield 'read only', ro
    yield 'swapped', base.astype(base.dtype.newbyteorder())
    raw = np.zeros(n * base.dtype.itemsize + 1, dtype=np.uint8)
    raw[1:] = base.view(np.uint8) if base.dtype != bool else base.astype(np.uint8)
    yield 'unaligned', raw[1:].view(base.dtype)
    yield 'wide stride', np.repeat(base, 5)[::5]


def layout_cases(tier):
    for dtype in ('float64', 'float32', 'float16', 'int8', 'int16', 'int32', 'int64', 'uint8', 'bool', 'list', 'tuple', 'ints'):
        for k in (2, 3, 5):
            for kind in KINDS:
                yield [dtype, k, kind]


def layout_run(case, ctx):
    dtype, k, kind = case
    x = [3, 1, 2, 5, 0, 4, 7, 6, 9, 8]
    if dtype == 'bool':
        x = [1, 0, 1, 1, 0, 0, 1, 0, 1, 1]
    want = reference(kind, k, [.5] * len(x), [float(v) for v in x])
    if dtype in ('list', 'tuple', 'ints'):
        conv = {'list': lambda v: [float(i) for i in v], 'tuple': lambda v: tuple(float(i) for i in v), 'ints': list}[dtype]
        for impl in 'CP':
            fil = make(impl, kind, k, .5)
            got = []
            for s in range(0, len(x), k):
                if impl == 'P' and dtype != 'list':
                    continue
                got.extend(np.asarray(fil.filter(conv(x[s:s + k]))).tolist())
            if got:
                compare(case, impl, got, want)
            ctx.step()
        ctx.trace()
        ctx.state(str(case))
        return
    for name, arr in layouts(x, dtype):
        keep = np.array(arr)
        for impl in 'CP':
            for width in (k, 2, len(x)):
                if impl == 'P' and width > k:
                    continue
                fil = make(impl, kind, k, .5)
                got = []
                kept = []
                for s in range(0, len(x), width):
                    y = fil.filter(arr[s:s + width])
                    kept.append((y, np.array(y)))
                    got.extend(np.asarray(y).tolist())
                compare(case, '%s %s chunks of %d' % (impl, name, width), got, want)
                require((np.array(arr) == keep).all(), '%s %s %s: input was modified', case, impl, name)
                for y, copy in kept:
                    require((y == copy).all(), '%s %s %s: earlier output was overwritten', case, impl, name)
                ctx.step(len(kept))
                ctx.trace()
        ctx.state(str(case), name)
        ctx.outcome(kind, tuple(want))


# Long signals, gain changes, several instances ---------------------------------------------------------
def long_cases(tier):
    ks = [1, 2, 3, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000]
    if tier != 'quick':
        ks = sorted(set(ks + list(range(1, 520)) + [2500, 44100]))
    for k in ks:
        for kind in KINDS:
            yield [k, kind]


def long_run(case, ctx):
    k, kind = case
    total = 2 * k + 1200
    x = [((n * 7919) % 1009) / 1009. - .5 for n in range(total)]
    arr = np.array(x)
    for schedule in ([.9], [.5, -.25], [1., 0., .3]):
        for width in (256, 128, 100, 255, 7, total):
            gains = []
            chunks = [(s, min(total, s + width)) for s in range(0, total, width)]
            for i, (a, b) in enumerate(chunks):
                gains.extend([schedule[i % len(schedule)]] * (b - a))
            want = reference(kind, k, gains, x)
            for impl in 'CP':
                if impl == 'P' and width > min(k, 256):
                    continue
                fil, other = make(impl, kind, k, schedule[0]), make(impl, kind, k, .1)
                got = []
                for i, (a, b) in enumerate(chunks):
                    fil.alpha = schedule[i % len(schedule)]
                    require(abs(fil.alpha - schedule[i % len(schedule)]) < 1e-12, '%s: alpha reads %r', case, fil.alpha)
                    other.filter(arr[a:b] + 1.)
                    got.extend(fil.filter(arr[a:b]).tolist())
                compare(case, '%s width %d gains %s' % (impl, width, schedule), got, want)
                ctx.step(len(chunks))
                ctx.trace()
            ctx.state(k, kind, width, tuple(schedule))
    require(arr.tolist() == x, '%s: input was modified', case)
    # default gain agrees
    outs = [make(impl, kind, 3).filter(np.array([1., 2., 3.])).tolist() + [] for impl in 'CP']
    require(outs[0] == outs[1], '%s: default gain: %s', case, outs)
    alphas = [make(impl, kind, 3).alpha for impl in 'CPD']
    require(max(alphas) - min(alphas) < 1e-12, '%s: default gains %s', case, alphas)
    ctx.outcome(kind, k)


def capacity_cases(tier):
    ks = {44100 * s for s in (2, 3, 5, 10, 30, 59, 60)}
    for p in range(12, 22):
        ks |= {2 ** p - 1, 2 ** p, 2 ** p + 1}
    if tier != 'quick':
        ks |= set(range(50000, 2600000, 50000))
    for k in sorted(ks):
        for kind in KINDS:
            yield [k, kind]


def capacity_run(case, ctx):
    """Delays of up to a minute: a few impulses and their first repetition."""
    k, kind = case
    x = np.zeros(k + 40)
    x[[0, 7, 30, k - 1]] = 1., -2., 4., 8.
    want = np.zeros(k + 40) if kind == 'Echo' else x.copy()
    want[k:] += (1. if kind == 'Echo' else .5) * x[:40]
    fil = make('C', kind, k, .5)
    require(fil.length == k, '%s: length %s', case, fil.length)
    got = np.concatenate([fil.filter(x[:9]), fil.filter(x[9:k]), fil.filter(x[k:])])
    bad = np.flatnonzero(abs(got - want) > 1e-12)
    require(not len(bad), '%s: sample %s differs', case, bad[:1])
    if k < 20000:
        py = make('P', kind, k, .5)
        got = np.concatenate([py.filter(x[s:s + 256]) for s in range(0, len(x), 256)])
        bad = np.flatnonzero(abs(got - want) > 1e-12)
        require(not len(bad), '%s: sample %s of the Python filter differs', case, bad[:1])
    ctx.state(*case)
    ctx.step(3)
    ctx.trace()
    ctx.outcome(*case)


def error_cases(tier):
    for kind in KINDS:
        for what in ('zero', 'negative', 'huge', 'matrix', 'scalar', 'string', 'none', 'noargs', 'empty'):
            yield [kind, what]


def error_run(case, ctx):
    """Bad arguments are refused (not a crash) and leave the filter usable."""
    kind, what = case
    ctor = {'zero': 0, 'negative': -3, 'huge': 1 << 30}
    if what in ctor:
        require(expect_raises(make, 'C', kind, ctor[what], .5), '%s: accepted', case)
    elif what == 'noargs':
        require(expect_raises(getattr(mod, 'C' + NAMES[kind])), '%s: accepted', case)
    else:
        fil = make('C', kind, 2, .5)
        first = fil.filter(np.array([1., 2., 3.])).tolist()
        bad = {'matrix': np.ones((2, 2)), 'scalar': np.float64(1.), 'string': 'abc', 'none': object(), 'empty': np.array([])}[what]
        if what == 'empty':
            require(len(fil.filter(bad)) == 0, '%s: samples out of nothing', case)
        else:
            require(expect_raises(fil.filter, bad), '%s: accepted', case)
        got = first + fil.filter(np.array([4., 5., 6.])).tolist()
        compare(case, 'after', got, reference(kind, 2, [.5] * 6, [1., 2., 3., 4., 5., 6.]))
    ctx.state(*case)
    ctx.step()
    ctx.trace()
    ctx.outcome(*case)


FAMILIES = [
    Family('chunkings', chunk_cases, chunk_run,
           lambda t: 'all 2^%d cuts of a signal of %d samples into chunks x 8 delays x 3 gains x 3 filters x compiled / Python' % ((11, 12) if t == 'quick' else (13, 14))),
    Family('signals', signal_cases, signal_run, lambda t: 'all ternary signals of length %d x delays 1-4' % (6 if t == 'quick' else 8)),
    Family('layouts', layout_cases, layout_run, '9 sample types, lists and tuples x 10 memory layouts x 3 delays'),
    Family('long', long_cases, long_run, 'practical delays around the buffer size x 6 chunk widths x gain schedules, two instances'),
    Family('capacities', capacity_cases, capacity_run, 'delays around all powers of two up to 2^21 and up to a minute'),
    Family('errors', error_cases, error_run, 'bad arguments'),
]
ASSUMPTIONS = ['pure Python filters are given chunks no longer than their delay and than the audio buffer (their documented limit)']
