"""P17: PCM conversion and WAV files. All sample values, all small signals over an alphabet."""
import itertools
import os
import tempfile
import wave

import numpy as np

from mc import Family, require, expect_raises
from klang.audio.wavfile import convert_samples_to_float, convert_samples_to_int, load_wave, write_wave

BITS = {8: np.int8, 16: np.int16, 32: np.int32}


def int_values(bits):
    """All 8 and 16 bit values, structured 32 bit values; ascending."""
    if bits < 32:
        return np.arange(-2 ** (bits - 1), 2 ** (bits - 1))
    vals = set()
    for k in range(32):
        for d in (-3, -2, -1, 0, 1, 2, 3):
            for s in (1, -1):
                vals.add(s * 2 ** k + d)
                vals.add(s * (2 ** 31 - 2 ** k) + d)
    vals.update(range(-2 ** 31, 2 ** 31, 65521 * 17))
    return np.array(sorted(v for v in vals if -2 ** 31 <= v < 2 ** 31))


LAYOUTS = ('flat', 'column', 'stereo', 'strided', 'fortran', 'scalar')


def arrange(x, layout):
    if layout == 'flat':
        return x.copy()
    if layout == 'column':
        return x.reshape(-1, 1).copy()
    if layout == 'stereo':
        return np.stack([x, x[::-1]], axis=1)
    if layout == 'fortran':
        return np.asfortranarray(np.stack([x, x[::-1]], axis=1))
    if layout == 'strided':
        return np.repeat(x, 2)[::2]
    return None


def float_cases(tier):
    for bits in BITS:
        for layout in LAYOUTS:
            yield [bits, layout]


def float_run(case, ctx):
    """int -> float: sample / full scale."""
    bits, layout = case
    full = 2. ** (bits - 1)
    vals = int_values(bits).astype(BITS[bits])
    if layout == 'scalar':
        for v in vals[::1 if bits == 8 else 97]:
            y = convert_samples_to_float(v)
            require(float(y) == int(v) / full, '%s: %d -> %r', case, v, y)
    else:
        x = arrange(vals, layout)
        keep = x.copy()
        y = convert_samples_to_float(x)
        require(y.shape == x.shape and np.issubdtype(y.dtype, np.floating), '%s: %s %s', case, y.shape, y.dtype)
        exact = x.astype(float) / full
        bad = np.flatnonzero((y != exact).ravel())
        require(len(bad) == 0, '%s: sample %s -> %r', case, x.ravel()[bad[:1]], y.ravel()[bad[:1]])
        require(y.min() >= -1. and y.max() < 1., '%s: range', case)
        require((x == keep).all(), '%s: samples modified', case)
    ctx.state(str(case))
    ctx.step(len(vals))
    ctx.trace()
    ctx.outcome(str(case))


def float_values(bits, dtype):
    """Grid around every quantisation boundary (or structured for 32 bit) plus extremes; ascending in [-1, 1]."""
    if bits < 32:
        m = 2 ** (bits - 1) - 1
        base = np.arange(-m, m + 1) / m
        grid = np.concatenate([base, np.nextafter(base, 2), np.nextafter(base, -2), base + .5 / m, base - .3 / m,
                               np.arange(-m - 1, m + 1) / (m + 1.)])
    else:
        base = int_values(32) / 2. ** 31
        grid = np.concatenate([base, np.nextafter(base, 2), np.nextafter(base, -2)])
    tiny = np.array([0., 1e-12, 1e-30, 5e-324, 1., 1. - 1e-16, 1. - 6e-8, .99999, .9995, 1 / 3, 1e-5])
    grid = np.concatenate([grid, -grid, tiny, -tiny])
    grid = np.unique(grid[abs(grid) <= 1.].astype(dtype))
    return grid


def int_cases(tier):
    for bits in BITS:
        for dtype in ('float64', 'float32', 'float16'):
            for layout in LAYOUTS:
                yield [bits, dtype, layout]
    yield [16, 'default', 'flat']


def int_run(case, ctx):
    """float -> int: range, sign, monotonic, odd, within one step."""
    bits, dtype, layout = case
    target = BITS[bits]
    args = () if dtype == 'default' else (target,)
    vals = float_values(bits, 'float64' if dtype == 'default' else dtype)
    top = 2 ** (bits - 1) - 1

    def judge(x, y):
        x, y = x.astype(float), y.astype(np.int64)
        order = np.argsort(x, kind='stable')
        x, y = x[order], y[order]
        require(abs(y).max() <= top + 1, '%s: out of range', case)
        bad = np.flatnonzero(x * y < 0)
        require(len(bad) == 0, '%s: sign of %r changes to %s', case, x[bad[:1]], y[bad[:1]])
        bad = np.flatnonzero(abs(y - x * top) > 1.0001)
        require(len(bad) == 0, '%s: %r -> %s', case, x[bad[:1]], y[bad[:1]])
        bad = np.flatnonzero(np.diff(y) < 0)
        require(len(bad) == 0, '%s: not monotonic at %r', case, x[bad[:1]])

    if layout == 'scalar':
        sel = vals[::max(1, len(vals) // 1000)]
        y = np.array([int(convert_samples_to_int(v, *args)) for v in sel])
        judge(sel, y)
    else:
        x = arrange(vals, layout)
        keep = x.copy()
        y = convert_samples_to_int(x, *args)
        require(y.dtype == target and y.shape == x.shape, '%s: %s %s', case, y.dtype, y.shape)
        require((x == keep).all(), '%s: samples modified', case)
        judge(x.ravel(), y.ravel())
        z = convert_samples_to_int(-x, *args)
        bad = np.flatnonzero((y.astype(np.int64) + z.astype(np.int64)).ravel())
        require(len(bad) == 0, '%s: not odd at %r: %s %s', case, x.ravel()[bad[:1]], y.ravel()[bad[:1]], z.ravel()[bad[:1]])
    ctx.state(str(case))
    ctx.step(len(vals))
    ctx.trace()
    ctx.outcome(str(case))


def trip_cases(tier):
    for bits in BITS:
        yield [bits]


def trip_run(case, ctx):
    """int -> float -> int."""
    bits, = case
    vals = int_values(bits).astype(BITS[bits])
    back = convert_samples_to_int(convert_samples_to_float(vals), BITS[bits])
    diff = abs(back.astype(np.int64) - vals.astype(np.int64))
    require(diff.max() <= 1, '%s: %s comes back as %s', case, vals[diff.argmax()], back[diff.argmax()])
    ctx.state(bits)
    ctx.step(len(vals))
    ctx.trace()
    ctx.outcome(bits)


# Files

def scratch():
    """Path of a scratch file (directory is removed by the runner)."""
    return os.path.join(os.environ.get('VERIF_SCRATCH') or tempfile.gettempdir(), 'x%d.wav' % os.getpid())


def check_file(what, x, arr, ints, top):
    """ints: samples read back as integers; x: exact audio."""
    require(ints.shape == x.shape, '%s: shape %s, written %s', what, ints.shape, x.shape)
    peak = abs(x).max()
    if peak == 0:
        require(not ints.any(), '%s: silence is not silent', what)
        return
    if (abs(ints - x / peak * top) <= 1. + 1e-6).all():
        return
    k = np.unravel_index(abs(x).argmax(), x.shape)
    scale = ints[k] / x[k]
    require(abs(ints[k]) > top / 1000, '%s: audio got lost (peak is %s steps)', what, ints[k])
    require((abs(ints - x * scale) <= 2.).all() and scale > 0, '%s: file contains %s, audio is %s', what, ints.tolist()[:8], x.tolist()[:8])


def roundtrip(what, arr, rate=None):
    path = scratch()
    x = np.array(arr, dtype=float)
    keep = np.array(arr)
    kwargs = {} if rate is None else {'samplingRate': rate}
    write_wave(arr, path, **kwargs)
    require((np.asarray(arr) == keep).all(), '%s: audio was modified', what)
    gotRate, data = load_wave(path)
    require(gotRate == (rate or 44100), '%s: sampling rate %s', what, gotRate)
    require(np.issubdtype(data.dtype, np.floating) and (not data.size or abs(data).max() <= 1.), '%s: loaded %s', what, data.dtype)
    if x.ndim == 1:
        x = x.reshape(-1, 1)
        arr = np.asarray(arr).reshape(-1, 1)
    check_file(what, x, arr, data * 32768., 32767)
    with wave.open(path) as f:
        require((f.getnframes(), f.getnchannels(), f.getsampwidth(), f.getframerate()) == (x.shape[0], x.shape[1], 2, rate or 44100), '%s: header %s', what, f.getparams())
    os.remove(path)
    return data


ALPHA = (0., 1., -1., .5, -.2501, 3., 1e-3)


def small_cases(tier):
    for head in itertools.product(ALPHA, repeat=2):
        yield [1, list(head), 4 if tier == 'quick' else 5]
        for more in itertools.product(ALPHA[:5], repeat=2):
            yield [2, list(head) + list(more), 6]


def small_run(case, ctx):
    nChannels, head, total = case
    alpha = ALPHA if nChannels == 1 else (0., -1., .5) if ctx.tier == 'quick' else ALPHA[:5]
    for tail in itertools.product(alpha, repeat=total - len(head)):
        x = np.array(head + list(tail)).reshape(-1, nChannels)
        data = roundtrip((nChannels, head, tail), x)
        ctx.step(x.shape[0])
        ctx.trace()
        ctx.outcome(data.tobytes())
    ctx.state(str(case))


def format_cases(tier):
    for nChannels in (1, 2, 3, 6):
        for nFrames in (nChannels + 1, 10, 255, 256, 257, 1000, 5000):
            for kind in ('float64', 'float32', 'int16', 'lowest', 'int8', 'int32', 'fortran', 'transposed', 'strided', 'readonly', 'list', 'quiet', 'loud', 'late', 'reversed'):
                for rate in (None, 8000, 48000, 96000):
                    if nFrames > nChannels:
                        yield [nChannels, nFrames, kind, rate]


def format_run(case, ctx):
    """Types, memory layouts, lengths, levels and sampling rates."""
    nChannels, nFrames, kind, rate = case
    base = ((np.arange(nFrames * nChannels) * 7919 + 13) % 1009 / 504. - 1.).reshape(nFrames, nChannels)
    if kind == 'float32':
        x = base.astype(np.float32)
    elif kind == 'int16':
        x = (base * 20000).astype(np.int16)
    elif kind in ('lowest', 'int8', 'int32'):
        info = np.iinfo(np.int16 if kind == 'lowest' else kind)
        x = np.clip(base * -float(info.min), info.min, info.max - 127).astype(info.dtype)
        x[0] = info.min
    elif kind == 'fortran':
        x = np.asfortranarray(base)
    elif kind == 'transposed':
        x = np.ascontiguousarray(base.T).T
    elif kind == 'strided':
        x = np.repeat(base, 2, axis=0)[::2]
    elif kind == 'reversed':
        x = base[::-1]
    elif kind == 'readonly':
        x = base.copy()
        x.setflags(write=False)
    elif kind == 'list':
        x = base.tolist()
    elif kind == 'quiet':
        x = base * 1e-9
    elif kind == 'loud':
        x = base * 1e6
    elif kind == 'late':
        x = base * (np.arange(nFrames) == nFrames - 1).reshape(-1, 1)
    else:
        x = base
    roundtrip(case, x, rate)
    if nChannels == 1:
        flat = [row[0] for row in x] if kind == 'list' else x[:, 0]
        require((roundtrip((case, 'one dimensional'), flat, rate) == roundtrip(case, x, rate)).all(), '%s: one dimensional audio is written differently', case)
    ctx.state(str(case))
    ctx.step(nFrames)
    ctx.trace()
    ctx.outcome(nChannels, nFrames, kind)


def deep_cases(tier):
    for dtype in ('float64', 'float32'):
        for nChannels in (1, 2):
            for peak in (1., .7, 1e-4, 12.):
                yield [dtype, nChannels, peak]


def deep_run(case, ctx):
    """32 bit files: never wrap around."""
    dtype, nChannels, peak = case
    x = np.linspace(-1, 1, 64).reshape(-1, nChannels).astype(dtype) * np.dtype(dtype).type(peak)
    for sgn in (1, -1):
        path = scratch()
        write_wave(sgn * x, path, dtype=np.int32)
        with wave.open(path) as f:
            require(f.getsampwidth() == 4, '%s: %d bytes per sample', case, f.getsampwidth())
            ints = np.frombuffer(f.readframes(-1), dtype=np.int32).reshape(-1, nChannels).astype(float)
        os.remove(path)
        want = sgn * x.astype(float) / abs(x.astype(float)).max() * (2 ** 31 - 1)
        require((abs(ints - want) <= 2 ** 31 * 2e-7).all(), '%s: file contains %s', case, ints.ravel()[:3])
        ctx.step()
    ctx.state(str(case))
    ctx.trace()
    ctx.outcome(str(case))


def refusal_cases(tier):
    for name in ('float', 'int', 'file'):
        yield [name]


def refusal_run(case, ctx):
    """What would be converted wrongly is refused."""
    name, = case
    if name == 'float':
        for dtype in (np.float32, np.float64):
            require(expect_raises(convert_samples_to_float, np.array([.5, -1.], dtype)), '%s samples converted to float', dtype.__name__)
            ctx.step()
    elif name == 'int':
        for dtype, target in itertools.product((np.int8, np.int16, np.int32, np.int64), (np.int8, np.int16, np.int32)):
            require(expect_raises(convert_samples_to_int, np.array([5, -1], dtype), target), '%s samples converted to int', dtype.__name__)
            ctx.step()
    else:
        path = os.path.join(os.environ['VERIF_SCRATCH'], 'p17_%d.wav' % os.getpid())
        for width, channels, length in itertools.product((1, 2, 3, 4), (1, 2, 3), (0, 1, 4, 6)):
            with wave.open(path, 'wb') as f:
                f.setnchannels(channels)
                f.setsampwidth(width)
                f.setframerate(8000)
                f.writeframes(bytes(range(width * channels * length)))
            if width == 2:
                rate, data = load_wave(path)
                require(rate == 8000 and data.shape == (length, channels), '%d frames of %d channels loaded as %s', length, channels, data.shape)
            else:
                require(expect_raises(load_wave, path), 'file of %d bytes per sample loaded', width)
            ctx.step()
            ctx.state(width, channels, length)
        os.remove(path)
    # Lists are samples, too
    for n in range(1, 5):
        for values in itertools.product((-1., 0., .5, 1.), repeat=n):
            require(convert_samples_to_int(list(values)).tolist() == convert_samples_to_int(np.array(values)).tolist(), 'list %s converted differently', values)
            ctx.step()
    ctx.trace()
    ctx.state(name)
    ctx.outcome(name)


FAMILIES = [
    Family('to float', float_cases, float_run, 'all 8 and 16 bit samples, structured 32 bit samples, 6 layouts'),
    Family('to int', int_cases, int_run, 'every quantisation boundary and its float neighbours x 3 float types x 3 widths x 6 layouts'),
    Family('round trip', trip_cases, trip_run, 'all 8 and 16 bit samples, structured 32 bit samples'),
    Family('small files', small_cases, small_run, 'all mono signals of 4 (5) samples over 7 values, all stereo signals of 3 frames over 3-7 values'),
    Family('formats', format_cases, format_run, '1-6 channels x 7 lengths x 12 types / layouts / levels x 4 rates'),
    Family('refusals', refusal_cases, refusal_run, 'conversions of the wrong kind, files of 1-4 bytes per sample x 1-3 channels x 4 lengths, lists of up to 4 samples'),
    Family('32 bit', deep_cases, deep_run, '32 bit files from float32 / float64'),
]
ASSUMPTIONS = ['audio for writing is two-dimensional with more frames than channels']
