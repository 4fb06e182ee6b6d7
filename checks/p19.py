"""P19: sample playback. All regions, read sizes, loop modes and play / pause / rewind histories."""
import itertools
import os
import tempfile
import wave

import numpy as np

from mc import Family, require, sequences
from klang.audio.sampling import AudioFile, Sample
from klang.config import BUFFER_SIZE, SAMPLING_RATE

CRUDE = ('crude', 'very_crude')
LATENT = ('linear', 'zero_order_hold')
SINC = ('sinc_fastest', 'sinc_medium', 'sinc_best')


def make_data(length, channels):
    """Distinct non-zero frames, exact in float32 and in 16 bit PCM."""
    base = (np.arange(length) + 1) / 1024.
    if channels == 0:
        return base
    return np.stack([base * (1 if c % 2 == 0 else -1) + c * 2. ** -13 for c in range(channels)], axis=1)


def frames(x, channels):
    """Frames as a 2-D array (whatever layout a chunk without frames has)."""
    x = np.asarray(x)
    if x.size == 0:
        return np.zeros((0, max(channels, 1)))
    return x.reshape((len(x), -1))


def region_stream(data, start, stop, loop, n):
    """First n frames which have to be played."""
    region = data[start:stop].reshape((stop - start, -1))
    if loop:
        return region[np.arange(n) % len(region)]
    return region[:n]


def acceptable(got, data, start, stop, loop, requested, mode):
    """Whole take (everything since the last rewind) against region. requested frames have been asked for."""
    region = data[start:stop].reshape((stop - start, -1))
    n = len(got)
    want = region_stream(data, start, stop, loop, requested)
    if mode in CRUDE or mode == 'callback':
        return n == len(want) and np.array_equal(got, want)
    # Up to one frame of interpolation latency
    first = region[:1]
    for lead in (0, 1):
        full = np.concatenate([first] * lead + [region_stream(data, start, stop, loop, requested)])[:requested]
        if n <= len(full) and np.allclose(got, full[:n], rtol=0., atol=1e-6):
            if loop:
                if n == requested:
                    return True
            elif n in (min(requested, len(region)), min(requested, len(region) + lead)):
                return True
    return False


def regions(length):
    for start in range(length):
        for stop in range(start + 1, length + 1):
            yield start, stop


def sample_cases(tier):
    quick = tier == 'quick'
    for mode in ('callback',) + CRUDE + LATENT:
        for channels in (0, 1, 2):
            for length in ((4,) if quick else (3, 4, 5, 7)):
                for loop in (False, True):
                    for start, stop in regions(length):
                        if mode in LATENT and stop - start < 2:
                            continue  # libsamplerate can not interpolate a single frame
                        yield [mode, channels, length, loop, start, stop]


READS = (1, 2, 3, 8)


def sample_run(case, ctx):
    """All sequences of read sizes and rewinds on one region."""
    mode, channels, length, loop, start, stop = case
    data = make_data(length, channels)
    keep = data.copy()
    depth = (5 if ctx.thorough else 4) - (mode in LATENT)
    ops = READS + ('rewind', 'trim')
    kw = {} if mode == 'callback' else {'mode': mode}
    for via in ('init', 'trim'):
        for hist in sequences(ops, depth if via == 'init' else depth - 1):
            if via == 'init':
                sample = Sample(SAMPLING_RATE, data, start=start, stop=stop, loop=loop, **kw)
                sample.rewind()
            else:
                sample = Sample(SAMPLING_RATE, data, loop=loop, **kw)
                sample.trim(start, stop)
                sample.rewind()
            a, b = start, stop
            take = []
            requested = 0
            for op in hist:
                if op == 'rewind':
                    sample.rewind()
                    take, requested = [], 0
                elif op == 'trim':
                    a, b = (a + 1, b) if b - a > 2 else (0, length)
                    sample.trim(a, b)
                    sample.rewind()
                    take, requested = [], 0
                else:
                    out = sample.callback(nFrames=op) if mode == 'callback' else sample.read(op)
                    out = frames(out, channels)
                    require(len(out) <= op, '%s %s: %d frames instead of %d', case, hist, len(out), op)
                    requested += op
                    take.append(out.copy())
                    got = np.concatenate(take)
                    require(acceptable(got, data, a, b, loop, requested, mode),
                            '%s via %s, %s: region [%d, %d) played as %s', case, via, hist, a, b,
                            (got * 1024).round(3).tolist())
                ctx.step()
                ctx.state(mode, channels, length, loop, a, b, requested)
            ctx.trace()
    require((data == keep).all(), '%s: sample data modified', case)
    ctx.outcome(mode, channels, loop, start, stop)


def trimming_cases(tier):
    length = 6 if tier == 'thorough' else 4
    for mode in ('callback',) + CRUDE:
        for channels in (1, 2):
            for loop in (False, True):
                for first in regions(length):
                    yield [mode, channels, length, loop, *first]


def trimming_run(case, ctx):
    """Trimming while playing, starting without rewind."""
    mode, channels, length, loop, start, stop = case
    data = make_data(length, channels)
    kw = {} if mode == 'callback' else {'mode': mode}
    ops = [('read', 1), ('read', 3)] + [('trim', region) for region in regions(length)] + [('rewind', 0)]
    for hist in sequences(ops, 4 if ctx.thorough else 3):
        sample = Sample(SAMPLING_RATE, data, start=start, stop=stop, loop=loop, **kw)
        a, b = start, stop
        # At the seam of a loop it is free whether the sample is at its end or at its start again
        positions = {start}
        for op, arg in hist + (('read', 2), ('read', 9)):
            if op == 'trim':
                a, b = arg
                sample.trim(a, b)
                positions = {min(max(position, a), b) for position in positions}
            elif op == 'rewind':
                sample.rewind()
                positions = {a}
            else:
                got = frames(sample.callback(nFrames=arg) if mode == 'callback' else sample.read(arg), channels)
                after = set()
                for position in positions:
                    want = []
                    for _ in range(arg):
                        if position >= b:
                            if not loop:
                                break
                            position = a
                        want.append(data[position])
                        position += 1
                    if len(got) == len(want) and (not want or np.array_equal(got, np.array(want).reshape(len(want), -1))):
                        after |= {position} | ({a} if loop and position == b else set())
                require(after, '%s, %s: region [%d, %d) played as %s from frame %s on', case, hist, a, b, (got * 1024).round(3).tolist(), positions)
                positions = after
                if not loop:
                    position, = positions
                    require(bool(sample.playing) == (position < b), '%s, %s: playing is %s at frame %d of [%d, %d)', case, hist, sample.playing, position, a, b)
            ctx.step()
            ctx.state(mode, channels, loop, a, b, tuple(sorted(positions)))
        ctx.trace()
    ctx.outcome(mode, channels, loop, start, stop)


def long_cases(tier):
    quick = tier == 'quick'
    lengths = (1, 255, 256, 257, 600) if quick else (1, 2, 128, 255, 256, 257, 511, 512, 513, 600, 769, 1024, 1500)
    for mode in ('callback',) + CRUDE + LATENT:
        for channels in (1, 2):
            for regionLength in lengths:
                if mode in LATENT and regionLength % BUFFER_SIZE == 1:
                    continue
                for start in (0, 1, 100):
                    for loop in (False, True):
                        yield [mode, channels, regionLength, start, loop]


def long_run(case, ctx):
    """Region lengths around the buffer size, read sizes around it."""
    mode, channels, regionLength, start, loop = case
    length = start + regionLength + 7
    data = make_data(length, channels)
    stop = start + regionLength
    kw = {} if mode == 'callback' else {'mode': mode}
    sample = Sample(SAMPLING_RATE, data, start=start, stop=stop, loop=loop, **kw)
    sizes = (1, 100, 255, 256, 257, 600)
    for seq in itertools.product(sizes, repeat=3 if not ctx.thorough else 4):
        sample.rewind()
        take = []
        requested = 0
        for n in seq:
            out = frames(sample.callback(nFrames=n) if mode == 'callback' else sample.read(n), channels)
            requested += n
            take.append(out.copy())
            ctx.step()
        got = np.concatenate(take)
        require(acceptable(got, data, start, stop, loop, requested, mode),
                '%s: reads %s gave %d frames, starting %s ... %s', case, seq, len(got),
                (got[:4] * 1024).round(2).tolist(), (got[-4:] * 1024).round(2).tolist())
        ctx.trace()
        ctx.state(*case, seq)
    # Until its end
    if not loop:
        for n in (1, 64, 256, 1000):
            sample.rewind()
            take = []
            for _ in range(regionLength // n + 3):
                out = frames(sample.callback(nFrames=n) if mode == 'callback' else sample.read(n), channels)
                take.append(out.copy())
            require(len(out) == 0, '%s: does not end', case)
            got = np.concatenate(take)
            require(acceptable(got, data, start, stop, loop, n * len(take), mode), '%s: reads of %d', case, n)
            require(not sample.playing, '%s: still playing', case)
            ctx.trace()
    ctx.outcome(*case)


def sinc_cases(tier):
    for mode in SINC:
        for channels in (1, 2):
            for regionLength in ((300, 600) if tier == 'quick' else (256, 300, 512, 600, 1111)):
                for n in (100, 256, 1000):
                    for loop in (False, True):
                        yield [mode, channels, regionLength, n, loop]


def sinc_run(case, ctx):
    """Band limited modes: right number of frames, right frames (slow sine wave), reproducible after rewind."""
    mode, channels, regionLength, n, loop = case
    start = 50
    period = regionLength / 4.
    t = np.arange(regionLength + 100) - start
    data = np.stack([.5 * np.sin(2 * np.pi * t / period + c) for c in range(channels)], axis=1)
    sample = Sample(SAMPLING_RATE, data, start=start, stop=start + regionLength, loop=loop, mode=mode)
    takes = []
    for _ in range(2):
        sample.rewind()
        take = [frames(sample.read(n), channels).copy() for _ in range(2 * regionLength // n + 2)]
        takes.append(np.concatenate(take))
        ctx.step(len(take))
    got = takes[0]
    require(np.array_equal(takes[0], takes[1]), '%s: different after rewind', case)
    total = n * (2 * regionLength // n + 2)
    want = region_stream(data, start, start + regionLength, loop, total)
    require(len(got) == len(want) if loop else abs(len(got) - len(want)) <= 1, '%s: %d frames', case, len(got))
    m = min(len(got), len(want))
    margin = 60
    err = np.abs(got[margin:m - margin] - want[margin:m - margin]).max()
    require(err < .02, '%s: off by %g', case, err)
    ctx.trace(2)
    ctx.state(*case)
    ctx.outcome(*case)


# -- Audio file block -----------------------------------------------------------

def write_file(data, rate=SAMPLING_RATE):
    """16 bit wave file of frames (values are exact)."""
    ints = np.round(data * 32768).astype(np.int16)
    fd, path = tempfile.mkstemp('.wav', dir=os.environ['VERIF_SCRATCH'])
    os.close(fd)
    with wave.open(path, 'wb') as f:
        f.setnchannels(data.shape[1])
        f.setsampwidth(2)
        f.setframerate(rate)
        f.writeframes(np.ascontiguousarray(ints).tobytes())
    return path


def file_data(length, channels):
    base = (np.arange(length) + 1) * 4 / 32768.
    return np.stack([base * (1 if c % 2 == 0 else -1) + c / 32768. for c in range(channels)], axis=1)


def file_cases(tier):
    quick = tier == 'quick'
    for mode in CRUDE[:1] + LATENT[:1] if quick else CRUDE + LATENT:
        for channels, mono in ((1, False), (2, False), (2, True), (3, True)) + (() if quick else ((3, False), (4, True))):
            for length, start, stop in ((300, 0, None), (256, 0, None), (520, 4, 516)) + (
                    () if quick else ((100, 0, None), (800, 100, 357), (512, 0, None), (700, 0, 1))):
                if mode in LATENT and ((stop or length) - start) % BUFFER_SIZE == 1:
                    continue
                for loop in (False, True):
                    yield [mode, channels, mono, length, start, stop, loop]


FILE_OPS = ('play', 'pause', 'rewind', 'stop', 'update')


def file_run(case, ctx):
    """All histories of transport operations on an audio file block."""
    mode, channels, mono, length, start, stop, loop = case
    data = file_data(length, channels)
    path = write_file(data)
    if mono:
        data = data.mean(axis=1).reshape((-1, 1))
    nOut = data.shape[1]
    if stop is None:
        stop = length
    depth = 6 if ctx.thorough else 5
    try:
        for hist in itertools.product(FILE_OPS, repeat=depth):
            if 'update' not in hist:
                continue
            block = AudioFile(path, mono=mono, mode=mode, start=start, stop=stop, loop=loop)
            block.rewind()
            playing = False
            maybe = False  # Everything played in full buffers; block may or may not have stopped by itself already
            take = []
            for op in hist + ('play', 'update', 'update', 'update', 'update'):
                if op == 'play':
                    block.play()
                    playing, maybe = True, False
                elif op == 'pause':
                    block.pause()
                    playing = False
                elif op == 'rewind':
                    block.rewind()
                    take = []
                elif op == 'stop':
                    block.stop()
                    playing = False
                    take = []
                else:
                    block.update()
                    out = np.atleast_2d(np.array(block.output.value))
                    require(out.shape == (nOut, BUFFER_SIZE), '%s %s: output shape %s', case, hist, out.shape)
                    ended = not loop and len(take) * BUFFER_SIZE >= stop - start
                    if not playing or (maybe and not block.playing and ended):
                        require(not out.any(), '%s %s: not silent when paused or stopped', case, hist)
                    elif maybe and ended:
                        require(not out.any(), '%s %s: sounds after its end', case, hist)
                    else:
                        played = np.concatenate(take + [out.T])
                        check_file(case, hist, played, data, start, stop, loop, mode, len(take))
                        take.append(out.T)
                    if playing and not loop:
                        done = len(take) * BUFFER_SIZE
                        if done > stop - start:
                            require(not block.playing, '%s %s: still playing after its end', case, hist)
                            playing = False
                        elif done == stop - start:
                            maybe = True
                    if playing and not maybe:
                        require(block.playing, '%s %s: stopped before its end', case, hist)
                if maybe and take and not block.playing:
                    playing = False
                if not take:
                    maybe = False
                ctx.step()
                ctx.state(str(case), len(take), playing)
            ctx.trace()
    finally:
        os.remove(path)
    ctx.outcome(str(case))


def check_file(case, hist, played, data, start, stop, loop, mode, nBefore):
    """All buffers played since last rewind: region, then silence."""
    n = len(played)
    region = data[start:stop]
    if loop:
        require(acceptable(played, data, start, stop, True, n, mode), '%s %s: does not play its loop', case, hist)
        return
    if n <= len(region):
        require(acceptable(played, data, start, stop, False, n, mode), '%s %s: does not play its region', case, hist)
        return
    ok = False
    for m in (len(region), len(region) + 1):
        if m <= n and not played[m:].any():
            ok = ok or acceptable(played[:m], data, start, stop, False, n, mode)
    require(ok, '%s %s: end of region wrong, buffer %d starts with %s', case, hist, nBefore,
            (played[nBefore * BUFFER_SIZE:][:3] * 8192).tolist())


def rate_cases(tier):
    for rate in (11025, 22050, 44100, 48000, 88200):
        for mode in CRUDE + LATENT + SINC:
            for channels in (1, 2):
                for length in ((200, 1000) if tier == 'quick' else (64, 127, 200, 256, 511, 512, 1000, 1538, 3000)):
                    yield [rate, mode, channels, length]


def rate_run(case, ctx):
    """Resampled files: everything is played, once, in order, and the block stops by itself."""
    rate, mode, channels, length = case
    ramp = np.linspace(.25, .75, length)
    data = np.stack([ramp] * channels, axis=1)
    path = write_file(data, rate)
    try:
        block = AudioFile(path, mode=mode)
    finally:
        os.remove(path)
    ratio = SAMPLING_RATE / rate
    want = length * ratio
    takes = []
    for _ in range(2):
        block.rewind()
        block.play()
        out = []
        for _ in range(int(want / BUFFER_SIZE * 1.02) + 3):
            block.update()
            x = np.atleast_2d(np.array(block.output.value))
            require(x.shape == (channels, BUFFER_SIZE), '%s: output shape %s', case, x.shape)
            out.append(x)
            ctx.step()
            if not block.playing:
                break
        require(not block.playing, '%s: does not stop at its end', case)
        block.update()
        require(not np.any(block.output.value), '%s: not silent after its end', case)
        takes.append(np.concatenate(out, axis=1))
        ctx.trace()
    got = takes[0]
    require(np.array_equal(*takes), '%s: second playback differs', case)
    for x in got:
        sounding = np.flatnonzero(np.abs(x) > .125)
        n = len(sounding)
        require(abs(n - want) <= 3 + 2 * ratio + .01 * want, '%s: %d samples instead of %g', case, n, want)
        require(sounding[-1] - sounding[0] == n - 1, '%s: gap', case)
        if mode not in SINC:
            body = x[:n - int(ratio) - 1] if mode in LATENT else x[:n]
            require((np.diff(body) >= -1e-6).all(), '%s: out of order', case)
            require(abs(body[0] - .25) < .01 and abs(body[-1] - .75) < .02 + 1.5 / length, '%s: starts %g, ends %g', case, body[0], body[-1])
            ideal = .25 + .5 * np.arange(len(body)) / max(want, 1)
            require(np.abs(body - ideal).max() < .02 + 3. / length, '%s: wrong tempo', case)
    ctx.state(*case)
    ctx.outcome(*case)


def speed_cases(tier):
    for mode in CRUDE + LATENT + SINC[:1]:
        for channels in (0, 1, 2):
            for rate in (SAMPLING_RATE // 2, SAMPLING_RATE, 2 * SAMPLING_RATE):
                for loop in (False, True):
                    yield [mode, channels, rate, loop]


def speed_run(case, ctx):
    """Other speeds skip or repeat frames proportionally, from the read in which they change."""
    mode, channels, rate, loop = case
    speeds = (1., 2., 4., .5) if mode in CRUDE else (1., 2., .5)
    base = rate / SAMPLING_RATE
    length = 50 if mode in CRUDE else 1 << 14
    data = make_data(length, channels)
    for hist in sequences([(s, n) for s in speeds for n in ((4, 12) if mode in CRUDE else (600,))], 4 if ctx.thorough or mode not in CRUDE else 3):
        if mode not in CRUDE and sum(s * n * base for s, n in hist) > length - 1000:
            continue
        sample = Sample(rate, data, playbackSpeed=hist[0][0], loop=loop, mode=mode)
        pos = 0.
        for i, (speed, n) in enumerate(hist):
            if i and hist[i - 1][0] != speed:
                sample.set_playback_speed(speed)
            out = frames(sample.read(n), channels)
            step = speed * base
            what = '%s: reads %s: read %d' % (case, hist, i)
            if mode in CRUDE:
                count = int(n * step)
                left = count if loop else min(count, length - int(pos))
                want = n if left == count else int(left / step)
                require(abs(len(out) - want) <= (left != count), '%s: %d frames instead of %d', what, len(out), want)
                if left == count:
                    at = pos + np.arange(n) * step
                    whole = at == np.floor(at)
                    idx = at[whole].astype(int) % length if loop else at[whole].astype(int)
                    require(np.array_equal(out[whole], data.reshape((length, -1))[idx]), '%s: wrong frames', what)
                elif not left:
                    require(len(out) == 0, '%s: frames behind the end', what)
                pos += left
                if loop:
                    pos %= length
            else:
                require(len(out) == n, '%s: %d frames', what, len(out))
                half = n - n // 2 - 1
                slope = (out[-1, 0] - out[n // 2, 0]) / half * 1024.
                require(abs(slope - step) * half < 2.5, '%s: plays at %.3f frames per frame instead of %.3f', what, slope, step)
            ctx.step()
        ctx.state(str(case), hist)
        ctx.trace()
    ctx.outcome(str(case))


FAMILIES = [
    Family('regions', sample_cases, sample_run, lambda tier: (
        'callback / crude / very crude / linear / zero order hold x 1-D, column and stereo data x all regions of samples '
        'up to %d frames x loop on/off: all sequences of %d operations (read 1, 2, 3, 8 frames, rewind, trim)' % ((4, 4) if tier == 'quick' else (7, 5)))),
    Family('trimming', trimming_cases, trimming_run, lambda tier: '%d frames, crude modes and sample source: all first regions x all sequences of %d operations (read 1 or 3 frames, all regions to trim to while playing, rewind), then reading to the end' % ((6, 4) if tier == 'thorough' else (4, 3))),
    Family('bufferSizes', long_cases, long_run, 'region lengths around multiples of the buffer size x start x loop x all sequences of 3 (4) read sizes from 1..600; reading to the end in 4 sizes'),
    Family('sinc', sinc_cases, sinc_run, 'band limited modes: frame count, frames of a slow sine, rewind'),
    Family('audioFile', file_cases, file_run, lambda tier: (
        'wave files (mono, stereo, 2 and 3 channels summed to mono) x regions x loop x modes: all histories of %d play / pause / rewind / stop / update' % (5 if tier == 'quick' else 6))),
    Family('speeds', speed_cases, speed_run, '5 modes x 3 sampling rates x loop x 1-D, column and stereo data: all histories of 3 (4) reads and speed changes'),
    Family('fileRates', rate_cases, rate_run, 'wave files of 5 sampling rates x 7 resampling modes x 1-2 channels x lengths, played to their end twice'),
]
ASSUMPTIONS = [
    'libsamplerate modes may delay the frames by one frame (its interpolators repeat the first frame); the band limited ones are compared away from the region edges only',
    'regions of 256 * n + 1 frames are not checked in libsamplerate linear / hold modes (it reads in front of chunks of a single frame)',
    'in the interpolating modes trimming during playback is followed by a rewind (frames already fetched by the resampler still sound otherwise)',
]
