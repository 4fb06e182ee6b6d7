"""P26: drums: every history of note messages and updates on kick and hi-hat against a reference hit."""
import itertools
import math

import numpy as np

from mc import Family, require
from klang.audio.envelopes import D
from klang.audio.synthesizer import HiHat, Kick
from klang.config import BUFFER_SIZE, SAMPLING_RATE
from klang.messages import Note

DT = 1. / SAMPLING_RATE
T = DT * np.arange(BUFFER_SIZE)


def on(pitch=60, velocity=1.):
    return Note(pitch, velocity)


def off(pitch=60):
    return Note(pitch, 0.)


MESSAGES = [(), (on(),), (off(),), (on(), off()), (on(36, .3), on(40)), (off(), on())]
KICKS = [{}, dict(frequency=33., decay=1.2, pitchDecay=.8), dict(frequency=80., decay=.05, intensity=5, pitchDecay=.02), dict(frequency=120., decay=.3, intensity=0., pitchDecay=.1)]


def play(drum, messages):
    """One audio buffer."""
    for note in messages:
        drum.input.push(note)
    drum.update()
    return np.array(drum.output.get_value(), dtype=float)


def is_hit(messages):
    return any(note.velocity > 0 for note in messages)


def reference(kwargs, n):
    """Hit of a fresh kick."""
    kick = Kick(**kwargs)
    return [play(kick, [on()])] + [play(kick, []) for _ in range(n - 1)]


def kick_cases(tier):
    for ki in range(len(KICKS)):
        for first in itertools.product(range(len(MESSAGES)), repeat=2):
            yield [ki, *first]


def kick_run(case, ctx):
    """All histories: silent before the first hit, then always the reference hit."""
    ki, *first = case
    depth = 6 if ctx.thorough else 4
    ref = reference(KICKS[ki], depth)
    for tail in itertools.product(range(len(MESSAGES)), repeat=depth - 2):
        history = first + list(tail)
        kick, other = Kick(**KICKS[ki]), Kick(**KICKS[ki])
        since = None
        outs = []
        for step, mi in enumerate(history):
            since = 0 if is_hit(MESSAGES[mi]) else (None if since is None else since + 1)
            got = play(kick, MESSAGES[mi])
            want = np.zeros(BUFFER_SIZE) if since is None else ref[since]
            require(got.shape == (BUFFER_SIZE,), 'kick %s: shape %s', KICKS[ki], got.shape)
            require(np.allclose(got, want, rtol=0, atol=1e-9), 'kick %s, messages %s: buffer %d is %s, %s', KICKS[ki], history, step,
                    'not silent' if since is None else 'not buffer %d of a hit' % since, 'peak %.3g' % np.abs(got).max())
            silent = play(other, [])
            require(not silent.any(), 'kick %s, messages %s: another kick sounds', KICKS[ki], history)
            outs.append((kick.output.get_value(), got))
            ctx.step()
            ctx.state(ki, since, mi)
        for buf, copied in outs:
            require(np.array_equal(buf, copied), 'kick %s: an output buffer changed afterwards', KICKS[ki])
        ctx.trace()
        ctx.outcome(ki, tuple(history))


def ring_cases(tier):
    for ki in range(len(KICKS)):
        for gap in (0, 1, 3, 40):
            yield [ki, gap]


def ring_run(case, ctx):
    """Envelope, pitch and continuity of a whole hit, the first one and one struck while ringing."""
    ki, gap = case
    params = dict(frequency=40., decay=.8, intensity=2, pitchDecay=.3)
    params.update(KICKS[ki])
    freq, decay, intensity, pitchDecay = (params[k] for k in ('frequency', 'decay', 'intensity', 'pitchDecay'))
    kick = Kick(**KICKS[ki])
    for i in range(gap):
        play(kick, [on()] if i == 0 else [])
    n = int(5 * decay * SAMPLING_RATE / BUFFER_SIZE) + 2
    signal = np.concatenate([play(kick, [on()] if i == 0 else [off()] if i == 2 else []) for i in range(n)])
    t = DT * np.arange(len(signal))
    env = np.exp(-math.pi * t / decay)
    require(np.all(np.abs(signal) <= env + 1e-9), 'kick %s: louder than its decay', params)
    wave = signal / env
    top = freq * (1. + intensity)
    require(signal[0] == 0, 'kick %s: starts with %s', params, signal[0])
    first = math.asin(min(1., wave[1])) / (2 * math.pi * DT)
    require(abs(first - top) < .02 * top + 1., 'kick %s: starts with %.1f Hz instead of %.1f Hz', params, first, top)
    # Phase is the integral of the exponentially falling pitch
    phase = 2 * math.pi * freq * (t + intensity * pitchDecay / math.pi * (1. - np.exp(-math.pi * t / pitchDecay)))
    error = np.abs(wave - np.sin(phase))
    allowed = .01 + 2 * math.pi * freq * intensity * DT
    require(error.max() <= allowed, 'kick %s: sample %d deviates by %.3f from the falling pitch', params, int(error.argmax()), error.max())
    jumps = np.abs(np.diff(wave))
    require(jumps.max() <= 2 * math.pi * top * DT * 1.2, 'kick %s: jump of %.3f at sample %d', params, jumps.max(), int(jumps.argmax()) + 1)
    # Late in the hit there is only the base frequency left
    late = t > min(3. * pitchDecay, .5 * t[-1])
    crossings = np.nonzero((wave[late][:-1] < 0) & (wave[late][1:] >= 0))[0]
    if len(crossings) > 3 and t[late][0] >= 3. * pitchDecay - DT:
        rate = (len(crossings) - 1) / ((crossings[-1] - crossings[0]) * DT)
        require(abs(rate - freq) < .02 * freq, 'kick %s: ends with %.2f Hz instead of %.2f Hz', params, rate, freq)
    # The envelope is reached in every period
    period = int(1.1 / freq / DT)
    for start in range(0, len(wave) - period, period):
        require(np.abs(wave[start:start + period]).max() > .98, 'kick %s: quieter than its decay at %.3f s', params, t[start])
        ctx.step()
    ctx.state(ki, gap)
    ctx.trace()
    ctx.outcome(round(first), len(crossings))


DECAYS = [.05, .004, .01, .2]


def hihat_cases(tier):
    for di in range(len(DECAYS)):
        for looped in (0, 1):
            for first in range(len(MESSAGES)):
                yield [di, looped, first]


def hihat_run(case, ctx):
    """All histories: noise under the decay envelope driven by the same messages."""
    di, looped, first = case
    decay = DECAYS[di]
    depth = 5 if ctx.thorough else 4
    nMax = math.ceil(decay * SAMPLING_RATE / BUFFER_SIZE) + 2
    for tail in itertools.product(range(len(MESSAGES)), repeat=depth - 1):
        history = [first] + list(tail) + [2] + (nMax if sum(tail) % 7 == 0 else 0) * [0]
        hat, other, env = HiHat(decay, loopedNoise=bool(looped)), HiHat(decay), D(decay)
        noises = []
        gate, armed = False, False
        for step, mi in enumerate(history):
            for note in MESSAGES[mi]:
                armed = armed or note.on
            level = play(env, MESSAGES[mi])
            got = play(hat, MESSAGES[mi])
            require(got.shape == (BUFFER_SIZE,), 'hi-hat: shape %s', got.shape)
            require(np.all(np.abs(got) <= level + 1e-12), 'hi-hat %s s, messages %s: buffer %d is louder than its envelope', decay, history, step)
            if not armed:
                require(not got.any(), 'hi-hat %s s, messages %s: sounds in buffer %d before it is struck', decay, history, step)
            strikes = [note.on for note in MESSAGES[mi]]
            struck = bool(strikes) and strikes[-1] and not (gate and all(strikes))
            if struck:
                require(np.abs(got[:BUFFER_SIZE // 4]).max() > .3 * level[:BUFFER_SIZE // 4].max() > .1, 'hi-hat %s s, messages %s: not struck in buffer %d', decay, history, step)
            if strikes:
                gate = strikes[-1]
            loud = level > 1e-6
            if loud.sum() > 20:
                noise = got[loud] / level[loud]
                require(noise.max() > .3 and noise.min() < -.3, 'hi-hat %s s: no noise in buffer %d of %s', decay, step, history)
                require(abs(np.corrcoef(noise[:-1], noise[1:])[0, 1]) < .9, 'hi-hat %s s: no noise in buffer %d of %s', decay, step, history)
            if loud.all():
                noises.append(got / level)
            require(not play(other, []).any(), 'another hi-hat sounds')
            ctx.step()
        if len(history) > depth + 1:
            require(not got.any(), 'hi-hat %s s, messages %s: still sounds after its decay', decay, history)
        for a, b in zip(noises, noises[1:]):
            require(np.allclose(a, b, atol=1e-6) == bool(looped), 'hi-hat: noise %s', 'not looped' if looped else 'repeats')
        ctx.state(di, looped, tuple(history))
        ctx.trace()
        ctx.outcome(tuple(history))


FAMILIES = [
    Family('kick', kick_cases, kick_run, lambda tier: '4 kicks, all histories of %d buffers over 6 message batches' % (4 if tier == 'quick' else 6)),
    Family('ring', ring_cases, ring_run, 'decay, pitch and continuity of whole hits, fresh and struck while ringing'),
    Family('hihat', hihat_cases, hihat_run, lambda tier: '4 decay times, looped or not, all histories of %d buffers over 6 message batches' % (4 if tier == 'quick' else 5)),
]
ASSUMPTIONS = [
    'pitches above 0 (pitch 0 is a rest for the drums)',
    'the envelope of the hi-hat is the decay envelope checked by P09',
]
