"""P09: envelopes. All gate histories against a stage machine; C, Python and block versions."""
import copy
import importlib.util
import itertools
import math
import sys

import numpy as np

from mc import Family, require, compositions, sequences
from klang.audio import envelope as py_mod
from klang.audio import envelopes
from klang.audio._envelope import Envelope as CEnvelope
from klang.connections import MessageOutput
from klang.messages import Note

SR = 44100
N = 256
OFF, ATT, DEC, SUS, REL = range(5)


class Model:
    """Envelope in samples: exponential segments with overshoot, one stage machine."""

    def __init__(self, attack, decay, sustain, release, overshoot=1e-3, retrigger=False, loop=False):
        self.p = dict(attack=attack, decay=decay, sustain=sustain, release=release, overshoot=overshoot)
        self.retrigger, self.loop = retrigger, loop
        self.stage, self.value, self.enabled = OFF, 0., False
        self.ambiguous = False
        self.switches = 0

    def coef(self, which):
        rate, o = self.p[which], self.p['overshoot']
        return 0. if rate <= 0 else math.exp(-math.log((1. + o) / o) / rate)

    def go(self, stage):
        self.stage = stage
        self.switches += 1

    def gate(self, on):
        self.enabled = on
        if on:
            if self.retrigger or self.stage in (OFF, REL):
                self.go(ATT)
        elif self.stage in (ATT, DEC, SUS):
            self.go(REL)

    def step(self):
        o, s = self.p['overshoot'], self.p['sustain']
        if self.stage == OFF:
            new = 0.
        elif self.stage == ATT:
            new, limit = self.approach(1. + o, 'attack'), 1.
            if new >= limit:
                new = limit
                self.go(DEC)
        elif self.stage == DEC:
            new = self.approach(s - o, 'decay')
            if new <= s:
                new = s
                self.go(REL if self.loop else SUS)
        elif self.stage == SUS:
            new = s
        else:
            new = self.approach(-o, 'release')
            if new <= 0.:
                new = 0.
                self.go(ATT if self.loop and self.enabled else OFF)
        self.value = new
        return new

    def approach(self, target, which):
        c = self.coef(which)
        new = target + (self.value - target) * c
        limit = {'attack': 1., 'decay': self.p['sustain'], 'release': 0.}[which]
        if abs(new - limit) < 1e-8 and c > 0.:
            self.ambiguous = True       # within rounding of the threshold: either side is right
        return new

    def sample(self, n):
        return [self.step() for _ in range(n)]

    @property
    def active(self):
        return self.stage != OFF


GATES = {'-': (), '+': (True,), '.': (False,), '+.': (True, False), '.+': (False, True), '++': (True, True)}


def c_env(p, o, retrigger, loop, dt=1.):
    a, d, s, r = p
    return CEnvelope(a * dt, d * dt, s, r * dt, dt, o, retrigger, loop)


def check_history(case, env, model, steps, ctx, setter=None):
    """Drive compiled envelope and model; exact comparison."""
    for i, (gates, n) in enumerate(steps):
        if gates in GATES:
            for g in GATES[gates]:
                env.gate(g)
                model.gate(g)
        else:
            attr, value = gates
            setattr(env, attr, value)
            model.p[attr] = value
        require(bool(env.active) == model.active, '%s: step %d: active is %s after gate', case, i, env.active)
        got = env.sample(n).tolist()
        want = model.sample(n)
        if model.ambiguous:
            return None
        for k, (g, w) in enumerate(zip(got, want)):
            require(abs(g - w) < 1e-7, '%s: step %d sample %d is %r, expected %r', case, i, k, g, w)
            require(0. <= g <= 1., '%s: step %d: level %r', case, i, g)
        require(len(got) == n, '%s: %d samples instead of %d', case, len(got), n)
        require(bool(env.active) == model.active, '%s: step %d: active is %s, expected %s', case, i, env.active, model.active)
        ctx.state(model.stage, round(model.value, 9), model.enabled, str(case[:4]))
        ctx.step()
    ctx.trace()
    return got


def finish(case, env, model, total):
    """After the last gate off everything comes to rest."""
    env.gate(False)
    model.gate(False)
    tail = env.sample(int(total) + 2).tolist()
    require(tail[-1] == 0. and not env.active, '%s: did not come to rest: %r, active %s', case, tail[-1], env.active)
    require(not any(env.sample(5)), '%s: not silent at rest', case)


GRID = [p for p in itertools.product((0., 3.4), (0., 4.3), (0., .5, 1.), (0., 5.2))]
LETTERS = [(g, n) for g in ('-', '+', '.', '+.', '.+', '++') for n in (2, 5)]


def grid_cases(tier):
    for p in GRID:
        for o in (1e-3, 1.):
            for retrigger in (False, True):
                for loop in (False, True):
                    for first in range(len(LETTERS)):
                        yield [list(p), o, retrigger, loop, first]


def grid_run(case, ctx):
    p, o, retrigger, loop, first = case
    for rest in sequences(LETTERS, 3 if not ctx.thorough else 4):
        steps = (LETTERS[first],) + rest
        env, model = c_env(p, o, retrigger, loop), Model(*p, o, retrigger, loop)
        if check_history(case + [steps], env, model, steps, ctx) is not None:
            finish(case + [steps], env, model, p[3])
    ctx.outcome(str(case))


def deep_cases(tier):
    for p in ((3.4, 4.3, .5, 5.2), (6.3, 0., 1., 2.7), (0., 7.6, 0., 7.6), (0., 0., 1., 4.4)):
        for o in (1e-3, 1e-6, .3, 100.):
            for retrigger in (False, True):
                for loop in (False, True):
                    for first in sequences(range(6), 2):
                        yield [list(p), o, retrigger, loop, list(first)]


def deep_run(case, ctx):
    p, o, retrigger, loop, first = case
    letters = [('-', 3), ('+', 3), ('.', 3), ('+', 7), ('.', 7), ('.+', 4)]
    for rest in sequences(letters, 3 if not ctx.thorough else 5):
        steps = tuple(letters[i] for i in first) + rest
        env, model = c_env(p, o, retrigger, loop), Model(*p, o, retrigger, loop)
        if check_history(case + [steps], env, model, steps, ctx) is not None:
            finish(case + [steps], env, model, p[3])
    ctx.outcome(str(case))


def chunk_cases(tier):
    total = 10 if tier == 'quick' else 12
    for p in ((3.4, 2.3, .5, 3.2), (0., 4.6, 0., 4.6)):
        for retrigger, loop in itertools.product((False, True), repeat=2):
            for on in range(0, 3):
                for off in range(on, total):
                    for again in list(range(off, total)) + [99]:
                        yield [list(p), retrigger, loop, total, on, off, again]


def chunk_run(case, ctx):
    """The same gates at the same sample times; all cuts into buffers."""
    p, retrigger, loop, total, on, off, again = case
    gates = [(on, True), (off, False), (again, True)]

    def play(cuts):
        env = c_env(p, 1e-3, retrigger, loop)
        ret = []
        active = []
        for a, b in zip(cuts, cuts[1:]):
            for t, g in gates:
                if t == a:
                    env.gate(g)
            ret.extend(env.sample(b - a).tolist())
        return ret, bool(env.active)

    must = sorted({0, total} | {t for t, _ in gates if t < total})
    ref = play(must)
    for parts in compositions(total):
        cuts = [0] + list(itertools.accumulate(parts))
        if set(must) <= set(cuts):
            got = play(cuts)
            require(got == ref, '%s: cut %s gives %s instead of %s', case, parts, got, ref)
            ctx.step(len(parts))
            ctx.trace()
    ctx.state(str(case))
    ctx.outcome(tuple(ref[0]))


def setter_cases(tier):
    for p in ((3.4, 4.3, .5, 5.2), (6.3, 0., 1., 2.7)):
        for attr, values in (('attack', (0., 8.3)), ('decay', (0., 9.1)), ('release', (0., 2.2)), ('sustain', (0., .3, .9, 1.)), ('overshoot', (.5, 1e-4))):
            for value in values:
                for loop in (False, True):
                    for when in range(4):
                        yield [list(p), attr, value, loop, when]


def setter_run(case, ctx):
    p, attr, value, loop, when = case
    letters = [('-', 3), ('+', 3), ('.', 4), ('+', 6)]
    for seq in sequences(letters, 4):
        steps = list(seq)
        steps.insert(when, ((attr, value), 2))
        env, model = c_env(p, 1e-3, False, loop), Model(*p, 1e-3, False, loop)
        check_history(case + [steps], env, model, steps, ctx)
        require(abs(getattr(env, attr) - value) < 1e-12, '%s: reads back %r', case, getattr(env, attr))
    ctx.outcome(str(case))


# Whole stage durations, real sampling interval -------------------------------------------------------
def timing_cases(tier):
    for impl in ('C', 'P'):
        for a in (0, 100, 256, 500, 512, 768, 1000):
            for d in (0, 256, 700, 1000):
                for s in (0., .3, 1.):
                    for r in (0, 256, 600, 1280):
                        for o in (1e-3, 1.):
                            yield [impl, a, d, s, r, o]


def timing_run(case, ctx):
    """One gate: every stage is monotone, reaches its target and lasts no longer than its time."""
    impl, a, d, s, r, o = case
    dt = 1. / SR
    cls = CEnvelope if impl == 'C' else py_mod.Envelope
    env = cls(a * dt, d * dt, s, r * dt, dt, o)

    def run(n):
        return np.concatenate([env.sample(N) for _ in range(n)])

    y = run(1)
    require(not y.any() and not env.active, '%s: not silent before the gate', case)
    env.gate(True)
    require(env.active, '%s: inactive after gate on', case)
    y = run((a + d) // N + 2)
    require(y.min() >= 0. and y.max() <= 1. + 1e-12, '%s: leaves [0, 1]: %r .. %r', case, y.min(), y.max())
    top = int(y.argmax())
    tol = 1e-9 if impl == 'C' else 1.5 * (1. + o) * (1. - math.exp(-math.log((1. + o) / o) / max(1, min(a or 1e9, d or 1e9))))
    skipped = impl == 'P' and a == 0 and d == 0        # no attack, no decay: starts at the sustain level
    if not skipped:
        require(y[top] >= 1. - tol, '%s: attack only reaches %r', case, y[top])
        require(top <= a + 2, '%s: attack takes %d samples', case, top)
    if a > 8 and o >= .5:
        require(top >= a - 3, '%s: attack already over after %d samples', case, top)
    require((np.diff(y[:top + 1]) >= -1e-12).all(), '%s: attack not rising', case)
    require((np.diff(y[top:]) <= 1e-12).all(), '%s: decay not falling', case)
    hold = a + d + 3
    require(abs(y[hold:] - s).max() < 1e-9, '%s: does not hold the sustain level: %r', case, y[hold:][abs(y[hold:] - s).argmax()])
    y = run(3)
    require(abs(y - s).max() < 1e-9 and env.active, '%s: sustain level lost', case)
    env.gate(False)
    y = run(r // N + 2)
    require(y.min() >= 0. and y.max() <= s + 1e-9, '%s: release leaves [0, sustain]', case)
    require((np.diff(y) <= 1e-12).all(), '%s: release not falling', case)
    require(not y[r + 3:].any() and not env.active, '%s: not at rest after the release time', case)
    if s > 0 and r > 8:
        most = (1. + o) * (1. - math.exp(-math.log((1. + o) / o) / r)) + 1e-9
        require(s - y[0] <= most and (-np.diff(y)).max() <= most, '%s: release jumps', case)
    y = run(2)
    require(not y.any(), '%s: not silent at rest', case)
    ctx.step(10)
    ctx.trace()
    ctx.state(str(case))
    ctx.outcome(case[0], a, d, s, r)


# Python implementation under gate histories ----------------------------------------------------------
PY_PARAMS = [(300, 500, .5, 400), (256, 256, .25, 512), (700, 300, 0., 350), (0, 600, .4, 600), (500, 0, 1., 300), (0, 0, 1., 500), (90, 40, .6, 100)]


def python_cases(tier):
    for p in PY_PARAMS:
        for o in (1., 1e-3):
            for retrigger, loop in itertools.product((False, True), repeat=2):
                for first in range(6):
                    yield [list(p), o, retrigger, loop, first]


def python_run(case, ctx):
    """Buffer-wise gates on the Python envelope; it may lag the model by a few samples per stage change."""
    p, o, retrigger, loop, first = case
    letters = ['-', '+', '.', '+.', '.+', '++']
    times = [x for x in (p[0], p[1], p[3]) if x]
    ratio = max(times) / min(times)
    most = max((1. + o) * (1. - math.exp(-math.log((1. + o) / o) / t)) for t in times)
    instant = len(times) < 3
    for rest in sequences(letters, 2 if not ctx.thorough else 3):
        seq = (letters[first],) + rest + ('-', '-', '-')
        env = py_mod.Envelope(p[0] / SR, p[1] / SR, p[2], p[3] / SR, 1. / SR, o, retrigger, loop)
        model = Model(*p, o, retrigger, loop)
        y, m, act = [], [0.] * 1, []
        for g in seq:
            for x in GATES[g]:
                env.gate(x)
                model.gate(x)
            buf = env.sample(N)
            require(len(buf) == N, '%s: buffer of %d samples', case, len(buf))
            y.extend(buf.tolist())
            m.extend(model.sample(N))
            act.append(bool(env.active))
        what = case + [seq]
        ya = np.array(y)
        require(ya.min() >= -1e-12 and ya.max() <= 1. + 1e-12, '%s: leaves [0, 1]: %r..%r', what, ya.min(), ya.max())
        if not instant:
            require(abs(np.diff(ya)).max() <= 2 * most + 1e-9, '%s: jump of %g at sample %d', what, abs(np.diff(ya)).max(), abs(np.diff(ya)).argmax())
        w = int((2 * model.switches * ratio + 3) * (1 if o == 1. else 4)) if not loop else 60
        if loop and min(p[0] + p[1], p[3]) < 200:
            continue        # many short cycles: phase differs, only bounds are compared
        ma = np.array(m[1:])
        lo = np.array([ma[max(0, i - w):i + w + 1].min() for i in range(0, len(ma), 8)])
        hi = np.array([ma[max(0, i - w):i + w + 1].max() for i in range(0, len(ma), 8)])
        ys = ya[::8]
        slack = 1e-6 + most * (1 if not loop else 3 * model.switches)
        bad = (ys < lo - slack) | (ys > hi + slack)
        require(not bad.any(), '%s: sample %d is %r, expected within %r..%r', what, 8 * int(bad.argmax()), ys[bad.argmax()], lo[bad.argmax()], hi[bad.argmax()])
        # at rest in the end
        env.gate(False)
        for _ in range(p[3] // N + 2):
            last = env.sample(N)
        require(not env.active and last[-1] == 0., '%s: not at rest after the release', what)
        ctx.state(str(case), seq)
        ctx.step(len(seq))
        ctx.trace()
    ctx.outcome(str(case), round(float(ya.sum()), 6))


# Blocks ------------------------------------------------------------------------------------------------
def fallback_module():
    """klang.audio.envelopes as it is without the compiled extension."""
    name = 'klang.audio._envelope'
    saved = sys.modules.get(name)
    sys.modules[name] = None
    try:
        spec = importlib.util.spec_from_file_location('envelopes_without_extension', envelopes.__file__)
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
    finally:
        sys.modules[name] = saved
    return mod


MAKERS = {
    'ADSR': lambda m, kw: m.ADSR(300 / SR, 500 / SR, .5, 400 / SR, **kw),
    'ADSRd': lambda m, kw: m.ADSR(**kw),
    'AR': lambda m, kw: m.AR(300 / SR, 400 / SR, **kw),
    'D': lambda m, kw: m.D(600 / SR, **kw),
    'R': lambda m, kw: m.R(450 / SR, **kw),
}
STAGES = {'ADSR': (300, 500, .5, 400), 'ADSRd': (.1 * SR, .2 * SR, .8, 1. * SR), 'AR': (300, 0, 1., 400),
          'D': (0, 600, 0., 600), 'R': (0, 0, 1., 450)}


def block_cases(tier):
    for name in MAKERS:
        for retrigger, loop in itertools.product((False, True), repeat=2):
            for o in (1e-3, .5):
                for how in ('plain', 'copy', 'copy of copy', 'used copy', 'fallback', 'fallback copy'):
                    for first in range(5):
                        yield [name, retrigger, loop, o, how, first]


def block_run(case, ctx):
    name, retrigger, loop, o, how, first = case
    if 'fallback' in how and loop and name == 'R':
        return      # without any duration there is nothing to loop over
    letters = ['-', '+', '.', '+.', '.+']
    kw = dict(retrigger=retrigger, loop=loop, overshoot=o)
    mod = envelopes if 'fallback' not in how else fallback_module()
    on, off = Note(pitch=60, velocity=.5), Note(pitch=60, velocity=0.)
    for rest in sequences(letters, 2 if not ctx.thorough else 4):
        seq = (letters[first],) + rest + ('-',)
        orig = env = MAKERS[name](mod, kw)
        if how == 'used copy':
            env.input.push(on)
            env.update()
            env.update()
        if 'copy' in how:
            env = copy.deepcopy(env)
        if how == 'copy of copy':
            env = copy.deepcopy(env)
        require(type(env) is type(orig), '%s: copy is a %s', case, type(env))
        if 'fallback' in how:
            ref = py_mod.Envelope(*[x / SR if i != 2 else x for i, x in enumerate(STAGES[name])], overshoot=o, retrigger=retrigger, loop=loop)
        else:
            ref = Model(*STAGES[name], o, retrigger, loop)
        src = MessageOutput()
        src.connect(env.input)
        for i, g in enumerate(seq):
            for x in GATES[g]:
                src.send(on if x else off)
                ref.gate(x)
                if how != 'plain' and env is not orig:
                    orig.input.push(off)
            if env is not orig:
                orig.update()           # original and copy live independently
            env.update()
            got = np.array(env.output.value)
            want = np.array(ref.sample(N))
            if getattr(ref, 'ambiguous', False):
                break
            require(got.shape == (N,), '%s: shape %s', case, got.shape)
            err = abs(got - want)
            require(err.max() < 1e-6, '%s: gates %s buffer %d sample %d is %r, expected %r', case, seq, i, int(err.argmax()), got[err.argmax()], want[err.argmax()])
            require(abs(env.current_level - got[-1]) < 1e-12, '%s: current level', case)
            require(bool(env.active) == bool(ref.active), '%s: gates %s buffer %d: active %s', case, seq, i, env.active)
            ctx.step()
        ctx.trace()
        ctx.state(str(case), seq)
        ctx.outcome(name, how, float(got.sum()))


FAMILIES = [
    Family('grid', grid_cases, grid_run,
           lambda t: 'compiled envelope: 24 stage settings (incl. zero times) x 2 overshoots x retrigger x loop x all %d step histories of 6 gate patterns and 2 buffer sizes' % (4 if t == 'quick' else 5)),
    Family('deep', deep_cases, deep_run,
           lambda t: '4 stage settings x 4 overshoots x retrigger x loop x all histories of %d steps' % (5 if t == 'quick' else 7)),
    Family('chunkings', chunk_cases, chunk_run, 'all gate times within the first samples x all cuts into buffers'),
    Family('setters', setter_cases, setter_run, 'stage parameters changed at any step of all histories of 4 steps'),
    Family('timing', timing_cases, timing_run, 'all combinations of whole stage times around the buffer size, both implementations'),
    Family('python', python_cases, python_run,
           lambda t: 'Python envelope: 7 stage settings x 2 overshoots x retrigger x loop x all gate histories of %d buffers, continued for 3 more' % (3 if t == 'quick' else 4)),
    Family('blocks', block_cases, block_run, 'ADSR, AR, D, R blocks, their copies and their fallback without the extension x gate messages'),
]
ASSUMPTIONS = ['gates change between buffers', 'a looping Python envelope has at least one stage of a sample or more']
