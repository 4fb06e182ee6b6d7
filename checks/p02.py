"""P02: value propagation through connections and relay chains (explicit-state exploration).

Model: map sink -> source and each object's own value. All operation sequences (set, connect,
disconnect) up to a depth, plus every reachable (patch, values) state with every operation from it.
"""
import itertools

import numpy as np

from mc import Family, require
from klang.block import Block
from klang.connections import Output, Relay, Input, MessageOutput, MessageInput

TYPES = {'O': Output, 'R': Relay, 'I': Input}
NAMES = ('O0', 'O1', 'R0', 'R1', 'I0', 'I1')
SMALL = ('O0', 'O1', 'R0', 'I0')
SMALL2 = ('O0', 'R0', 'R1', 'I0')
VALUES = [None, 1.5, np.arange(3.), np.zeros((2, 4)), 'text', [1, 2]]


def make(names):
    return {n: TYPES[n[0]](owner=Block(name=n)) for n in names}


def sinkable(n):
    return n[0] in 'RI'


def sourceable(n):
    return n[0] in 'OR'


def root(conn, n):
    while n in conn:
        n = conn[n]
    return n


def enabled(conn, names, nvals):
    for n in names:
        for v in range(nvals):
            yield ('set', n, v)
    for src in names:
        if not sourceable(src):
            continue
        for dst in names:
            if src == dst or not sinkable(dst):
                continue
            if dst not in conn:
                if root(conn, src) != dst and not loops(conn, src, dst):
                    yield ('connect', src, dst)
            elif conn[dst] == src:
                yield ('disconnect', src, dst)


def loops(conn, src, dst):
    while True:
        if src == dst:
            return True
        if src not in conn:
            return False
        src = conn[src]


def step_model(conn, vals, op):
    kind, a, b = op
    if kind == 'set':
        vals = dict(vals)
        vals[a] = b
    elif kind == 'connect':
        conn = dict(conn)
        conn[b] = a
    else:
        conn = dict(conn)
        del conn[b]
    return conn, vals


def apply_real(objs, op, values, style):
    kind, a, b = op
    if kind == 'set':
        if style:
            objs[a].value = values[b]
        else:
            objs[a].set_value(values[b])
    elif kind == 'connect':
        if style:
            objs[b].connect(objs[a]) if b[0] == 'I' else objs[a].connect(objs[b])
        else:
            objs[a].connect(objs[b])
    else:
        if style and b[0] == 'I':
            objs[b].disconnect(objs[a])
        else:
            objs[a].disconnect(objs[b])


def observe(objs, names, conn, vals, values, init, hist):
    for n in names:
        r = root(conn, n)
        want = values[vals[r]] if r in vals else init[r]
        got1 = objs[n].value
        got2 = objs[n].get_value()
        require(got1 is want and got2 is want, '%s: %s reads %r / %r, its source %s holds %r',
                hist, n, got1, got2, r, want)


def run_history(names, hist, values, style, everyStep=True):
    objs = make(names)
    init = {n: objs[n].value for n in names}
    conn, vals = {}, {}
    for k, op in enumerate(hist):
        apply_real(objs, op, values, (style + k) % 2)
        conn, vals = step_model(conn, vals, op)
        if everyStep:
            observe(objs, names, conn, vals, values, init, hist[:k + 1])
    if not everyStep:
        observe(objs, names, conn, vals, values, init, hist)
    return conn, vals


def hist_cases(tier):
    for names in (SMALL, SMALL2):
        for style in (0, 1):
            ops = list(enabled({}, names, 2))
            for op in ops:
                yield [names, style, op]


def hist_run(case, ctx):
    names, style, first = case
    depth = 5 if ctx.thorough else 4
    values = [1.25, np.ones(4)]

    def rec(hist, conn, vals):
        if len(hist) == depth:
            run_history(names, hist, values, style)
            ctx.trace()
            ctx.step(depth)
            return
        for op in enabled(conn, names, 2):
            c, v = step_model(conn, vals, op)
            ctx.state(tuple(sorted(c.items())), tuple(sorted(v.items())))
            rec(hist + (op,), c, v)

    conn, vals = step_model({}, {}, tuple(first))
    rec((tuple(first),), conn, vals)


def patches(names):
    """All reachable patch states with a history."""
    seen = {(): ()}
    frontier = [()]
    while frontier:
        nxt = []
        for key in frontier:
            conn = dict(key)
            for op in enabled(conn, names, 0):
                c, _ = step_model(conn, {}, op)
                k = tuple(sorted(c.items()))
                if k not in seen:
                    seen[k] = seen[key] + (op,)
                    nxt.append(k)
        frontier = nxt
    return seen


def patch_cases(tier):
    for key, hist in patches(NAMES).items():
        yield [hist]


def patch_run(case, ctx):
    """Any patch: set a distinct value everywhere (every order of kinds), repatch, read."""
    hist = tuple(tuple(op) for op in case[0])
    values = [object() for _ in range(2 * len(NAMES))]
    setAll = tuple(('set', n, i) for i, n in enumerate(NAMES))
    setAgain = tuple(('set', n, i + len(NAMES)) for i, n in enumerate(NAMES))
    conn = {}
    for op in hist:
        conn, _ = step_model(conn, {}, op)
    ctx.state(tuple(sorted(conn.items())))
    for pre, post in ((setAll, ()), ((), setAll), (setAll, setAgain), (setAgain[::-1], setAll)):
        for op in enabled(conn, NAMES, 0):
            h = pre + hist + post + (op,)
            run_history(NAMES, h, values, len(h) % 2, everyStep=False)
            ctx.step(len(h))
            ctx.trace()
    ctx.outcome(len(conn), len(set(root(conn, n) for n in NAMES)))


def chain_cases(tier):
    for length in range(0, 9 if tier == 'quick' else 30):
        for v in range(len(VALUES)):
            for fan in (1, 2, 3):
                yield [length, v, fan]


def chain_run(case, ctx):
    """Relay chains of any length, in any patch order, with fan-out at the end; falsy values too."""
    length, v, fan = case
    out = Output(value='old')
    relays = [Relay() for _ in range(length)]
    inputs = [Input(value=('own', k)) for k in range(fan)]
    chain = [out] + relays
    orders = [range(length)]
    if length > 1:
        orders.append(range(length - 1, -1, -1))
    for order in orders:
        for k in order:
            chain[k].connect(chain[k + 1])
        for inp in inputs:
            chain[-1].connect(inp)
        require(all(i.value == 'old' for i in inputs), 'chain %s: old value not seen', case)
        out.set_value(VALUES[v])
        for obj in chain + inputs:
            require(obj.value is VALUES[v] and obj.get_value() is VALUES[v], 'chain %s: %s does not read the source', case, obj)
        for obj in relays + inputs:
            obj.set_value('fallback')
        for obj in chain + inputs:
            require(obj.value is VALUES[v], 'chain %s: setting a connected sink changed what is read', case)
        for k, inp in enumerate(inputs):
            chain[-1].disconnect(inp)
            require(inp.value == 'fallback', 'chain %s: fallback lost', case)
            require(all(i.value is VALUES[v] for i in inputs[k + 1:]), 'chain %s: other inputs affected', case)
        for k in order:
            chain[k].disconnect(chain[k + 1])
            require(chain[k + 1].value == 'fallback', 'chain %s: relay fallback lost', case)
        out.set_value('old')
        ctx.step(2 * length + 2 * fan + 3)
    ctx.trace()
    ctx.state(*case)


FAMILIES = [
    Family('histories', hist_cases, hist_run,
           lambda t: 'all histories of length %d over 2 universes of 4 value connectables, 2 values' % (5 if t != 'quick' else 4)),
    Family('patch_states', patch_cases, patch_run,
           'all reachable patches of 2 outputs, 2 relays, 2 inputs; distinct values set before / after; every next patch operation'),
    Family('chains', chain_cases, chain_run, 'relay chains up to length 8 (thorough 29), 6 value types incl. falsy, fan-out 1-3, both patch orders'),
]
ASSUMPTIONS = ['relay loops are outside the quantifier']
