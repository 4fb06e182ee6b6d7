"""P01: connection graph consistency under every patch history (explicit-state exploration).

Model: a map input -> source. The universe holds both kinds of connectables; every ordered pair of
objects is tried with connect and disconnect, called on either of them.
"""
import itertools

from mc import Family, Violation, require, expect_raises
from klang.block import Block
from klang.connections import (
    Output, Relay, Input, MessageOutput, MessageRelay, MessageInput, is_connected, are_connected,
)

UNIVERSES = {
    'value': ('O0', 'O1', 'R0', 'R1', 'I0', 'I1'),
    'message': ('o0', 'o1', 'r0', 'r1', 'i0', 'i1'),
    'mixed': ('O0', 'R0', 'I0', 'o0', 'r0', 'i0'),
    'chain': ('O0', 'R0', 'R1', 'R2', 'I0'),
}
TYPES = {'O': Output, 'R': Relay, 'I': Input, 'o': MessageOutput, 'r': MessageRelay, 'i': MessageInput}


def make(names):
    return {n: TYPES[n[0]](owner=Block(name=n)) for n in names}


def can_source(n):
    return n[0] in 'ORor'


def can_sink(n):
    return n[0] in 'RIri'


def same_kind(a, b):
    return a[0].isupper() == b[0].isupper()


def direction(a, b):
    """(source, sink) meant by a.connect(b), or None when it can not be meant."""
    if a[0] in 'Oo':
        pair = (a, b)
    elif a[0] in 'Ii':
        pair = (b, a)
    else:  # Relay: towards anything that takes input, otherwise from it
        pair = (a, b) if can_sink(b) else (b, a)
    src, dst = pair
    if can_source(src) and can_sink(dst) and same_kind(src, dst):
        return pair
    return None


def makes_loop(state, src, dst):
    """Would src -> dst close a loop of relays? (outside the quantifier: reads never end)."""
    seen = src
    while seen is not None:
        if seen == dst:
            return True
        seen = state.get(seen)
    return False


def model_step(state, op):
    """Return (new state, ok). state: dict sink -> source."""
    kind, a, b = op
    pair = direction(a, b)
    if kind == 'pipe':
        pair = (a, b) if can_source(a) and can_sink(b) and same_kind(a, b) else None
    if pair is None:
        return state, False
    src, dst = pair
    if kind in ('connect', 'pipe'):
        if dst in state:
            return state, False
        new = dict(state)
        new[dst] = src
        return new, True
    if state.get(dst) != src:
        return state, False
    new = dict(state)
    del new[dst]
    return new, True


def excluded(state, op):
    kind, a, b = op
    if a == b:
        return True
    pair = direction(a, b)
    if kind == 'pipe' and not (can_source(a) and can_sink(b)):
        return False
    if kind == 'pipe':
        pair = (a, b)
    return (kind != 'disconnect' and pair is not None and pair[1] not in state
            and makes_loop(state, *pair))


def apply_real(objs, op):
    """Returns (ok, returned value)."""
    kind, a, b = op
    try:
        if kind == 'connect':
            return True, objs[a].connect(objs[b])
        if kind == 'disconnect':
            return True, objs[a].disconnect(objs[b])
        from klang.block import pipe_operator
        return True, pipe_operator(objs[a], objs[b])
    except Exception:  # which error is raised is not specified
        return False, None


def observe(objs, names, state, hist):
    for n in names:
        obj = objs[n]
        incoming = n in state
        outgoing = any(src == n for src in state.values())
        if can_sink(n):
            want = objs[state[n]] if incoming else None
            require(obj.incomingConnection is want, '%s: source of %s is wrong', hist, n)
        if can_source(n):
            want = {id(objs[dst]) for dst, src in state.items() if src == n}
            got = [id(o) for o in obj.outgoingConnections]
            require(set(got) == want and len(got) == len(want), '%s: destinations of %s are wrong', hist, n)
        if n[0] in 'Oo':
            require(bool(obj.connected) == outgoing, '%s: connected flag of %s is wrong', hist, n)
        elif n[0] in 'Ii':
            require(bool(obj.connected) == incoming, '%s: connected flag of %s is wrong', hist, n)
        elif not (incoming or outgoing):
            require(not obj.connected, '%s: connected flag of unpatched relay %s is set', hist, n)
        elif incoming:
            require(bool(obj.connected), '%s: connected flag of fed relay %s is not set', hist, n)
    for a, b in itertools.permutations(names, 2):
        require(bool(is_connected(objs[a], objs[b])) == (state.get(b) == a),
                '%s: is_connected(%s, %s) is wrong', hist, a, b)
        require(bool(are_connected(objs[a], objs[b])) == (state.get(b) == a),
                '%s: are_connected(%s, %s) is wrong', hist, a, b)


def ops_of(names):
    for kind in ('connect', 'disconnect', 'pipe'):
        for a, b in itertools.permutations(names, 2):
            yield kind, a, b


def replay(names, history, observe_each=False):
    objs = make(names)
    state = {}
    for k, op in enumerate(history):
        new, ok = model_step(state, op)
        real, ret = apply_real(objs, op)
        require(real == ok, '%s: request %s %s', history[:k + 1], op,
                'should have been refused' if real else 'was refused')
        if ok and op[0] == 'pipe':
            require(ret is objs[op[2]].owner, '%s: pipe did not return the destination block', history)
        state = new
        if observe_each:
            observe(objs, names, state, history[:k + 1])
    return objs, state


def reachable(names):
    """All model states with one shortest history each (breadth first)."""
    start = ()
    seen = {start: ()}
    frontier = [start]
    order = [start]
    ops = list(ops_of(names))
    while frontier:
        nxt = []
        for key in frontier:
            state = dict(key)
            for op in ops:
                if excluded(state, op):
                    continue
                new, ok = model_step(state, op)
                k2 = tuple(sorted(new.items()))
                if ok and k2 not in seen:
                    seen[k2] = seen[key] + (op,)
                    nxt.append(k2)
                    order.append(k2)
        frontier = nxt
    return order, seen


def bfs_cases(tier):
    for uni in UNIVERSES:
        order, seen = reachable(UNIVERSES[uni])
        for key in order:
            yield [uni, [list(op) for op in seen[key]]]


def bfs_run(case, ctx):
    """From one reachable state: every operation, and every pair (failing op, op)."""
    uni, history = case
    names = UNIVERSES[uni]
    history = tuple(tuple(op) for op in history)
    _, state = replay(names, history)
    ctx.state(uni, tuple(sorted(state.items())))
    for op in ops_of(names):
        if excluded(state, op):
            continue
        hist = history + (op,)
        objs, new = replay(names, hist)
        observe(objs, names, new, hist)
        ctx.step()
        ctx.trace()
        ctx.outcome(uni, op[0], new == state, len(new))


def all_cases(tier):
    depth = 3 if tier == 'quick' else 4
    for uni in (('O0', 'R0', 'I0', 'I1'), ('o0', 'r0', 'i0', 'i1'), ('O0', 'O1', 'I0', 'r0')):
        ops = list(ops_of(uni))
        for prefix in itertools.product(ops, repeat=2):
            yield [list(uni), [list(op) for op in prefix], depth]


def all_run(case, ctx):
    """Every history of the given depth (no state merging), observed after every request."""
    names, prefix, depth = case
    prefix = tuple(tuple(op) for op in prefix)
    ops = list(ops_of(names))

    def rec(hist, state):
        if len(hist) == depth:
            objs, end = replay(names, hist, observe_each=len(hist) == depth)
            ctx.trace()
            ctx.step(depth)
            return
        for op in ops:
            if excluded(state, op):
                continue
            rec(hist + (op,), model_step(state, op)[0])

    state = {}
    for op in prefix:
        if excluded(state, op):
            return
        state, _ = model_step(state, op)
    ctx.state(tuple(sorted(state.items())))
    rec(prefix, state)


# Block level: pipe chains, reversed operands, failing pipes in the middle of a chain
def pipe_cases(tier):
    layouts = [(i, o) for i in (0, 1, 2) for o in (0, 1, 2)]
    for a in layouts:
        for b in layouts:
            for c in layouts:
                for occupied in (False, True):
                    for form in ('blocks', 'left_output', 'right_input'):
                        yield [a, b, c, occupied, form]


def pipe_run(case, ctx):
    (ai, ao), (bi, bo), (ci, co), occupied, form = case
    a, b, c = Block(ai, ao, 'a'), Block(bi, bo, 'b'), Block(ci, co, 'c')
    blocker = Block(0, 1, 'x')
    if occupied and ci:
        blocker.output.connect(c.inputs[0])
    ctx.step(2)
    ctx.trace()
    ctx.state(tuple(map(str, case)))
    ok1 = ao > 0 and bi > 0
    ok2 = ok1 and bo > 0 and ci > 0 and not occupied
    left = (a.outputs[0] if ao else a) if form == 'left_output' else a
    last = (c.inputs[0] if ci else c) if form == 'right_input' else c
    result = None
    try:
        result = left | b | last
        ok = True
    except Exception:
        ok = False
    ctx.outcome(ok, ok1, ok2)
    require(ok == ok2, '%s: piping %s', case, 'should have failed' if ok else 'failed')
    if ok:
        require(result is c, '%s: pipe does not return the rightmost block', case)
    for blk, fed in ((a, None), (b, a.outputs[0] if ok1 else None),
                     (c, b.outputs[0] if ok2 else (blocker.output if occupied and ci else None))):
        for k, inp in enumerate(blk.inputs):
            want = fed if k == 0 else None
            require(inp.incomingConnection is want, '%s: wrong source at %s input %d', case, blk, k)
    for blk, dst in ((a, b if ok1 else None), (b, c if ok2 else None), (c, None)):
        for k, out in enumerate(blk.outputs):
            want = {dst.inputs[0]} if (k == 0 and dst is not None) else set()
            require(set(out.outgoingConnections) == want, '%s: wrong destinations at %s output %d', case, blk, k)


FAMILIES = [
    Family('reachable_states', bfs_cases, bfs_run,
           'all reachable connection states of 4 universes (2 outputs, 2 relays, 2 inputs of each kind; mixed kinds; '
           'chains of 3 relays), every request from every state, breadth first to the fixpoint'),
    Family('all_histories', all_cases, all_run,
           lambda tier: 'every request history of length %d over 4 objects, 36 requests, no state merging' % (3 if tier == 'quick' else 4)),
    Family('block_pipes', pipe_cases, pipe_run, 'all 3-block pipe chains over 0-2 inputs and outputs, free and occupied'),
]
ASSUMPTIONS = ['relay loops (a relay feeding itself) are outside the quantifier: no value is defined for them']
