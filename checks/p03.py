"""P03: message delivery. Sequential histories against a queue model, and all interleavings of
sending and receiving threads (line granularity, bounded preemptions) on the real code."""
import itertools

from mc import Family, Violation, require
from sched import explore, DIVERGED
from klang.block import Block
from klang.connections import MessageOutput, MessageRelay, MessageInput, Input, Output
from klang.keyboard import Keyboard

MAX = 50
TYPES = {'o': MessageOutput, 'r': MessageRelay, 'i': MessageInput}
UNIVERSES = [('o0', 'o1', 'i0', 'i1'), ('o0', 'r0', 'i0', 'i1'), ('o0', 'r0', 'r1', 'i0')]


def make(names):
    return {n: TYPES[n[0]](owner=Block(name=n)) for n in names}


def loops(conn, src, dst):
    while True:
        if src == dst:
            return True
        if src not in conn:
            return False
        src = conn[src]


def root(conn, n):
    while n in conn:
        n = conn[n]
    return n


def enabled(conn, names):
    for n in names:
        if n[0] == 'o':
            yield ('send', n, '')
        if n[0] == 'i':
            yield ('drain', n, '')
            yield ('one', n, '')
            yield ('latest', n, '')
            yield ('push', n, '')
    for src in names:
        if src[0] == 'i':
            continue
        for dst in names:
            if dst == src or dst[0] == 'o':
                continue
            if dst not in conn:
                if not loops(conn, src, dst):
                    yield ('connect', src, dst)
            elif conn[dst] == src:
                yield ('disconnect', src, dst)


def run_history(names, hist):
    """Run on the real code; compare with the model after every step."""
    objs = make(names)
    conn = {}
    queues = {n: [] for n in names if n[0] == 'i'}
    seq = 0
    for k, (kind, a, b) in enumerate(hist):
        if kind == 'send':
            seq += 1
            objs[a].send(seq)
            for q in queues:
                if root(conn, q) == a:
                    queues[q].append(seq)
        elif kind == 'push':
            seq += 1
            objs[a].push(seq)
            queues[a].append(seq)
        elif kind == 'drain':
            got = list(objs[a].receive())
            require(got == queues[a], '%s: %s received %s instead of %s', hist[:k + 1], a, got, queues[a])
            queues[a] = []
        elif kind == 'one':
            got = next(iter(objs[a].receive()), None)
            want = queues[a].pop(0) if queues[a] else None
            require(got == want, '%s: %s received %s first instead of %s', hist[:k + 1], a, got, want)
        elif kind == 'latest':
            got = objs[a].receive_latest()
            want = queues[a][-1] if queues[a] else None
            queues[a] = []
            require(got == want, '%s: latest at %s is %s instead of %s', hist[:k + 1], a, got, want)
        elif kind == 'connect':
            objs[a].connect(objs[b])
            conn[b] = a
        else:
            objs[a].disconnect(objs[b])
            del conn[b]
    for q in queues:
        got = list(objs[q].receive())
        require(got == queues[q], '%s: %s finally received %s instead of %s', hist, q, got, queues[q])
        require(list(objs[q].receive()) == [] and objs[q].receive_latest() is None,
                '%s: %s is not empty after draining', hist, q)


def model(conn, op):
    kind, a, b = op
    if kind == 'connect':
        conn = dict(conn)
        conn[b] = a
    elif kind == 'disconnect':
        conn = dict(conn)
        del conn[b]
    return conn


def hist_cases(tier):
    for u, names in enumerate(UNIVERSES):
        for first in enabled({}, names):
            for second in enabled(model({}, first), names):
                yield [u, first, second]


def hist_run(case, ctx):
    names = UNIVERSES[case[0]]
    depth = 6 if ctx.thorough else 5
    prefix = (tuple(case[1]), tuple(case[2]))

    def rec(hist, conn):
        if len(hist) == depth:
            run_history(names, hist)
            ctx.trace()
            ctx.step(depth)
            return
        for op in enabled(conn, names):
            ctx.state(case[0], tuple(sorted(conn.items())), op)
            rec(hist + (op,), model(conn, op))

    conn = model(model({}, prefix[0]), prefix[1])
    rec(prefix, conn)


# Delivery in every patched topology, with the sends after patching in every order
def topo_cases(tier):
    names = ('o0', 'o1', 'r0', 'r1', 'i0', 'i1')
    seen = {()}
    frontier = [((), ())]
    yield [[]]
    while frontier:
        nxt = []
        for key, hist in frontier:
            conn = dict(key)
            for op in enabled(conn, names):
                if op[0] not in ('connect',):
                    continue
                k = tuple(sorted(model(conn, op).items()))
                if k not in seen:
                    seen.add(k)
                    nxt.append((k, hist + (op,)))
                    yield [hist + (op,)]
        frontier = nxt


def topo_run(case, ctx):
    names = ('o0', 'o1', 'r0', 'r1', 'i0', 'i1')
    hist = tuple(tuple(op) for op in case[0])
    ctx.state(hist)
    sends = (('send', 'o0', ''), ('send', 'o1', ''), ('drain', 'i0', ''), ('latest', 'i1', ''))
    for tail in itertools.product(sends, repeat=3):
        run_history(names, hist + tail)
        ctx.trace()
        ctx.step(len(hist) + 3)
    conn = {}
    for op in hist:
        conn = model(conn, op)
    for b, a in conn.items():
        run_history(names, hist + sends[:2] + (('disconnect', a, b),) + sends[:2])
        ctx.trace()


# Overflow: the newest MAX messages survive, whatever was received before
def overflow_cases(tier):
    for viaRelay in (0, 1, 2):
        for n in (0, 1, 2, 48, 49, 50, 51, 52, 99, 100, 101, 151):
            for taken in (0, 1, 2, 49, 50):
                for m in (0, 1, 49, 50, 51):
                    for how in ('drain', 'latest', 'split'):
                        yield [viaRelay, n, taken, m, how]


def overflow_run(case, ctx):
    viaRelay, n, taken, m, how = case
    out = MessageOutput()
    inputs = [MessageInput(), MessageInput()]
    src = out
    for _ in range(viaRelay):
        relay = MessageRelay()
        src.connect(relay)
        src = relay
    for inp in inputs:
        src.connect(inp)
    want = [[], []]
    msgs = iter(range(10000))
    for _ in range(n):
        x = next(msgs)
        out.send(x)
        for w in want:
            w.append(x)
    want = [w[-MAX:] for w in want]
    inp = inputs[0]
    for _ in range(taken):
        got = next(inp.receive(), None)
        w = want[0].pop(0) if want[0] else None
        require(got == w, 'overflow %s: got %s, want %s', case, got, w)
    for _ in range(m):
        x = next(msgs)
        out.send(x)
        for w in want:
            w.append(x)
    want = [w[-MAX:] for w in want]
    if how == 'drain':
        got = list(inp.receive())
        require(got == want[0], 'overflow %s: drained %s want %s', case, got, want[0])
    elif how == 'latest':
        got = inp.receive_latest()
        require(got == (want[0][-1] if want[0] else None), 'overflow %s: latest %s', case, got)
    else:
        # messages sent while draining are received too, once and in order
        got = []
        extra = []
        for x in inp.receive():
            got.append(x)
            if len(extra) < 3:
                y = next(msgs)
                out.send(y)
                extra.append(y)
        got += list(inp.receive())
        want[1] = (want[1] + extra)[-MAX:]
        require(got == want[0] + extra, 'overflow %s: received %s, want %s', case, got, want[0] + extra)
    require(list(inp.receive()) == [], 'overflow %s: not empty', case)
    got = list(inputs[1].receive())
    require(got == want[1], 'overflow %s: other input drained %s want %s', case, got, want[1])
    ctx.trace()
    ctx.step(n + taken + m)
    ctx.state(*case)


# Many connections at one output, message kinds incl. falsy ones
def fan_cases(tier):
    for fan in range(0, 6):
        for msgs in itertools.product((None, 0, '', 'a', (), 1.5), repeat=3):
            yield [fan, msgs]


def fan_run(case, ctx):
    fan, msgs = case
    out = MessageOutput()
    inputs = [MessageInput() for _ in range(fan)]
    stranger = MessageInput()
    for inp in inputs:
        out.connect(inp)
    for m in msgs:
        out.send(m)
    for inp in inputs:
        got = list(inp.receive())
        require(len(got) == 3 and all(g is m or g == m for g, m in zip(got, msgs)), 'fan %s: received %s', case, got)
        require(list(inp.receive()) == [], 'fan %s: received twice', case)
    require(list(stranger.receive()) == [], 'fan %s: a stranger received something', case)
    ctx.trace()
    ctx.step(3)
    ctx.state(str(case))


# Threads -----------------------------------------------------------------------------------------
class Key:
    def __init__(self, char):
        self.char = char

    def __repr__(self):
        return 'Key(%s)' % self.char


def scenario(name):
    """Returns (makeScenario, check)."""
    def make_scenario():
        out = MessageOutput()
        inp = MessageInput()
        other = MessageInput()
        got = []
        pre = 0
        nmsg = 3
        if name.startswith('relay'):
            relay = MessageRelay()
            out.connect(relay)
            relay.connect(inp)
            relay.connect(other)
        else:
            out.connect(inp)
            out.connect(other)
        if name.endswith('full'):
            pre = MAX
            nmsg = 2
            for k in range(pre):
                out.send(k)
        if name.endswith('waiting'):
            pre = 1
            nmsg = 2
            out.send(0)

        def sender(first, count):
            def body():
                for k in range(count):
                    out.send(first + k)
            return body

        def drainer():
            for _ in range(2):
                for m in inp.receive():
                    got.append(m)

        def partial():
            for m in inp.receive():
                got.append(m)
                break
            for m in inp.receive():
                got.append(m)

        def latest():
            for _ in range(2):
                m = inp.receive_latest()
                if m is not None:
                    got.append(m)

        consumer = {'drain': drainer, 'partial': partial, 'latest': latest}[name.split('_')[1]]
        bodies = [sender(pre, nmsg), consumer]
        total = pre + nmsg
        if name.startswith('two'):
            bodies = [sender(0, 2), sender(100, 2), drainer]
            total = 4
        return bodies, dict(inp=inp, other=other, got=got, total=total, name=name)

    def check(c, errors, choices):
        info = (name, choices)
        for err in errors:
            require(err is None, 'schedule %s: thread failed with %r', info, err)
        mid = list(c['got'])
        rest = list(c['inp'].receive())
        other = list(c['other'].receive())
        everything = mid + rest
        if name.startswith('two'):
            for seqs in (everything, other):
                require(sorted(seqs) == [0, 1, 100, 101], 'schedule %s: messages %s', info, seqs)
                require(seqs.index(0) < seqs.index(1) and seqs.index(100) < seqs.index(101),
                        'schedule %s: reordered %s', info, seqs)
            return
        total = c['total']
        sent = list(range(total))
        require(other == sent[-MAX:], 'schedule %s: other input received %s', info, other)
        require(all(x < y for x, y in zip(everything, everything[1:])),
                'schedule %s: duplicated or reordered %s', info, everything)
        if 'latest' in name:
            # the newest message is never lost: it is either returned or still waiting
            require(everything and everything[-1] == sent[-1],
                    'schedule %s: newest message %s lost, got %s then %s', info, sent[-1], mid, rest)
            # what is still waiting is complete
            require(rest == sent[total - len(rest):], 'schedule %s: waiting messages have a gap %s', info, rest)
        elif name.endswith('full'):
            require(everything[-min(MAX, len(everything)):] == sent[-min(MAX, len(everything)):] and len(everything) >= MAX,
                    'schedule %s: more than the oldest messages were dropped: %s', info, everything)
        else:
            require(everything == sent, 'schedule %s: received %s', info, everything)

    return make_scenario, check


SCENARIOS = ['plain_drain', 'plain_partial', 'plain_latest', 'plain_latest_waiting', 'plain_drain_waiting',
             'relay_drain', 'relay_latest', 'plain_drain_full', 'two_drain']


def sched_cases(tier):
    for name in SCENARIOS:
        yield [name, 3 if tier != 'quick' else 2]
    yield ['keyboard', 3 if tier != 'quick' else 2]


def sched_run(case, ctx):
    name, bound = case
    if name == 'two_drain':
        bound = min(bound, 2)
    if name.endswith('full'):
        bound = min(bound, 1)
    if name == 'keyboard':
        return keyboard_run(case, ctx)
    mk, check = scenario(name)

    def on_run(context, exe):
        ctx.trace()
        ctx.step(sum(t.points for t in exe.tasks))
        ctx.state(name, tuple(p[1] for p in exe.points))
        ctx.outcome(name, tuple(context['got']))

    explore(mk, check, bound, on_run)
    ctx.capped |= bool(DIVERGED)


def keyboard_run(case, ctx):
    """The listener thread of a keyboard against a draining audio thread."""
    _, bound = case

    def mk():
        keyboard = Keyboard()
        inp = MessageInput()
        keyboard.output.connect(inp)
        keys = [Key('a'), Key('b')]
        got = []

        def listener():
            keyboard.on_press(keys[0])
            keyboard.on_press(keys[0])
            keyboard.on_press(keys[1])
            keyboard.on_release(keys[0])

        def audio():
            for _ in range(2):
                for m in inp.receive():
                    got.append(m)

        return [listener, audio], dict(keys=keys, got=got, inp=inp)

    def check(c, errors, choices):
        for err in errors:
            require(err is None, 'keyboard schedule %s: %r', choices, err)
        chars = [k.char for k in c['got'] + list(c['inp'].receive())]
        require(chars == ['a', 'b', 'a'], 'keyboard schedule %s: events %s', choices, chars)

    def on_run(context, exe):
        ctx.trace()
        ctx.step(sum(t.points for t in exe.tasks))
        ctx.state('keyboard', tuple(p[1] for p in exe.points))
        ctx.outcome('keyboard', len(context['got']))

    explore(mk, check, min(bound, 2), on_run)


FAMILIES = [
    Family('histories', hist_cases, hist_run,
           lambda t: 'all histories of length %d of send / drain / take one / latest / push / connect / disconnect over 3 universes' % (6 if t != 'quick' else 5)),
    Family('topologies', topo_cases, topo_run, 'all patches of 2 outputs, 2 relays, 2 inputs; all 3-operation tails; all disconnections'),
    Family('overflow', overflow_cases, overflow_run, 'message counts around the queue bound, taken before, sent while draining, 0-2 relays'),
    Family('fan_out', fan_cases, fan_run, '0-5 inputs, all triples of 6 message kinds incl. falsy ones'),
    Family('schedules', sched_cases, sched_run,
           lambda t: 'all line-level interleavings with at most %d preemptions (1 with a full queue, 2 with three threads) of 10 thread scenarios' % (3 if t != 'quick' else 2), timeout=600.),
]
ASSUMPTIONS = ['container operations (deque append / popleft / clear) are atomic, as under the interpreter lock',
               'patching while another thread sends is outside the quantifier']
