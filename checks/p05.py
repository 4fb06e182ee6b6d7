"""P05: composites. All small insides x relay attachments x outside patches on the real code."""
import itertools

from mc import Family, require
from graphs import component, order_error, subsets
from klang.block import Block
from klang.composite import Composite
from klang.connections import Input, Output, Relay, MessageInput, MessageOutput, MessageRelay
from klang.execution import determine_execution_order, execute


class Probe(Block):
    """Counts its updates; computes 1 + sum of inputs."""

    def __init__(self, idx, log):
        super().__init__(name=str(idx))
        self.idx = idx
        self.log = log

    def update(self):
        self.log.append(self.idx)
        total = sum(i.value for i in self.inputs if isinstance(i, Input))
        for out in self.outputs:
            if isinstance(out, Output):
                out.set_value(1 + total)


def connect_new(src, dst, kind='v'):
    """Connect blocks over a new port pair."""
    outCls, inCls = (Output, Input) if kind == 'v' else (MessageOutput, MessageInput)
    out = next((o for o in src.outputs if type(o) is outCls), None)
    if out is None:
        out = outCls(owner=src)
        src.outputs.append(out)
    inp = inCls(owner=dst)
    dst.inputs.append(inp)
    out.connect(inp)


def snapshot(blocks):
    ret = []
    for b in blocks:
        for i in b.inputs:
            ret.append((id(i), id(getattr(i, 'incomingConnection', None)), sorted(id(d) for d in getattr(i, 'outgoingConnections', ()))))
        for o in b.outputs:
            ret.append((id(o), sorted(id(d) for d in o.outgoingConnections), id(getattr(o, 'incomingConnection', None))))
    return ret


def build(m, edges, feeds, taps, outside, kind='v'):
    """Composite with m internal probes.

    feeds: per input relay the internal blocks it feeds; taps: per output relay the internal block
    it takes from (or -1); outside: '', 'in', 'out', 'both', 'loop' (outer feedback through a block),
    'self' (relay out patched straight to relay in).
    """
    log = []
    inner = [Probe(i, log) for i in range(m)]
    for u, v in edges:
        connect_new(inner[u], inner[v], kind)
    comp = Composite(name='composite')
    relayCls, inCls, outCls = (Relay, Input, Output) if kind == 'v' else (MessageRelay, MessageInput, MessageOutput)
    comp.inputs = [relayCls(owner=comp) for _ in feeds]
    comp.outputs = [relayCls(owner=comp) for _ in taps]
    for relay, targets in zip(comp.inputs, feeds):
        for t in targets:
            inp = inCls(owner=inner[t])
            inner[t].inputs.append(inp)
            relay.connect(inp)
    for relay, t in zip(comp.outputs, taps):
        if t >= 0:
            out = next((o for o in inner[t].outputs if type(o) is outCls), None)
            if out is None:
                out = outCls(owner=inner[t])
                inner[t].outputs.append(out)
            out.connect(relay)
    others = []
    mk = lambda name: others.append(Probe(name, log)) or others[-1]
    if outside in ('in', 'both', 'loop') and comp.inputs:
        if outside == 'loop' and comp.outputs:
            via = mk('via')
            inp = inCls(owner=via)
            via.inputs.append(inp)
            comp.outputs[0].connect(inp)
            out = outCls(owner=via)
            via.outputs.append(out)
            for relay in comp.inputs:
                out.connect(relay)
        else:
            for k, relay in enumerate(comp.inputs):
                src = mk('src%d' % k)
                src.outputs.append(outCls(owner=src))
                src.outputs[0].connect(relay)
    if outside in ('out', 'both') and comp.outputs:
        for k, relay in enumerate(comp.outputs):
            for j in range(2):
                dst = mk('dst%d%d' % (k, j))
                dst.inputs.append(inCls(owner=dst))
                relay.connect(dst.inputs[0])
    if outside == 'self' and comp.inputs and comp.outputs:
        comp.outputs[0].connect(comp.inputs[0])
    return comp, inner, others, log


def expected_blocks(m, edges, feeds, taps):
    starts = set(itertools.chain.from_iterable(feeds)) | {t for t in taps if t >= 0}
    return component(m, edges, sorted(starts)) if starts else set()


def check(case, ctx, m, edges, feeds, taps, outside, kind='v', explicit=None):
    comp, inner, others, log = build(m, edges, feeds, taps, outside, kind)
    everything = [comp] + inner + others
    before = snapshot(everything)
    if explicit is None:
        comp.update_internal_exec_order()
        expected = expected_blocks(m, edges, feeds, taps)
    else:
        comp.update_internal_exec_order(*[inner[i] for i in explicit])
        expected = component(m, edges, explicit)
    require(snapshot(everything) == before, '%s: connections were altered', case)
    log.clear()
    comp.update()
    ids = list(log)
    err = order_error(ids, expected, m, edges) if all(isinstance(i, int) for i in ids) else 'outside block run: %s' % ids
    require(err is None, '%s: internal %s', case, err)
    log.clear()
    comp.update()
    require(log == ids, '%s: second update ran %s', case, log)
    # Once more: computing the order again gives an equivalent result
    comp.update_internal_exec_order(*([inner[i] for i in explicit] if explicit is not None else []))
    log.clear()
    comp.update()
    err = order_error(list(log), expected, m, edges) if all(isinstance(i, int) for i in log) else 'outside block run'
    require(err is None, '%s: recomputed internal %s', case, err)
    require(snapshot(everything) == before, '%s: connections were altered by recomputing', case)
    ctx.step(2 * len(ids))
    ctx.trace()
    ctx.outcome(m, tuple(ids))


OUTSIDES = ['', 'in', 'out', 'both', 'loop', 'self']


def inner_cases(tier):
    for m in (1, 2, 3):
        pairs = [(u, v) for u in range(m) for v in range(m) if u != v or m < 3]
        for edges in subsets(pairs):
            for f0 in range(-1, m):
                for f1 in range(-1, m):
                    for t in range(-1, m):
                        yield [m, edges, [[f] if f >= 0 else [] for f in (f0, f1)], [t], 'v']
    if tier != 'quick':
        m = 4
        pairs = [(u, v) for u in range(m) for v in range(m) if u != v]
        for edges in subsets(pairs, 5):
            for f0, f1, t in itertools.product(range(m), repeat=3):
                yield [m, edges, [[f0], [f1]], [t], 'v']


def inner_run(case, ctx):
    m, edges, feeds, taps, kind = case
    edges = [tuple(e) for e in edges]
    ctx.state(str(case))
    outs = OUTSIDES if (m < 3 or len(edges) <= 3) else ['', 'both', 'loop']
    if m == 4:
        outs = ['both', 'loop']
    for outside in outs:
        check(case + [outside], ctx, m, edges, feeds, taps, outside, kind)


def message_cases(tier):
    m = 3
    pairs = [(u, v) for u in range(m) for v in range(m) if u != v]
    for edges in subsets(pairs, 4 if tier == 'quick' else 6):
        for feeds in ([[0], [1]], [[2], [0]], [[0, 1, 2]], [[0, 1]], [[]], []):
            for taps in ([2], [0], [1, 2], [2, 2, 0], []):
                yield [m, edges, feeds, taps]


def message_run(case, ctx):
    m, edges, feeds, taps = case
    edges = [tuple(e) for e in edges]
    ctx.state(str(case))
    for kind in 'mv':
        for outside in ('', 'both', 'loop'):
            check(case + [outside, kind], ctx, m, edges, feeds, taps, outside, kind)
    for explicit in ((0, 1, 2), (2, 1, 0), (1,)):
        check(case + ['explicit', explicit], ctx, m, edges, feeds, taps, 'both', 'v', explicit)


# Failing computation keeps the patching ------------------------------------------------------------
def fail_cases(tier):
    for bad in ('not_a_block', 'raising_ports', 'raising_inside'):
        for outside in OUTSIDES:
            for feeds in ([[0], [1]], [[0]], []):
                for taps in ([1], [1, 0], []):
                    yield [bad, outside, feeds, taps]


class Exploding(Block):
    @property
    def outputs(self):
        if self.armed:
            raise RuntimeError('can not be inspected')
        return self._outputs

    @outputs.setter
    def outputs(self, value):
        self._outputs = value

    armed = False


def fail_run(case, ctx):
    bad, outside, feeds, taps = case
    comp, inner, others, log = build(2, [(0, 1)], feeds, taps, outside)
    bomb = Exploding(name='bomb')
    if bad == 'raising_inside':
        connect_new(inner[1], bomb)
    everything = [comp] + inner + others
    before = snapshot(everything)
    bomb.armed = True
    failed = False
    try:
        if bad == 'not_a_block':
            comp.update_internal_exec_order(inner[0], object())
        elif bad == 'raising_ports':
            comp.update_internal_exec_order(bomb)
        else:
            comp.update_internal_exec_order(*inner)
    except Exception:
        failed = True
    bomb.armed = False
    require(snapshot(everything) == before, '%s: patching was lost (failed: %s)', case, failed)
    ctx.outcome(failed)
    ctx.trace()
    ctx.step()
    ctx.state(str(case))


# Nested composites and execution inside a network ---------------------------------------------------
def nested_cases(tier):
    pairs = [(u, v) for u in range(3) for v in range(3) if u != v]
    for edges in subsets(pairs, 3 if tier == 'quick' else 6):
        for where in range(3):      # which internal block of the outer composite is a composite itself
            for feed in range(3):
                for tap in range(3):
                    yield [edges, where, feed, tap]


def nested_run(case, ctx):
    """source -> outer(relay -> [3 blocks, one a composite of 2] -> relay) -> sink, all in one network."""
    edges, where, feed, tap = case
    edges = [tuple(e) for e in edges]
    log = []
    inner = []
    for i in range(3):
        if i == where:
            sub = Composite(name='sub')
            a, b = Probe('a', log), Probe('b', log)
            connect_new(a, b)
            out = Output(owner=b)
            b.outputs.append(out)
            subOut = Relay(owner=sub)
            out.connect(subOut)
            sub.outputs = [subOut]
            sub.parts = (a, b)
            inner.append(sub)
        else:
            inner.append(Probe(i, log))
            inner[-1].outputs.append(Output(owner=inner[-1]))

    def add_input(i):
        blk = inner[i]
        if i == where:
            relay = Relay(owner=blk)
            blk.inputs.append(relay)
            inp = Input(owner=blk.parts[0])
            blk.parts[0].inputs.append(inp)
            relay.connect(inp)
            return relay
        inp = Input(owner=blk)
        blk.inputs.append(inp)
        return inp

    for u, v in edges:
        inner[u].outputs[0].connect(add_input(v))
    outer = Composite(name='outer')
    outer.inputs = [Relay(owner=outer)]
    outer.outputs = [Relay(owner=outer)]
    outer.inputs[0].connect(add_input(feed))
    inner[tap].outputs[0].connect(outer.outputs[0])
    src, dst = Probe('src', log), Probe('dst', log)
    src.outputs.append(Output(owner=src))
    dst.inputs.append(Input(owner=dst))
    dst.outputs.append(Output(owner=dst))
    src.outputs[0].connect(outer.inputs[0])
    outer.outputs[0].connect(dst.inputs[0])
    everything = [src, dst, outer] + inner + list(inner[where].parts)
    before = snapshot(everything)
    inner[where].update_internal_exec_order()
    outer.update_internal_exec_order()
    require(snapshot(everything) == before, '%s: connections were altered', case)
    for start in (src, outer, dst):
        order = determine_execution_order([start])
        require(sorted(b.name for b in order) == ['dst', 'outer', 'src'], '%s: global order %s', case, [str(b) for b in order])
        log.clear()
        execute(order)
        flat = list(log)
        require(flat[0] == 'src' and flat[-1] == 'dst', '%s: ran %s', case, flat)
        mid = flat[1:-1]
        expected = component(3, edges, [feed, tap])
        if where in expected:
            require('a' in mid and 'b' in mid and mid.index('b') == mid.index('a') + 1, '%s: sub composite ran as %s', case, mid)
            mid = [where if x == 'a' else x for x in mid if x != 'b']
        err = order_error(mid, expected, 3, edges) if all(isinstance(x, int) for x in mid) else 'ran %s' % mid
        require(err is None, '%s: %s', case, err)
    ctx.state(str(case))
    ctx.trace(3)
    ctx.step(len(flat) * 3)
    ctx.outcome(tuple(flat))


FAMILIES = [
    Family('insides', inner_cases, inner_run,
           lambda t: 'all insides of 1-%d blocks x all attachments of 2 input relays and 1 output relay x 6 outside patches (unpatched, source, sink, both, outer loop, self loop)' % (3 if t == 'quick' else 4)),
    Family('ports', message_cases, message_run, '3 inner blocks, 0-2 input and 0-3 output relays with fan-out, value and message kinds, explicit starting blocks'),
    Family('failures', fail_cases, fail_run, 'failing computations at 3 places x all outside patches'),
    Family('nested', nested_cases, nested_run, 'a composite inside a composite inside a network: all inner edges, positions, feeds and taps'),
]
ASSUMPTIONS = ['inner blocks are patched to the outside only through the relays of their composite']
