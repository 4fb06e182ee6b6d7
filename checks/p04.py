"""P04: execution order. All directed graphs up to a size on the real block network."""
import itertools

from mc import Family, require
from graphs import component, order_error, subsets
from klang.block import Block
from klang.connections import Input, Output, Relay, MessageInput, MessageOutput, MessageRelay
from klang.execution import determine_execution_order, execute

KINDS = {'v': (Output, Input), 'm': (MessageOutput, MessageInput), 'r': (Relay, Relay), 'q': (MessageRelay, MessageRelay)}


class Probe(Block):
    def __init__(self, idx, log):
        super().__init__(name=str(idx))
        self.idx = idx
        self.log = log

    def update(self):
        self.log.append(self.idx)


def build(n, edges, kinds='v', shared=True):
    """Blocks 0..n-1; edges get their own input; outputs shared per kind or one per edge."""
    log = []
    blocks = [Probe(i, log) for i in range(n)]
    outs = {}
    for k, (u, v) in enumerate(edges):
        kind = kinds[k % len(kinds)]
        outCls, inCls = KINDS[kind]
        key = (u, kind) if shared else (u, kind, k)
        if key not in outs:
            outs[key] = outCls(owner=blocks[u])
            blocks[u].outputs.append(outs[key])
        inp = inCls(owner=blocks[v])
        blocks[v].inputs.append(inp)
        outs[key].connect(inp)
    return blocks, log


def snapshot(blocks):
    return [
        ([(id(i), id(getattr(i, 'incomingConnection', None))) for i in b.inputs],
         [(id(o), sorted(id(d) for d in o.outgoingConnections)) for o in b.outputs])
        for b in blocks
    ]


def check(case, ctx, n, edges, starts, kinds='v', shared=True):
    blocks, log = build(n, edges, kinds, shared)
    before = snapshot(blocks)
    order = determine_execution_order([blocks[s] for s in starts])
    require(snapshot(blocks) == before, '%s: the network was altered', case)
    ids = [b.idx for b in order]
    expected = component(n, edges, starts)
    err = order_error(ids, expected, n, edges)
    require(err is None, '%s (edges %s, started from %s): %s', case, edges, starts, err)
    execute(order)
    require(log == ids, '%s: executed %s', case, log)
    ctx.step(len(expected))
    ctx.trace()
    ctx.outcome(tuple(ids))


def graph_cases(tier):
    for n in (1, 2, 3):
        pairs = [(u, v) for u in range(n) for v in range(n)]
        for edges in subsets(pairs):
            yield [n, edges]
    n = 4
    pairs = [(u, v) for u in range(n) for v in range(n) if u != v]
    for edges in subsets(pairs):
        yield [n, edges]
    n = 5
    pairs = [(u, v) for u in range(n) for v in range(n) if u != v]
    for edges in subsets(pairs, 4 if tier == 'quick' else 7):
        if len(component(n, edges, [0])) == n:
            yield [n, edges]
    if tier != 'quick':
        n = 6
        pairs = [(u, v) for u in range(n) for v in range(n) if u != v]
        for edges in itertools.combinations(pairs, 5):
            if len(component(n, edges, [0])) == n:
                yield [n, edges]


def graph_run(case, ctx):
    n, edges = case
    edges = [tuple(e) for e in edges]
    ctx.state(n, tuple(edges))
    if n <= 3:
        starts = [s for s in itertools.chain.from_iterable(itertools.permutations(range(n), k) for k in range(1, n + 1))]
        starts += [(0, 0)]
    elif n == 4:
        starts = [(k,) for k in range(n)] + [(3, 0), (0, 1, 2, 3)]
    else:
        starts = [(0,), (n - 1,)] if not ctx.thorough else [(0,), (n // 2,), (n - 1,)]
    for s in starts:
        check(case, ctx, n, edges, s)


def kind_cases(tier):
    """3 blocks, every ordered pair (and loops) with 0-2 parallel edges of mixed kinds."""
    n = 3
    pairs = [(u, v) for u in range(n) for v in range(n) if u != v]
    for mult in itertools.product((0, 1, 2), repeat=len(pairs)):
        edges = []
        for p, m in zip(pairs, mult):
            edges += [p] * m
        for loop in ((), ((1, 1),)):
            yield [n, edges + list(loop)]


def kind_run(case, ctx):
    n, edges = case
    edges = [tuple(e) for e in edges]
    ctx.state(tuple(edges))
    for kinds in ('v', 'm', 'vm', 'rvq', 'mr'):
        for shared in (True, False):
            check(case, ctx, n, edges, (0,), kinds, shared)
    check(case, ctx, n, edges, (2, 1, 0), 'mv')


def big_cases(tier):
    sizes = (2, 5, 10, 20, 40) if tier == 'quick' else (2, 5, 10, 20, 40, 80, 150)
    for n in sizes:
        for shape in SHAPES:
            for relabel in ('id', 'reverse', 'interleave'):
                for start in ('first', 'mid', 'last'):
                    yield [n, shape, relabel, start]


def long_cases(tier):
    for n in (2500,) if tier == 'quick' else (1000, 2500, 4000):
        for shape in ('chain', 'ring', 'chain_with_feedback'):
            for relabel in ('id', 'reverse'):
                for start in ('first', 'mid', 'last'):
                    yield [n, shape, relabel, start]


SHAPES = ['chain', 'fan_out', 'fan_in', 'complete', 'ladder', 'ring', 'two_rings', 'tree', 'diamonds', 'ring_with_tail',
          'nested_loops', 'chain_with_feedback', 'complete_feedback']


def shape_edges(n, shape):
    if shape == 'chain':
        return [(i, i + 1) for i in range(n - 1)]
    if shape == 'fan_out':
        return [(0, i) for i in range(1, n)]
    if shape == 'fan_in':
        return [(i, n - 1) for i in range(n - 1)]
    if shape == 'complete':
        m = min(n, 25)
        return [(i, j) for i in range(m) for j in range(i + 1, m)]
    if shape == 'ladder':
        return [(i, i + 2) for i in range(n - 2)] + [(i, i + 1) for i in range(0, n - 1, 2)]
    if shape == 'ring':
        return [(i, (i + 1) % n) for i in range(n)]
    if shape == 'two_rings':
        h = n // 2
        return [(i, (i + 1) % h) for i in range(h)] + [(h + i, h + (i + 1) % (n - h)) for i in range(n - h)] + [(0, h)]
    if shape == 'tree':
        return [((i - 1) // 2, i) for i in range(1, n)]
    if shape == 'diamonds':
        e = []
        for i in range(0, n - 3, 3):
            e += [(i, i + 1), (i, i + 2), (i + 1, i + 3), (i + 2, i + 3)]
        return e
    if shape == 'ring_with_tail':
        h = max(2, n // 2)
        return [(i, (i + 1) % h) for i in range(h)] + [(i, i + 1) for i in range(h - 1, n - 1)]
    if shape == 'nested_loops':
        return [(i, i + 1) for i in range(n - 1)] + [(n - 1 - i, i) for i in range(n // 2)]
    if shape == 'chain_with_feedback':
        return [(i, i + 1) for i in range(n - 1)] + [(i + 1, i) for i in range(0, n - 1, 3)]
    m = min(n, 12)
    return [(i, j) for i in range(m) for j in range(m) if i != j]


def big_run(case, ctx):
    n, shape, relabel, start = case
    perm = {'id': list(range(n)), 'reverse': list(range(n))[::-1],
            'interleave': [i // 2 if i % 2 == 0 else n - 1 - i // 2 for i in range(n)]}[relabel]
    edges = [(perm[u], perm[v]) for u, v in shape_edges(n, shape) if u != v or shape == 'ring']
    s = {'first': 0, 'mid': n // 2, 'last': n - 1}[start]
    ctx.state(str(case))
    check(case, ctx, n, edges, (perm[s],), 'vm' if n % 2 else 'v')


FAMILIES = [
    Family('all_graphs', graph_cases, graph_run,
           lambda t: 'every directed graph on 1-3 blocks incl. self loops (all start permutations), on 4 blocks (all starts), connected ones on 5 blocks with up to %d edges' % (4 if t == 'quick' else 7)),
    Family('edge_kinds', kind_cases, kind_run, '3 blocks, 0-2 parallel connections per direction, value / message / relay ends, shared and separate outputs'),
    Family('large_shapes', big_cases, big_run, '13 shapes up to 40 (thorough 150) blocks, 3 labelings, 3 starting points', timeout=300.),
    Family('long_chains', long_cases, big_run, 'chains and rings of 2500 (thorough up to 4000) blocks, forward and backward, 3 starting points', timeout=300.),
]
ASSUMPTIONS = []
