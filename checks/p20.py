"""P20: network blocks. All objects of an alphabet over both transports, all histories of sends, garbage and updates."""
import gc
import itertools
import os
import socket
import time

import numpy as np

from mc import Family, require
from klang.audio.helpers import get_time
from klang.config import BUFFER_SIZE
from klang.connections import MessageInput, MessageOutput, Output
from klang.messages import Note
from klang.network import NetworkIn, NetworkMessageIn, NetworkMessageOut, NetworkOut

COUNTER = itertools.count()


def open_receiver(cls, transport):
    """Receiver block on a fresh address."""
    if transport == 'unix':
        address = os.path.join(os.environ['VERIF_SCRATCH'], 's%d_%d' % (os.getpid(), next(COUNTER)))
        return cls(address), address
    base = 20000 + (os.getpid() * 131) % 30000
    for i in range(200):
        address = ('127.0.0.1', base + (next(COUNTER) * 17 + i) % 10000)
        try:
            return cls(address), address
        except OSError:
            continue
    raise RuntimeError('no free port')


def close(address):
    if isinstance(address, str):
        os.unlink(address)
    gc.collect()


def raw_socket(address):
    return socket.socket(socket.AF_UNIX if isinstance(address, str) else socket.AF_INET, socket.SOCK_DGRAM)


def same(a, b):
    """Deep equality including types."""
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        if a.dtype != b.dtype or a.shape != b.shape:
            return False
        return a.tobytes() == b.tobytes()
    if isinstance(a, Note):
        return tuple(a) == tuple(b)
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and a != a:
        return b != b
    return a == b


def show(x):
    text = repr(x)
    return text if len(text) < 200 else text[:200] + '...'


class Pair:

    """Sender block -> network -> receiver block."""

    def __init__(self, kind, transport):
        self.kind = kind
        self.transport = transport
        self.receiver, self.address = open_receiver(NetworkIn if kind == 'value' else NetworkMessageIn, transport)
        self.got = []
        if kind == 'value':
            self.source = Output()
            self.sender = NetworkOut(self.address)
        else:
            self.source = MessageOutput()
            self.sender = NetworkMessageOut(self.address)
            self.sink = MessageInput()
            self.receiver.output.connect(self.sink)
        self.source.connect(self.sender.input)

    def send(self, obj):
        if self.kind == 'value':
            self.source.set_value(obj)
        else:
            self.source.send(obj)
        self.sender.update()

    def fetch(self, n):
        """Update the receiver (until n messages are there) and return messages, or value."""
        start = time.time()
        while True:
            self.receiver.update()
            if self.kind == 'value':
                if self.transport == 'unix' or n is None or same(self.receiver.output.value, n) or time.time() > start + 2.:
                    return self.receiver.output.value
            else:
                self.got.extend(self.sink.receive())
                if self.transport == 'unix' or len(self.got) >= n or time.time() > start + 2.:
                    got, self.got = self.got, []
                    return got
            time.sleep(.001)

    def close(self):
        address = self.address
        self.__dict__.clear()
        close(address)


def leaves():
    """Objects which can be sent."""
    return [
        0, 1, -7, 2 ** 40, 10 ** 30, True, False, None, 0., -1.5, .1, 1e300, 5e-324, float('inf'), float('nan'), 1 / 3,
        '', 'a', 'Grüezi \u2603 \U0001f3b5', '"quoted\\"', '{}', '\n', '\x00', ' ', 'x' * 1023, 'y' * 5000,
        Note(60), Note(0, 0.), Note(127, .25, 12.5), Note(64, 1), Note(33, .1, 440), Note(60).silence(),
        np.arange(6.), np.arange(6.).reshape(2, 3).T, np.array(3.5), np.zeros((0, 2)), np.array([True, False]),
        np.arange(4, dtype='>i2'), get_time(BUFFER_SIZE), np.array([], dtype=np.int8),
        [], {}, [1, 2.5, 'x', None, True], {'a': 1, 'b': [1, {'c': 2}], 'type': 'sine', '': 0}, {'type': 3}, [[[]]],
    ]


def nested(i, j):
    """Containers of leaves i and j."""
    items = leaves()
    a, b = items[i], items[j]
    return [[a], [a, b], {'k': a, 'l': b}, [{'k': [a]}, b], {'k': {'l': [[a], b]}}]


def object_cases(tier):
    n = len(leaves())
    for kind in ('value', 'message'):
        for transport in ('unix', 'inet'):
            for i in range(n):
                yield [kind, transport, i]


def object_run(case, ctx):
    """Every object on its own and (nested) with every other."""
    kind, transport, i = case
    pair = Pair(kind, transport)
    items = leaves()
    todo = [items[i]]
    for j in range(0, len(items), 1 if ctx.thorough else 4):
        todo.extend(nested(i, j))
    for obj in todo:
        pair.send(obj)
        got = pair.fetch(obj if kind == 'value' else 1)
        if kind == 'message':
            require(len(got) == 1, '%s: sent %s, received %d messages', case, show(obj), len(got))
            got, = got
        require(same(got, obj), '%s: sent %s, received %s', case, show(obj), show(got))
        ctx.step()
        ctx.state(kind, transport, show(obj))
    ctx.trace()
    ctx.outcome(*case)
    pair.close()


DTYPES = ('bool', 'int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32', 'int64', 'uint64', 'float16', 'float32',
          'float64', 'complex64', 'complex128', '>f8', '>i4', '<U3', 'S4', 'datetime64[s]')


def shapes(quick):
    dims = (0, 1, 2, 3)
    for nd in range(0, 4 if quick else 5):
        yield from itertools.product(dims, repeat=nd)


LAYOUTS = ('C', 'F', 'strided', 'reversed', 'transposed', 'broadcast', 'readonly', 'view')


def build_array(dtype, shape, layout):
    n = int(np.prod(shape))
    base = (np.arange(n) * 7 % 11 + 1)
    if dtype == 'bool':
        base = base % 2 == 0
    base = base.astype(dtype).reshape(shape)
    if layout == 'F':
        return np.asfortranarray(base).reshape(shape, order='F') if base.ndim else base
    if layout == 'strided' and base.ndim:
        big = np.zeros(tuple(2 * s for s in shape), dtype=base.dtype)
        view = big[tuple(slice(None, None, 2) for _ in shape)]
        view[...] = base
        return view
    if layout == 'reversed' and base.ndim:
        return base[::-1]
    if layout == 'transposed':
        return base.T
    if layout == 'broadcast':
        return np.broadcast_to(base, (2,) + tuple(shape))
    if layout == 'readonly':
        base.setflags(write=False)
    if layout == 'view' and base.ndim:
        return base[1:]
    return base


def array_cases(tier):
    for dtype in DTYPES:
        for layout in LAYOUTS:
            yield [dtype, layout]


def array_run(case, ctx):
    """Every array shape up to 3 dimensions of a type and a memory layout."""
    dtype, layout = case
    pairs = [Pair('message', 'unix'), Pair('value', 'unix')]
    for shape in shapes(not ctx.thorough):
        arr = build_array(dtype, shape, layout)
        for pair in pairs:
            pair.send(arr)
            got = pair.fetch(arr if pair.kind == 'value' else 1)
            if pair.kind == 'message':
                require(len(got) == 1, '%s: array of shape %s gave %d messages', case, arr.shape, len(got))
                got, = got
            require(same(got, arr), '%s: sent array %s (shape %s), received %s', case, show(arr), arr.shape, show(got))
            ctx.step()
        ctx.state(dtype, layout, shape)
    ctx.trace()
    ctx.outcome(*case)
    for pair in pairs:
        pair.close()


def size_cases(tier):
    for transport in ('unix', 'inet'):
        for kind in ('value', 'message'):
            for channels in (0, 1, 2, 3, 4, 5, 6, 8, 12, 16):
                yield [transport, kind, 'buffer', channels]
            yield [transport, kind, 'text', 0]
            yield [transport, kind, 'array', 0]


def size_run(case, ctx):
    """Audio buffers up to 16 channels, objects of all sizes around powers of two."""
    transport, kind, what, channels = case
    pair = Pair(kind, transport)
    sizes = sorted({2 ** k + d for k in range(3, 16) for d in range(-24, 25, 1 if ctx.thorough else 4) if 0 <= 2 ** k + d <= 40000})
    if what == 'buffer':
        rng = np.sin(np.arange(max(channels, 1) * BUFFER_SIZE) * .1)
        objs = [rng.reshape((channels, BUFFER_SIZE)) if channels else rng]
        objs += [objs[0].astype('f4'), np.asfortranarray(objs[0]), objs[0].T, objs[0][..., ::-1], [objs[0]]]
        if channels <= 2:
            objs += [objs[0].tolist(), {'left': objs[0]}]
    elif what == 'text':
        objs = ['t' * n for n in sizes]
    else:
        objs = [np.arange(n // 8, dtype=float) for n in sizes[::3]]
    for obj in objs:
        for back in (1, 2):
            for _ in range(back):
                pair.send(obj)
            got = pair.fetch(obj if kind == 'value' else back)
            if kind == 'message':
                require(len(got) == back, '%s: sent %d objects %s, received %d', case, back, show(obj), len(got))
            else:
                got = [got]
            for x in got:
                require(same(x, obj), '%s: sent %s, received %s', case, show(obj), show(x))
            ctx.step()
        ctx.state(str(case), show(obj))
    ctx.trace()
    ctx.outcome(*case)
    pair.close()


GARBAGE = {
    'empty': b'', 'brace': b'{', 'bytes': b'\xff\xfe\x80', 'nonsense': b'nonsense', 'space': b'  ', 'open': b'[1, ',
    'note': b'{"type": "Note", "pitch": 300}', 'noNote': b'{"type": "Note"}', 'noteKeys': b'{"type": "Note", "pitch": 3, "volume": 1}',
    'array': b'{"type": "ndarray", "dtype": "float64", "shape": [3], "data": "AAAA"}', 'noArray': b'{"type": "ndarray"}',
    'dtype': b'{"type": "ndarray", "dtype": "foo", "shape": [0], "data": ""}', 'deep': b'[' * 20000, 'nul': b'\x00', 'type': b'{"type": ["Note"',
}
OBJECTS = {'a': 1, 'b': 'text', 'c': {'x': [1., None]}, 'n': Note(60, .5), 'v': np.arange(4.)[::2]}
MULTI = {'two': (b'1 2', [1, 2]), 'glued': (b'{"a": 1}[2]"x"{"type": "Note", "pitch": 60, "velocity": 1.0, "frequency": 2.0}',
                                           [{'a': 1}, [2], 'x', Note(60, 1., 2.)]),
         'lines': (b' [1]\n"b"\r\n\t3.5\n', [[1], 'b', 3.5])}


def history_cases(tier):
    for kind in ('value', 'message'):
        for first in tuple(OBJECTS) + tuple(GARBAGE) + tuple(MULTI) + ('update', 'poll'):
            yield [kind, 'unix', first]
        for first in ('a', 'v', 'empty', 'bytes', 'note', 'two', 'update'):
            yield [kind, 'inet', first]


def history_run(case, ctx):
    """All histories of sends of objects, garbage and several objects per datagram, and updates."""
    kind, transport, first = case
    if transport == 'unix':
        ops = ('a', 'n', 'v', 'empty', 'bytes', 'note', 'open', 'two', 'glued', 'update')
        depth = 4 if ctx.thorough else 3
    else:
        ops = ('a', 'n', 'empty', 'noteKeys', 'lines', 'update')
        depth = 3
    pair = Pair(kind, transport)
    raw = raw_socket(pair.address)
    last = pair.receiver.output.value if kind == 'value' else None
    for hist in itertools.product(ops, repeat=depth):
        pending = []
        full = (first,) + hist + ('update',)
        if first == 'poll':
            full = ('update', 'update') + hist + ('update', 'update')
        for op in full:
            if op == 'update':
                if kind == 'value':
                    last = pending[-1] if pending else last
                    got = pair.fetch(last)
                    require(same(got, last), '%s %s: receiver holds %s instead of %s', case, hist, show(got), show(last))
                else:
                    got = pair.fetch(len(pending))
                    require(len(got) == len(pending) and all(map(same, got, pending)),
                            '%s %s: sent %s, received %s', case, hist, show(pending), show(got))
                pending = []
            elif op in OBJECTS:
                pair.send(OBJECTS[op])
                pending.append(OBJECTS[op])
            elif op in GARBAGE:
                raw.sendto(GARBAGE[op], pair.address)
            else:
                raw.sendto(MULTI[op][0], pair.address)
                pending.extend(MULTI[op][1])
            ctx.step()
            ctx.state(kind, transport, first, show(pending))
        ctx.trace()
    raw.close()
    ctx.outcome(*case)
    pair.close()


def batch_cases(tier):
    for transport in ('unix', 'inet'):
        yield [transport]


def batch_run(case, ctx):
    """Several messages queued before one update of sender and receiver; two senders; sender without anything to send."""
    transport, = case
    pair = Pair('message', transport)
    second = NetworkMessageOut(pair.address)
    names = tuple(OBJECTS)
    for n in range(0, 5 if ctx.thorough else 4):
        for batch in itertools.product(names, repeat=n):
            for split in range(n + 1):
                for name in batch[:split]:
                    pair.source.send(OBJECTS[name])
                for name in batch[split:]:
                    second.input.push(OBJECTS[name])
                pair.sender.update()
                second.update()
                pair.sender.update()
                got = pair.fetch(n)
                require(len(got) == n and all(same(g, OBJECTS[b]) for g, b in zip(got, batch)),
                        '%s: sent %s, received %s', case, batch, show(got))
                ctx.step()
                ctx.trace()
                ctx.state(transport, batch, split)
    ctx.outcome(*case)
    pair.close()


def bulk_cases(tier):
    for transport in ('unix', 'inet'):
        for channels in (1, 2, 4, 8):
            for n in range(1, 11):
                if n * channels <= (36 if transport == 'unix' else 20):     # The kernel's socket buffers take twice as much
                    yield [transport, channels, n]


def bulk_run(case, ctx):
    """Many large messages queued before one update of sender and receiver, mixed with small ones."""
    transport, channels, n = case
    pair = Pair('message', transport)
    rng = np.sin(np.arange(channels * BUFFER_SIZE) * .1).reshape((channels, BUFFER_SIZE))
    for small in (None, *range(n)):
        objs = [rng + k for k in range(n)]
        if small is not None:
            objs[small] = Note(60 + small)
        for obj in objs:
            pair.source.send(obj)
        pair.sender.update()
        got = pair.fetch(n)
        require(len(got) == n and all(same(g, x) for g, x in zip(got, objs)), '%s: received %d of %d large messages, or others', case, len(got), n)
        ctx.step(n)
        ctx.state(*case, small)
    ctx.trace()
    ctx.outcome(*case)
    pair.close()


FAMILIES = [
    Family('objects', object_cases, object_run, '44 objects alone and nested with each other in 5 kinds of containers, value and message blocks, UNIX and UDP sockets'),
    Family('arrays', array_cases, array_run, '19 dtypes x 8 memory layouts x all shapes with up to 3 (4) dimensions of 0..3'),
    Family('sizes', size_cases, size_run, 'audio buffers of 1 to 16 channels; texts and arrays of sizes around all powers of two up to 40 kB'),
    Family('histories', history_cases, history_run, 'all histories of 4 (5) sends, malformed / empty / multi object datagrams and updates'),
    Family('batches', batch_cases, batch_run, 'all batches of up to 3 (4) queued messages from two senders'),
    Family('bulk', bulk_cases, bulk_run, 'batches of up to 10 audio buffers (up to 100 kB) of 1 to 8 channels in one update, a small message at every place among them'),
]
ASSUMPTIONS = [
    'the kernel delivers loopback datagrams in order and without loss within its socket buffers (UNIX: 10 pending datagrams); datagrams stay below the 64 kB limit of UDP',
    'dictionaries have string keys and no "type" entry of a klang type; arrays have plain (not structured or object) dtypes',
]
