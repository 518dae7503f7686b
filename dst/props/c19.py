"""Reads of stream protocols."""
import socket as real_socket
from functools import partial
from ..world import *
from .. import net as N
from scarletio.core.protocols_and_transports import protocol as protocol_module
from scarletio.core import ReadWriteProtocolBase

BUDGET = {'quick': 20000, 'thorough': 500000}
RULE = ('One evaluation is one stream of bytes over a small alphabet cut into chunks at random, handed to a protocol directly or through '
        'a transport over a simulated connection with its own cuts, delays, and an end (end of file or reset) at a random position, while '
        'a program of reads (exact, at most, until a marker, once, until the end) goes on, some of them cancelled. A model over the '
        'uncut stream says what every read has to return.')
ASSUMPTIONS = ['One read goes on at a time.', 'After a cancelled read the user calls cancel_current_reader before reading again; what the '
               'cancelled read took before is lost with it.']


def gen(rng):
    alphabet = rng.choice(['ab', 'ab', 'abc', '\r\n', '\r\na'])
    scale = rng.choice([1, 1, 1, 1, 1, 2000])
    length = rng.randint(0, 60)
    text = ''.join(rng.choice(alphabet) for _ in range(length))
    ops = []
    for _ in range(rng.randint(1, 8)):
        kind = rng.choice(['exactly', 'exactly', 'most', 'until', 'until', 'until', 'until', 'once', 'zero', 'all'])
        op = {'kind': kind, 'gap': rng.choice([None, None, 'skip', 0.001, 0.02])}
        if kind in ('exactly', 'most'):
            op['n'] = rng.choice([1, 2, 3, 5, 9, 20, 70]) * rng.choice([1, scale])
        elif kind == 'until':
            size = rng.randint(1, 5)
            if rng.random() < 0.6 and length > 8:
                start = rng.randint(0, length - size)
                op['boundary'] = text[start:start + size]
            else:
                op['boundary'] = ''.join(rng.choice(alphabet) for _ in range(size))
        op['cancel'] = rng.choice([None] * 7 + [0.0, 'skip', 0.002]) if scale == 1 else None
        ops.append(op)
    cuts = []
    left = length
    style = rng.choice([(1, 2), (1, 3), (1, 8), (4, 40), (60, 60)])
    while left > 0:
        size = min(left, rng.randint(*style))
        cuts.append({'size': size, 'gap': rng.choice([None, None, 'skip', 0.0, 0.001, 0.004])})
        left -= size
    return {
        'params': swarm(rng, delay_min=[0.0, 0.001], delay_max=[0.001, 0.004], cap=[65536, 5000], eagain=[0.0, 0.2],
                        segment=[0.0, 0.5], short=[0.0, 0.4], late=[None, 0.2], late_max=[0.002]),
        'how': rng.choice(['direct', 'direct', 'net']),
        'text': text, 'scale': scale, 'cuts': cuts, 'ops': ops,
        'end': rng.choice(['eof', 'eof', 'none', 'lost', 'error']),
        'end_gap': rng.choice([None, 'skip', 0.0, 0.003, 0.05]),
        'type': rng.choice(['bytes', 'bytes', 'bytearray']),
        'limit': rng.choice([None, None, 0, 1, 10, 40]),
    }


def valid(plan):
    return bool(plan['ops']) and sum(c['size'] for c in plan['cuts']) == len(plan['text']) and all(
        o.get('n', 1) > 0 and o.get('boundary', 'x') for o in plan['ops']) and plan['scale'] > 0 and all(c['size'] > 0 for c in plan['cuts'])


class World:
    pass


class Transport:
    """A transport which is driven by the workload."""
    def __init__(self, loop):
        self.loop = loop
        self.paused = False
        self.waiter = None

    def pause_reading(self):
        if self.paused:
            raise Violation('paused-twice', '')
        self.paused = True

    def resume_reading(self):
        self.paused = False
        waiter = self.waiter
        if waiter is not None:
            self.waiter = None
            waiter.set_result_if_pending(None)

    async def wait(self):
        while self.paused:
            self.waiter = Future(self.loop)
            await self.waiter

    def get_extra_info(self, name, default=None):
        return default

    def close(self):
        pass

    def is_closing(self):
        return False


async def wait_gap(gap, loop):
    if gap == 'skip':
        await skip_ready_cycle()
    elif gap is not None:
        await sleep(gap, loop)


async def feed(w, loop):
    plan = w.plan
    position = 0
    data = w.data
    for cut in plan['cuts']:
        await wait_gap(cut['gap'], loop)
        size = cut['size'] * plan['scale']
        w.sim.log('feed', size)
        chunk = data[position:position + size]
        if w.end is None:
            await w.transport.wait()
            w.fed = position + size
            w.protocol.data_received(bytearray(chunk) if plan['type'] == 'bytearray' else chunk)
            if w.protocol.get_size() > protocol_module.BUFFER_SIZE_MAX and not w.transport.paused:
                raise Violation('not-paused', f'{w.protocol.get_size()} bytes are buffered, reading is not paused')
        else:
            w.fed = position + size
            w.end.raw_send(chunk)
        position += size
    await wait_gap(plan['end_gap'], loop)
    kind = plan['end']
    if kind == 'none':
        return
    if w.end is None:
        await w.transport.wait()
        if kind == 'eof':
            w.protocol.eof_received()
        elif kind == 'lost':
            w.protocol.connection_lost(None)
        else:
            w.broken = True
            w.protocol.connection_lost(w.error)
        w.ended = True
        if kind == 'eof':
            await wait_gap(plan['end_gap'], loop)
            w.protocol.connection_lost(None)
    elif kind == 'error':
        w.broken = True
        w.end.raw_rst()
    elif kind == 'lost':
        w.end.raw_close()
    else:
        w.end.raw_fin()


def perform(protocol, op):
    kind = op['kind']
    if kind == 'exactly':
        return protocol.read_exactly(op['n'])
    if kind == 'most':
        return protocol.read(op['n'])
    if kind == 'until':
        return protocol.read_until(op['boundary'].encode())
    if kind == 'once':
        return protocol.read_once()
    if kind == 'zero':
        return protocol.read_exactly(0)
    return protocol.read(-1)


def expect(w, position, op, result):
    """Where the stream is after the result, None if it is not right."""
    data = w.data
    kind = op['kind']
    total = len(data)
    ends = w.plan['end'] != 'none'
    if kind == 'exactly':
        end = position + op['n']
        return end if end <= total and result == data[position:end] else None
    if kind == 'most':
        end = position + op['n']
        if end > total and not ends:
            return None
        return min(end, total) if result == data[position:end] else None
    if kind == 'until':
        boundary = op['boundary'].encode()
        index = data.find(boundary, position)
        if index < 0 or result != data[position:index]:
            return None
        return index + len(boundary)
    if kind == 'once':
        if not result:
            return total if position == total and ends else None
        end = position + len(result)
        return end if result == data[position:end] else None
    if kind == 'zero':
        return position if result == b'' else None
    return total if ends and result == data[position:] else None


def may_fail(w, position, op):
    """Whether the stream ends before the read is satisfied."""
    total = len(w.data)
    kind = op['kind']
    if kind == 'exactly':
        return position + op['n'] > total
    if kind == 'until':
        return w.data.find(op['boundary'].encode(), position) < 0
    if kind == 'once':
        return position == total
    return False


def may_wait(w, position, op):
    """Whether the read waits when everything arrived and the connection is open"""
    total = len(w.data)
    if op['kind'] == 'most':
        return position + op['n'] > total
    if op['kind'] == 'all':
        return True
    return may_fail(w, position, op)


async def program(loop, w):
    plan = w.plan
    protocol = w.protocol = ReadWriteProtocolBase(loop)
    w.error = ConnectionResetError('injected')
    w.broken = False
    w.ended = False
    w.fed = 0
    if plan['how'] == 'net':
        a, b = w.ends = N.make_pair(w.sim.net, 'pair')
        b.callback = lambda end, kind, data: None
        sock = N.SimSocket(real_socket.AF_INET, real_socket.SOCK_STREAM, _kobj=a)
        await loop.create_connection_with(lambda: protocol, sock)
        w.end = b
    else:
        w.end = None
        w.transport = Transport(loop)
        protocol.connection_made(w.transport)
    feeder = Task(loop, feed(w, loop))
    positions = {0}
    for index, op in enumerate(plan['ops']):
        await wait_gap(op['gap'], loop)
        broken_before = w.broken
        fed_before = w.fed
        task = Task(loop, perform(protocol, op))
        cancelled = False
        if op['cancel'] is not None:
            await wait_gap(op['cancel'], loop)
            if task.is_pending():
                cancelled = True
                task.cancel()
        else:
            limit = 1.0 + len(w.data) / 20000
            event = Future(loop)
            handle = loop.call_after(limit, event.set_result_if_pending, None)
            task.add_done_callback(lambda t: event.set_result_if_pending(None))
            await event
            handle.cancel()
            if task.is_pending():
                if feeder.is_pending():
                    raise Violation('sender-stuck', f'operation {index} {op} waits, reading is paused, the sender can not go on')
                if plan['end'] != 'none' or not any(may_wait(w, p, op) for p in positions):
                    raise Violation('hang', f'operation {index} {op} does not end at {sorted(positions)[:5]} of {len(w.data)}')
                task.cancel()
                try:
                    await task
                except CancelledError:
                    pass
                break
        try:
            result = await task
        except CancelledError:
            if not cancelled:
                raise Violation('cancelled', f'operation {index} was cancelled by itself')
            protocol.cancel_current_reader()
            positions = set(range(min(positions), len(w.data) + 1))
            continue
        except ConnectionError as exception:
            if exception is w.error or w.broken and not isinstance(exception, Marker) and plan['how'] == 'net':
                if not w.broken:
                    raise Violation('early-error', repr(exception))
                w.broken = True
                w.failed = True
                # from now on everything fails
                positions = set(range(min(positions), len(w.data) + 1))
                continue
            if plan['end'] == 'none' or not any(may_fail(w, p, op) for p in positions):
                raise Violation('failed', f'operation {index} {op} failed with {exception!r} at {sorted(positions)[:5]} of {len(w.data)}')
            positions = {len(w.data)}
            continue
        if not isinstance(result, (bytes, bytearray, memoryview)):
            raise Violation('wrong-type', repr(result))
        result = bytes(result)
        w.sim.log('result', op['kind'], len(result))
        if w.failed and op['kind'] != 'zero':
            raise Violation('after-error', f'operation {index} {op} returned {len(result)} bytes after the connection failed')
        new = {expect(w, p, op, result) for p in positions}
        new.discard(None)
        if op['kind'] == 'all' and w.broken and plan['how'] == 'net':
            pass
        if not new:
            raise Violation('wrong-data', f'operation {index} {op} returned {result[:80]!r} ({len(result)} bytes) at {sorted(positions)[:5]} of {w.data[:80]!r}')
        if plan['how'] == 'direct' and op['kind'] == 'once' and len(positions) == 1 and min(positions) == 0 and not cancelled:
            pass
        positions = new
    else:
        # what is left
        if plan['end'] in ('eof', 'lost') and len(positions) == 1 and not w.failed:
            task = Task(loop, protocol.read(-1))
            await sleep(2.0 + len(w.data) / 20000, loop)
            if task.is_pending():
                raise Violation('hang', 'reading until the end does not end')
            result = bytes(await task)
            if result != w.data[min(positions):]:
                raise Violation('wrong-data', f'the rest is {result[:80]!r} at {positions} of {w.data[:80]!r}')
            if not protocol.is_at_eof() or protocol.get_size():
                raise Violation('not-at-eof', f'{protocol!r} {protocol.get_size()}')
    if feeder.is_done():
        await feeder
    else:
        feeder.cancel()
        try:
            await feeder
        except CancelledError:
            pass
    if plan['how'] == 'net':
        transport = protocol.get_transport()
        if transport is not None:
            transport.abort()
        await sleep(0.1, loop)


def run(plan, sim):
    w = World()
    w.plan, w.sim = plan, sim
    w.failed = False
    w.data = b''.join(bytes([c]) * plan['scale'] for c in plan['text'].encode())
    if plan['scale'] != 1:
        # not runs only
        w.data = plan['text'].encode() * plan['scale']
    limit = protocol_module.BUFFER_SIZE_MAX
    if plan['limit'] is not None:
        protocol_module.BUFFER_SIZE_MAX = plan['limit']
    try:
        run_async(sim, program, w)
    finally:
        protocol_module.BUFFER_SIZE_MAX = limit
