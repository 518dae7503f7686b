"""Payload streams: a parser feeding a reading task."""
from functools import partial
from ..world import *
from scarletio.core.protocols_and_transports import protocol as protocol_module
from scarletio.core import ReadWriteProtocolBase
from .c19 import Transport, wait_gap

BUDGET = {'quick': 20000, 'thorough': 500000}
RULE = ('One evaluation is a connection which carries several messages, each of them parsed by a payload reader into a stream which a task '
        'reads whole or chunk by chunk, slowly or at once, from the start or late, leaving early, or cancelled at any instant, while the '
        'bytes, the end of file and connection errors arrive at any instant.')
ASSUMPTIONS = ['A stream has one reader, which reads either the whole payload or its chunks.']


def gen(rng):
    messages = []
    for _ in range(rng.randint(1, 4)):
        messages.append({'size': rng.choice([1, 3, 10, 60, 200]), 'kind': rng.choice(['exactly', 'exactly', 'most', 'until', 'own']),
                         'read': rng.choice(['whole', 'whole', 'chunks', 'chunks', 'chunks']),
                         'start': rng.choice([None, None, 'skip', 0.002, 0.03]),
                         'slow': rng.choice([None, None, 'skip', 0.0, 0.002, 0.01]),
                         'leave': rng.choice([None] * 6 + [1, 2, 3]),
                         'cancel': rng.choice([None] * 6 + ['skip', 0.0, 0.002, 0.01]),
                         'handle': rng.random() < 0.5})
    total = sum(m['size'] for m in messages) + 8 * len(messages)
    cuts = []
    style = rng.choice([(1, 3), (1, 30), (20, 90), (300, 300)])
    left = total
    while left > 0:
        size = min(left, rng.randint(*style))
        cuts.append({'size': size, 'gap': rng.choice([None, None, 'skip', 0.0, 0.001, 0.004])})
        left -= size
    return {
        'params': swarm(rng, late=[None, 0.2], late_max=[0.002]),
        'messages': messages, 'cuts': cuts,
        'end': rng.choice(['none', 'none', 'eof', 'error', 'kill']),
        'end_after': rng.randint(0, len(cuts)), 'end_gap': rng.choice([None, 'skip', 0.0, 0.003]),
        'limit': rng.choice([None, 0, 5, 40, 100]),
    }


def valid(plan):
    return (bool(plan['messages']) and all(m['size'] > 0 for m in plan['messages']) and all(c['size'] > 0 for c in plan['cuts'])
            and all(m['leave'] is None or m['leave'] > 0 for m in plan['messages'])
            and sum(c['size'] for c in plan['cuts']) >= sum(m['size'] + 8 for m in plan['messages']))


class World:
    pass


MARK = b'||/||'


def build(plan):
    """-> stream, payloads"""
    data = bytearray()
    payloads = []
    for index, message in enumerate(plan['messages']):
        body = bytes(97 + (index * 7 + i) % 26 for i in range(message['size']))
        payloads.append(body)
        data += body
        if message['kind'] == 'until':
            data += MARK
        elif message['kind'] == 'own':
            data += b'end'
    return bytes(data), payloads


async def own_reader(protocol, size, payload_stream):
    """A parser with several stages as the ones of http."""
    async for chunk in protocol._read_exactly_by_chunk(size):
        payload_stream.add_received_chunk(chunk)
    end = await protocol._read_exactly_as_one(3)
    if end != b'end':
        raise ValueError(end)
    payload_stream.set_done_success()


def start(protocol, message):
    kind = message['kind']
    if kind == 'exactly':
        return protocol.set_payload_reader(partial(protocol._read_exactly, message['size'], False))
    if kind == 'most':
        return protocol.set_payload_reader(partial(protocol._read_exactly, message['size'], True))
    if kind == 'until':
        return protocol.set_payload_reader(partial(protocol._read_until, MARK))
    return protocol.set_payload_reader(partial(own_reader, protocol, message['size']))


async def feed(w, loop):
    plan = w.plan
    position = 0
    for index, cut in enumerate(plan['cuts']):
        if index >= plan['end_after'] and plan['end'] != 'none':
            break
        await wait_gap(cut['gap'], loop)
        await w.transport.wait()
        chunk = w.data[position:position + cut['size']]
        position += len(chunk)
        w.fed = position
        w.sim.log('feed', len(chunk))
        if chunk:
            w.protocol.data_received(chunk)
            if w.protocol.get_size() > protocol_module.BUFFER_SIZE_MAX and not w.transport.paused:
                raise Violation('not-paused', f'{w.protocol.get_size()} bytes are buffered, reading is not paused')
    kind = plan['end']
    if kind == 'none':
        return
    await wait_gap(plan['end_gap'], loop)
    await w.transport.wait()
    w.ended = kind
    if kind == 'eof':
        w.protocol.eof_received()
        await skip_ready_cycle()
        w.protocol.connection_lost(None)
    elif kind == 'error':
        w.protocol.connection_lost(w.error)
    else:
        w.protocol.cancel_current_reader()


class Reader:
    def __init__(self, w, stream, message):
        self.w = w
        self.stream = stream
        self.message = message
        self.got = bytearray()
        self.left = False
        self.complete = False
        self.started = False

    async def run(self, loop):
        message = self.message
        await wait_gap(message['start'], loop)
        self.started = True
        if message['read'] == 'whole':
            self.got += await self.stream
            self.w.sim.log('whole', len(self.got))
            self.complete = True
            return
        count = 0
        iterator = self.stream.__aiter__()
        try:
            async for chunk in iterator:
                if not chunk:
                    raise Violation('empty-chunk', '')
                self.got += chunk
                self.w.sim.log('chunk', len(chunk))
                count += 1
                if count == message['leave']:
                    self.left = True
                    break
                await wait_gap(message['slow'], loop)
            else:
                self.complete = True
        finally:
            await iterator.aclose()


async def program(loop, w):
    plan = w.plan
    protocol = w.protocol = ReadWriteProtocolBase(loop)
    w.error = ConnectionResetError('injected')
    w.ended = None
    w.fed = 0
    w.transport = Transport(loop)
    protocol.connection_made(w.transport)
    feeder = Task(loop, feed(w, loop))
    position = 0
    for index, message in enumerate(plan['messages']):
        payload = w.payloads[index]
        size = len(payload) + {'until': len(MARK), 'own': 3}.get(message['kind'], 0)
        stream = start(protocol, message)
        done = []
        stream.add_done_callback(done.append)
        if message['handle']:
            protocol.handle_payload_stream_abortion()
        reader = Reader(w, stream, message)
        task = Task(loop, reader.run(loop))
        cancelled = False
        if message['cancel'] is not None:
            await wait_gap(message['cancel'], loop)
            if task.is_pending():
                cancelled = True
                task.cancel()
        event = Future(loop)
        handle = loop.call_after(5.0, event.set_result_if_pending, None)
        task.add_done_callback(lambda t, event=event: event.set_result_if_pending(None))
        await event
        handle.cancel()
        if task.is_pending():
            raise Violation('hang', f'message {index} {message} does not end, {len(reader.got)} of {len(payload)} arrived, ended: {w.ended}, paused: {w.transport.paused}')
        error = None
        try:
            await task
        except CancelledError:
            if not cancelled:
                raise Violation('cancelled', 'the reader was cancelled by itself')
            cancelled = 'yes'
        except ConnectionError as exception:
            error = exception
        got = bytes(reader.got)
        w.sim.log('outcome', index, str(error or cancelled))
        if not payload.startswith(got):
            raise Violation('wrong-data', f'message {index} {message} got {got[:60]!r} instead of {payload[:60]!r}')
        if cancelled == 'yes' and not reader.started:
            break
        if cancelled == 'yes':
            if not stream.is_aborted():
                if reader.left or not done:
                    raise Violation('not-aborted', f'message {index} {message}')
        elif error is not None:
            available = w.ended is not None
            if not available:
                raise Violation('failed', f'message {index} {message} failed with {error!r} on a living connection')
            if w.ended == 'error' and error is not w.error:
                raise Violation('wrong-error', f'{error!r} instead of {w.error!r}')
            if w.ended == 'eof' and message['kind'] == 'most':
                raise Violation('failed', f'message {index} {message} failed with {error!r}, it accepts the end of file')
            if w.ended in ('eof', 'kill') and w.fed >= position + size and message['start'] is None and not w.left and w.ended != 'kill':
                raise Violation('failed', f'message {index} {message} failed with {error!r}, it arrived completely')
        elif reader.left:
            if not done:
                raise Violation('not-aborted', f'message {index} {message} was left, its stream is still open')
        elif got != payload:
            if not (message['kind'] == 'most' and w.ended == 'eof' and position + len(got) == w.fed):
                raise Violation('short', f'message {index} {message} ended after {len(got)} of {len(payload)} bytes, {w.ended}')
        if len(done) != 1:
            raise Violation('done-callback', f'the callback of the stream was called {len(done)} times')
        if reader.complete and got == payload and stream.is_aborted():
            raise Violation('aborted', 'a complete payload is marked as aborted')
        position += size
        if stream.is_aborted() or w.ended is not None or error is not None:
            if message['handle'] and stream.is_aborted():
                if protocol._payload_reader is not None:
                    raise Violation('not-cleaned', 'the payload reader of an aborted stream is still set')
            break
    if protocol._payload_reader is not None:
        protocol.cancel_current_reader()
    protocol.close()
    if feeder.is_done():
        await feeder
    else:
        feeder.cancel()
        try:
            await feeder
        except CancelledError:
            pass


def run(plan, sim):
    w = World()
    w.plan, w.sim = plan, sim
    w.left = False
    w.data, w.payloads = build(plan)
    limit = protocol_module.BUFFER_SIZE_MAX
    if plan['limit'] is not None:
        protocol_module.BUFFER_SIZE_MAX = plan['limit']
    try:
        run_async(sim, program, w)
    finally:
        protocol_module.BUFFER_SIZE_MAX = limit
