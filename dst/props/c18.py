"""Datagram endpoints."""
import socket as socket_module

from ..world import *
from .c29 import until
from scarletio.core import AbstractProtocolBase, DatagramAddressedReadProtocol, DatagramMergerReadProtocol, ReadProtocolBase
from scarletio.core import Future

BUDGET = {'quick': 30000, 'thorough': 600000}
RULE = ('One evaluation is the life of a datagram endpoint (bound, connected, broadcasting or made from a socket) between simulated peers: bursts of datagrams in '
        'both directions while the socket is full, sending and receiving fail, datagrams are lost, duplicated and reordered, and the endpoint is closed or '
        'aborted at a random time. Every call which reaches the socket is recorded and compared with what was asked for.')
ASSUMPTIONS = ['Empty datagrams are not sent (the transport ignores them).', 'What is sent after closing may be dropped.']
STUBS = ['peers']

ADDRESS = ('127.0.0.1', 5300)


def gen(rng):
    n = rng.choice([0, 1, 3, 10, 30, 60])
    kind = rng.choice(['bound', 'bound', 'connected', 'broadcast', 'with'])
    flood = rng.random() < 0.1
    return {
        'params': swarm(rng, delay_max=[0.001, 0.005], eagain=[0.0, 0.2, 0.8, 0.98], udp_send_error=[None, None, 0.1, 0.5], udp_loss=[None, 0.2], udp_dup=[None, 0.2],
                        udp_reorder=[None, 0.3], udp_reorder_max=[0.01], udp_queue=[1, 4, 64], late=[None, 0.2], late_max=[0.002], tick=[1e-7]),
        'kind': kind, 'protocol': rng.choice(['plain', 'plain', 'addressed', 'merger']),
        'limits': rng.choice([None, None, [100, 10], [0, 0], [5000, 5000]]),
        'peers': rng.choice([1, 2, 3]),
        'listening': rng.random() < 0.8,
        'sends': [[rng.choice([0.0, 0.0, 0.001, 0.01]), rng.choice([0, 1, 10, 100, 1400, 9000, 60000]), rng.randint(0, 2), rng.choice(['bytes', 'bytearray', 'memoryview', 'changed'])]
                  for _ in range(n)],
        'receives': [[rng.choice([0.0, 0.001, 0.01, 0.03]) + rng.random() * 0.001, rng.choice([0, 1, 10, 1400, 9000]), rng.randint(0, 2)]
                     for _ in range(rng.choice([0, 1, 3, 10, 30]))] if not flood else [[0.0, rng.choice([9000, 60000]), 0] for _ in range(20)],
        'end': rng.choice(['close', 'close', 'close', 'abort', 'close-abort', 'fatal']), 'end_at': rng.choice([0.0, 0.001, 0.005, 0.02, 0.1, 0.5]),
        'after': rng.choice([0, 0, 1, 2]),
        'waiters': [[rng.choice([0.0, 0.001, 0.02]), rng.choice([None, 0, 1, 2]), rng.choice([None, None, 0.005, 0.05])] for _ in range(rng.choice([0, 1, 2, 3]))],
        'factory': rng.choice([None] * 15 + ['fail']),
    }


def valid(plan):
    return plan['peers'] in (1, 2, 3) and plan['limits'] in (None, [100, 10], [0, 0], [5000, 5000]) and all(len(s) == 4 for s in plan['sends']) and all(
        len(r) == 3 for r in plan['receives']) and all(len(r) == 3 and r[1] in (None, 0, 1, 2) for r in plan['waiters'])


class World:
    pass


class Plain(AbstractProtocolBase):
    __slots__ = ('w', 'transport')

    def __new__(cls, w):
        self = object.__new__(cls)
        self.w = w
        self.transport = None
        return self

    def connection_made(self, transport):
        self.transport = transport

    def connection_lost(self, exception):
        pass

    def datagram_received(self, data, address):
        pass

    def error_received(self, exception):
        pass

    def pause_writing(self):
        pass

    def resume_writing(self):
        pass

    def get_transport(self):
        return self.transport


def instrument(w, cls):
    """The events the transport gives to the protocol are recorded, then handled by the real protocol."""
    class Instrumented(cls):
        __slots__ = ()

        def connection_made(self, transport):
            w.events.append(('made',))
            w.transport = transport
            cls.connection_made(self, transport)

        def connection_lost(self, exception):
            w.events.append(('lost', exception))
            w.lost_at = w.sim.now
            cls.connection_lost(self, exception)

        def datagram_received(self, data, address):
            w.events.append(('data', bytes(data), tuple(address)))
            cls.datagram_received(self, data, address)

        def error_received(self, exception):
            w.events.append(('error', exception))
            w.errors.append(exception)
            cls.error_received(self, exception)

        def pause_writing(self):
            if w.paused:
                w.fail('paused-twice', '')
            w.paused = True
            w.sim.fault('paused')
            if w.transport.get_write_buffer_size() <= w.transport.get_write_buffer_limits()[1]:
                w.fail('paused-early', '')
            cls.pause_writing(self)

        def resume_writing(self):
            if not w.paused:
                w.fail('resumed-twice', '')
            w.paused = False
            if w.transport.get_write_buffer_size() > w.transport.get_write_buffer_limits()[0]:
                w.fail('resumed-early', '')
            cls.resume_writing(self)
    Instrumented.__name__ = cls.__name__
    return Instrumented


def payload(tag, index, size):
    head = f'{tag}{index}|'.encode()
    return (head + bytes((index * 7 + i) & 255 for i in range(min(size, 251))) * (size // 251 + 1))[:max(size, 1)]


class Attempts:
    """Records what reaches the socket."""

    def __init__(self, w, k):
        self.w = w
        self.k = k
        self.calls = []
        self.received = []
        self.receive_errors = 0
        k_send = k.sendto
        k_receive = k.recvfrom

        def sendto(data, address):
            target = address if address is not None else k.peer_address
            data_copy = bytes(data)
            try:
                result = k_send(data, address)
            except BlockingIOError:
                raise
            except OSError as exception:
                self.calls.append((data_copy, tuple(target), exception))
                raise
            self.calls.append((data_copy, tuple(target), None))
            return result

        def recvfrom(n):
            try:
                data, source = k_receive(n)
            except BlockingIOError:
                raise
            except OSError:
                self.receive_errors += 1
                raise
            if w.break_reads:
                w.break_reads = False
                w.sim.fault('fatal_read')
                raise Marker('read')
            self.received.append((bytes(data), tuple(source)))
            return data, source
        k.sendto = sendto
        k.recvfrom = recvfrom


async def wait_for(w, loop, protocol, record):
    index = record['address']
    address = None if index is None else w.peers[index % len(w.peers)]
    record['begin'] = w.sim.now
    record['target'] = address
    record['result'] = await protocol.wait_for_receive(address, record['timeout'])
    record['end'] = w.sim.now
    record['seen'] = {e[2] for e in w.events if e[0] == 'data'}


async def main(loop, w):
    plan = w.plan
    sim = w.sim
    net = sim.net
    before = set(net.fds)
    made = []
    arrived = []

    def factory():
        if plan['factory'] == 'fail':
            raise Marker('factory')
        if plan['protocol'] == 'plain':
            protocol = instrument(w, Plain)(w)
        elif plan['protocol'] == 'addressed':
            protocol = instrument(w, DatagramAddressedReadProtocol)(loop, lambda: ReadProtocolBase(loop))
        else:
            protocol = instrument(w, DatagramMergerReadProtocol)(loop)
        made.append(protocol)
        return protocol
    for index, peer in enumerate(w.peers):
        if plan['listening'] or index:
            net.udp[peer] = lambda data, source, reply, peer=peer: arrived.append((bytes(data), tuple(source), peer))
    kind = plan['kind']
    try:
        if kind == 'bound':
            protocol = await loop.create_datagram_connection_to(factory, ADDRESS, None)
        elif kind == 'connected':
            protocol = await loop.create_datagram_connection_to(factory, ADDRESS, w.peers[0])
        elif kind == 'broadcast':
            protocol = await loop.create_datagram_connection_to(factory, ADDRESS, w.peers[0], allow_broadcast=True)
        else:
            sock = socket_module.socket(socket_module.AF_INET, socket_module.SOCK_DGRAM)
            sock.bind(ADDRESS)
            try:
                protocol = await loop.create_datagram_connection_with(factory, sock)
            except Marker:
                sock.close()
                raise
    except Marker:
        await sleep(0.01, loop)
        if set(net.fds) - before:
            raise Violation('leak', f'failed factory {plan}')
        return
    base = sim.now
    if protocol is not made[0] or len(made) != 1 or w.events != [('made',)]:
        raise Violation('made', f'{w.events} {plan}')
    transport = w.transport
    attempts = Attempts(w, net.udp[ADDRESS])
    if plan['limits'] is not None:
        transport.set_write_buffer_limits(*plan['limits'])
    fixed = w.peers[0] if kind in ('connected', 'broadcast') else None
    asked = []
    sources = w.peers[:1] if kind == 'connected' else w.peers
    for index, (at, size, peer) in enumerate(plan['receives']):
        sim.at(base + at, w.deliver, payload('r', index, size) if size else b'', w.peers[peer % len(w.peers)])

    async def sender():
        for index, (delay, size, peer, form) in enumerate(plan['sends']):
            if delay:
                await sleep(delay, loop)
            if w.ending:
                return
            data = payload('s', index, size) if size else b''
            target = fixed if fixed is not None else w.peers[peer % len(w.peers)]
            if data:
                asked.append((data, target))
            if form == 'bytes':
                argument = data
            elif form == 'memoryview':
                argument = memoryview(data)
            else:
                argument = bytearray(data)
            transport.send_to(argument, None if fixed is not None and index % 2 else target)
            if not w.paused and transport.get_write_buffer_size() > transport.get_write_buffer_limits()[1]:
                w.fail('not-paused', f'{transport.get_write_buffer_size()} bytes are buffered')
            if form == 'changed':
                argument[:] = b'\xff' * len(argument)
    send_task = loop.create_task(sender())
    records = []
    if plan['protocol'] == 'addressed':
        async def later(at, record):
            await sleep(at, loop)
            record['task'] = loop.create_task(wait_for(w, loop, protocol, record))
        for at, address, timeout in plan['waiters']:
            record = {'address': address, 'timeout': timeout, 'result': None, 'end': None, 'begin': None}
            record['outer'] = loop.create_task(later(at, record))
            records.append(record)
    await sleep(plan['end_at'], loop)
    if w.paused and not transport.get_write_buffer_size():
        # if the last one failed, the next writable event resumes
        await until(loop, lambda: not w.paused or transport.get_write_buffer_size(), 0.5 if plan['params'].get('eagain', 0) < 0.9 else 20.0, 0.001)
        if w.paused and not transport.get_write_buffer_size():
            w.fail('not-resumed', 'nothing is buffered')
    end = plan['end']
    w.ending = True
    full = True
    sim.log('end', end)
    if end == 'fatal':
        w.break_reads = True
        w.deliver(b'break', w.peers[0])
        await until(loop, lambda: not w.break_reads, 0.5, 0.001)
        if w.break_reads:
            # it was lost
            w.break_reads = False
            transport.close()
        else:
            full = False
            w.fatal = True
    elif end == 'abort':
        full = False
        transport.abort()
    else:
        if plan['protocol'] == 'plain':
            transport.close()
        else:
            protocol.close()
        if not transport.is_closing():
            raise Violation('closing', '')
        if end == 'close-abort':
            await sleep(0.001, loop)
            full = w.lost_at is not None
            transport.abort()
    extra = []
    ended = len([e for e in w.events if e[0] == 'data'])
    for index in range(plan['after']):
        # dropped or sent, but nothing breaks
        data = payload('a', index, 20)
        extra.append((data, w.peers[0]))
        transport.send_to(data, w.peers[0])
        await sleep(0.001, loop)
    if not await until(loop, lambda: w.lost_at is not None, 2.0 if plan['params'].get('eagain', 0) < 0.9 else 20.0, 0.001):
        raise Violation('not-closed', f'{plan}')
    await sleep(0.1, loop)
    transport.send_to(b'late', w.peers[0])
    transport.close()
    transport.abort()
    await sleep(0.02, loop)
    w.check()
    lost = [e for e in w.events if e[0] == 'lost']
    if len(lost) != 1 or w.events[-1][0] != 'lost' and w.events[-1] is not lost[0]:
        raise Violation('lost', f'{[e[0] for e in w.events[-4:]]} {plan}')
    if (lost[0][1] is None) != (not w.fatal):
        raise Violation('lost-reason', f'{lost[0]!r} {plan}')
    calls = [(data, target) for data, target, _ in attempts.calls]
    if full:
        wanted = calls[:len(asked)]
        rest = calls[len(asked):]
        if wanted != asked:
            raise Violation('sent', f'{len(calls)} of {len(asked)} reached the socket, first difference {first(calls, asked)} {plan}')
        if any(call not in extra for call in rest) or len(set(rest)) != len(rest):
            raise Violation('sent-extra', f'{rest[:3]!r:.300} {plan}')
    else:
        normal = [c for c in calls if c not in extra]
        if normal != asked[:len(normal)]:
            raise Violation('sent', f'{len(calls)} of {len(asked)} reached the socket, first difference {first(calls, asked)} {plan}')
    got = [e[1:] for e in w.events if e[0] == 'data']
    if got != attempts.received:
        raise Violation('received', f'{len(got)} {len(attempts.received)} {first(got, attempts.received)} {plan}')
    errors = sum(1 for *_, exception in attempts.calls if exception is not None) + attempts.receive_errors
    if len(w.errors) != errors:
        raise Violation('errors', f'{len(w.errors)} reported of {errors} {plan}')
    for exception in w.errors:
        if not isinstance(exception, OSError):
            raise Violation('errors', f'{exception!r}')
    if [fd for fd in net.fds if fd not in before]:
        raise Violation('leak', f'{plan}')
    # the derived protocols
    if plan['protocol'] == 'addressed':
        by_address = {}
        for data, source in got:
            by_address[source] = by_address.get(source, b'') + data
        if set(by_address) != set(protocol._by_address):
            raise Violation('addressed', f'{set(protocol._by_address)} {plan}')
        for source, data in by_address.items():
            reader = protocol._by_address[source]
            task = loop.create_task(reader.read())
            await sleep(0.01, loop)
            outcome = outcome_of(task)
            if w.fatal:
                if outcome[0] != 'raise':
                    raise Violation('addressed-read', f'{outcome!r:.200} {plan}')
            elif outcome != ('return', data):
                raise Violation('addressed-read', f'{outcome!r:.200} {plan}')
        for record in records:
            await record['outer']
        await sleep(0.06, loop)
        for record in records:
            outcome = outcome_of(record['task'])
            if outcome[0] == 'pending':
                raise Violation('wait-hangs', f'{record} lost at {w.lost_at} {plan}')
            if outcome[0] == 'raise' and isinstance(outcome[1], (ConnectionError, Marker)):
                sim.fault('wait_lost')
                continue
            if outcome[0] != 'return':
                raise Violation('wait', f'{outcome!r} {plan}')
            result = record['result']
            if result is None:
                if record['timeout'] is None or record['end'] - record['begin'] < record['timeout'] - 0.001:
                    raise Violation('wait', f'{record} {plan}')
                sim.fault('wait_timed_out')
                continue
            if record['timeout'] is not None and record['end'] - record['begin'] > record['timeout'] + 0.01:
                raise Violation('wait-late', f'{record} {plan}')
            if record['target'] is None:
                address, reader = result
            else:
                address, reader = record['target'], result
            if protocol._by_address.get(address) is not reader or address not in record['seen']:
                raise Violation('wait-result', f'{record} {plan}')
    elif plan['protocol'] == 'merger':
        task = loop.create_task(protocol.read())
        await sleep(0.01, loop)
        outcome = outcome_of(task)
        if w.fatal:
            if outcome[0] != 'raise':
                raise Violation('merger-read', f'{outcome!r:.200} {plan}')
        elif outcome != ('return', b''.join(data for data, _ in got)):
            raise Violation('merger-read', f'{outcome!r:.200} {plan}')


def first(a, b):
    for index, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return index, x[0][:30], y[0][:30], x[1], y[1]
    return min(len(a), len(b))


def run(plan, sim):
    from ..net import udp_transmit
    w = World()
    w.plan = plan
    w.sim = sim
    w.peers = [('127.0.0.1', 6001 + index) for index in range(plan['peers'])]
    w.events = []
    w.errors = []
    w.paused = False
    w.transport = None
    w.lost_at = None
    w.ending = False
    w.break_reads = False
    w.fatal = False
    w.problems = []
    w.fail = lambda kind, text: w.problems.append((kind, text))

    def check():
        if w.problems:
            kind, text = w.problems[0]
            raise Violation(kind, f'{text} {plan}')
    w.check = check
    w.deliver = lambda data, source: udp_transmit(sim.net, data, source, ADDRESS)
    run_async(sim, main, w, check_errors=False)
    no_errors(sim, allow=(Marker,))
    if not w.fatal:
        no_errors(sim)
