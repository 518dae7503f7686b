"""Stream transports: ordering, closing and flow control."""
import array, errno
import socket as real_socket
from ..world import *
from .. import net as N
from scarletio.core.protocols_and_transports import protocol as protocol_module
from scarletio.core import ReadWriteProtocolBase

BUDGET = {'quick': 14000, 'thorough': 350000}
RULE = ('One evaluation is one connection between two stream transports (or one and a raw peer): programs of write, writelines, '
        'end of file, pause, resume, limits, close and abort run from outside and inside of protocol callbacks over a network '
        'with segmentation, short writes, spurious would-block answers, stalls and resets; or concurrent writers which drain '
        'the stock protocol while its reading is paused by its own buffer.')
ASSUMPTIONS = ['Buffers given to a transport are not changed by their owner afterwards.',
               'The two callbacks of the protocol which are called for flow control do not raise.']


def gen(rng):
    params = swarm(rng, delay_min=[0.0, 0.001], delay_max=[0.001, 0.004], cap=[65536, 700, 64], eagain=[0.0, 0.0, 0.3],
                   short=[0.0, 0.3], segment=[0.0, 0.4], late=[None, 0.2], late_max=[0.002])
    if rng.random() < 0.25:
        return {'params': params, 'mode': 'drain', 'buffer': rng.choice([60, 400, 5000]), 'high': rng.choice([20, 200, 2000]),
                'side': [{'writers': [{'sizes': [rng.choice([1, 30, 300, 1500]) for _ in range(rng.randint(1, 4))],
                                       'gap': rng.choice([None, 0.0, 0.003]), 'cancel': rng.choice([None, None, None, 0.002, 0.01])}
                                      for _ in range(rng.randint(0, 3))],
                          'read_gap': rng.choice([None, 0.0, 0.002, 0.02]), 'read_size': rng.choice([1, 17, 200])} for _ in range(2)],
                'end': rng.choice(['close', 'close', 'reset', 'abort', 'abort_error']), 'end_at': rng.choice([None, None, 0.001, 0.01, 0.05])}

    def op(inside=False):
        kind = rng.choice(['write'] * 5 + ['writelines', 'pause', 'resume', 'resume', 'limits', 'eof', 'close', 'abort', 'abort_error'])
        return {'kind': kind, 'size': rng.choice([0, 1, 5, 50, 500, 2000]), 'type': rng.choice(['bytes', 'bytes', 'bytearray', 'view', 'array']),
                'high': rng.choice([0, 10, 100, 1000]), 'gap': None if inside else rng.choice([None, None, 'skip', 0.0, 0.001, 0.005])}

    def side():
        quiet = rng.random() < 0.5
        inside = {name: [op(True) for _ in range(rng.randint(1, 2))] for name in ('made', 'data', 'eof', 'pause', 'resume') if rng.random() < 0.25}
        out = {'ops': [op() for _ in range(rng.randint(1, 8))], 'inside': inside, 'nth': rng.randint(1, 3),
               'keep': rng.random() < 0.4}
        if quiet:
            for ops in (out['ops'], *inside.values()):
                for o in ops:
                    if o['kind'] in ('abort', 'abort_error', 'close'):
                        o['kind'] = 'write'
        return out
    return {'params': params, 'mode': 'program', 'how': rng.choice(['pair', 'pair', 'pair', 'server']),
            'sides': [side(), side()], 'reset_at': rng.choice([None] * 7 + [0.0, 0.004, 0.01]),
            'cancel': rng.choice([None] * 8 + [0])}


def valid(plan):
    if plan['mode'] == 'drain':
        return len(plan['side']) == 2 and all(s['read_size'] > 0 for s in plan['side']) and plan['buffer'] > 0
    return len(plan['sides']) == 2 and all(s['nth'] > 0 for s in plan['sides'])


class World:
    pass


def build(kind, seed, size):
    data = bytes((seed * 31 + i * 7 + (i >> 8)) % 251 for i in range(size))
    if kind == 'bytearray':
        return bytearray(data), data
    if kind == 'view':
        return memoryview(data), data
    if kind == 'array':
        value = memoryview(array.array('I', range(seed, seed + size // 4)))
        return value, value.tobytes()
    return data, data


class Protocol:
    """Records what it gets, and acts."""
    def __init__(self, w, index, spec):
        self.w = w
        self.index = index
        self.spec = spec
        self.events = []
        self.got = bytearray()
        self.given = bytearray()        # what was written into our transport
        self.transport = None
        self.made = self.lost = self.eof = 0
        self.closed_by = None           # own first close / abort
        self.abort_error = None
        self.paused_reading = False
        self.paused_writing = False
        self.written_eof = False
        self.given_before_close = None
        self.fired = {}
        self.seed = index * 1000
        self.lost_exception = None
        self.fd = None

    def bad(self, kind, text=''):
        if self.w.bad is None:
            self.w.bad = Violation(kind, f'side {self.index}: {text}; events: {self.events[-12:]}')

    def event(self, name):
        self.events.append(name)
        self.w.sim.log('event', self.index, name)
        if self.lost:
            self.bad('after-lost', f'{name} after connection lost')
        if not self.made and name != 'made':
            self.bad('before-made', f'{name} before connection made')
        if self.busy:
            pass

    busy = False

    def act(self, name):
        ops = self.spec['inside'].get(name)
        if not ops:
            return
        self.fired[name] = n = self.fired.get(name, 0) + 1
        if n != (1 if name in ('made', 'eof') else self.spec['nth']):
            return
        for op in ops:
            self.do(op)

    def connection_made(self, transport):
        if self.made:
            self.bad('made-twice')
        self.event('made')
        self.made += 1
        self.transport = transport
        self.fd = transport.get_extra_info('socket').fileno()
        transport.set_write_buffer_limits(100, 20)
        self.high, self.low = 100, 20
        self.act('made')

    def connection_lost(self, exception):
        self.event('lost')
        self.lost += 1
        self.lost_exception = exception
        self.lost_at = self.w.sim.now

    def data_received(self, data):
        self.event('data')
        if not data:
            self.bad('empty-data')
        if self.eof:
            self.bad('data-after-eof')
        if self.closed_by is not None:
            self.bad('data-after-close')
        if self.paused_reading:
            self.bad('data-while-paused')
        self.got += data
        self.act('data')

    def eof_received(self):
        self.event('eof')
        if self.eof:
            self.bad('eof-twice')
        self.eof += 1
        if self.closed_by is not None:
            self.bad('eof-after-close')
        if self.paused_reading:
            self.bad('eof-while-paused')
        self.act('eof')
        if not self.spec['keep'] and self.given_before_close is None:
            # closes itself
            self.given_before_close = len(self.given)
        return self.spec['keep']

    def pause_writing(self):
        self.event('pause')
        if self.paused_writing:
            self.bad('paused-twice')
        if self.transport.get_write_buffer_size() <= self.transport.get_write_buffer_limits()[1]:
            self.bad('paused-early')
        self.paused_writing = True
        self.act('pause')

    def resume_writing(self):
        self.event('resume')
        if not self.paused_writing:
            self.bad('resumed-twice')
        if self.transport.get_write_buffer_size() > self.transport.get_write_buffer_limits()[0]:
            self.bad('resumed-early')
        self.paused_writing = False
        self.act('resume')

    def do(self, op):
        kind = op['kind']
        transport = self.transport
        w = self.w
        w.sim.log('do', self.index, kind)
        self.seed += 1
        if kind in ('write', 'writelines'):
            value, data = build(op['type'], self.seed, op['size'])
            dead = bool(self.lost)
            written_eof = self.written_eof
            closing = transport.is_closing()
            if kind == 'writelines':
                half = len(value) // 2
                values = [value[:half], value[half:]]
                function = transport.writelines
            else:
                values = value
                function = transport.write
            position = len(self.given)
            self.given += data
            try:
                function(values)
            except RuntimeError:
                if not written_eof:
                    raise
                del self.given[position:position + len(data)]
                return
            if written_eof and not (closing or self.closed_by or self.lost):
                self.bad('written-after-eof')
            if data and not self.closed_by and not dead and not self.paused_writing:
                size = transport.get_write_buffer_size()
                if size > transport.get_write_buffer_limits()[1]:
                    self.bad('not-paused', f'{size} bytes are buffered')
        elif kind == 'eof':
            if not transport.is_closing():
                self.written_eof = True
            transport.write_eof()
        elif kind == 'pause':
            if transport.pause_reading() or self.closed_by is None and not self.lost:
                self.paused_reading = True
        elif kind == 'resume':
            transport.resume_reading()
            self.paused_reading = False
        elif kind == 'limits':
            events = len(self.events)
            transport.set_write_buffer_limits(op['high'])
            if events == len(self.events) and self.closed_by is None and not self.lost:
                if transport.get_write_buffer_limits() != (op['high'] >> 2, op['high']):
                    self.bad('limits', f'{transport.get_write_buffer_limits()}')
        else:
            if self.closed_by is None:
                self.closed_by = kind
                self.closed_lost = bool(self.lost) or (transport.is_closing() and not transport.get_write_buffer_size())
                if self.given_before_close is None:
                    self.given_before_close = len(self.given)
            if kind != 'close':
                self.aborted = True
            if kind == 'close':
                transport.close()
            elif kind == 'abort':
                transport.abort()
            else:
                error = Marker((self.index, self.seed))
                if self.abort_error is None:
                    self.abort_error = error
                transport.abort(error)
            if not transport.is_closing():
                self.bad('not-closing')

    aborted = False


async def script(w, loop, protocol):
    for op in protocol.spec['ops']:
        if op['gap'] == 'skip':
            await skip_ready_cycle()
        elif op['gap'] is not None:
            await sleep(op['gap'], loop)
        protocol.do(op)


async def connect(w, loop, protocols):
    plan = w.plan
    if plan['how'] == 'server':
        taken = []

        def factory():
            taken.append(None)
            return protocols[1]
        server = await loop.create_server_to(factory, '127.0.0.1', 4000)
        await server.start()
        await loop.create_connection_to(lambda: protocols[0], '127.0.0.1', 4000)
        for _ in range(200):
            if protocols[1].made:
                break
            await sleep(0.01, loop)
        server.close()
        w.ends = w.sim.net.conns[-1]
        for protocol, end in zip(protocols, w.ends):
            for name, value in (('peer_name', end.peer_address), ('socket_name', end.address)):
                if protocol.transport is not None and protocol.transport.get_extra_info(name) != value:
                    protocol.bad('extra-info', f'{name} is {protocol.transport.get_extra_info(name)!r} instead of {value!r}')
        return
    ends = w.ends = N.make_pair(w.sim.net, 'pair')
    tasks = []
    for protocol, end in zip(protocols, ends):
        sock = N.SimSocket(real_socket.AF_INET, real_socket.SOCK_STREAM, _kobj=end)
        tasks.append(Task(loop, loop.create_connection_with(lambda protocol=protocol: protocol, sock)))
        del sock
    if plan['cancel'] is not None:
        await skip_ready_cycle()
        tasks[plan['cancel']].cancel()
        protocols[plan['cancel']].closed_by = 'cancel'
        protocols[plan['cancel']].given_before_close = 0
    for task, protocol in zip(tasks, protocols):
        try:
            result = await task
        except CancelledError:
            if plan['cancel'] is None:
                raise
        else:
            if result is not protocol:
                raise Violation('wrong-protocol', f'{result!r}')
            if not protocol.made:
                raise Violation('not-made', 'the connection is ready before connection made was called')


async def program(loop, w):
    sim = w.sim
    plan = w.plan
    protocols = w.protocols = [Protocol(w, i, spec) for i, spec in enumerate(plan['sides'])]
    await connect(w, loop, protocols)
    scripts = [Task(loop, script(w, loop, protocol)) for protocol in protocols if protocol.made and plan['cancel'] is None]
    if plan['reset_at'] is not None:
        await sleep(plan['reset_at'], loop)
        # a middle box
        w.reset = True
        for end in w.ends:
            if not end.closed:
                end.on_rst()
    for task in scripts:
        await task
    if w.bad:
        raise w.bad
    # faults are over, everything should finish
    for protocol in protocols:
        if protocol.made and protocol.paused_reading:
            protocol.do({'kind': 'resume'})
    # data which goes on
    for _ in range(100):
        before = [len(protocol.got) for protocol in protocols]
        await sleep(0.5 * (1 + sum(len(protocol.given) for protocol in protocols) / 20000), loop)
        resumed = False
        for protocol in protocols:
            if protocol.made and protocol.paused_reading and not protocol.lost:
                protocol.do({'kind': 'resume'})
                resumed = True
        if not resumed and before == [len(protocol.got) for protocol in protocols]:
            break
    if w.bad:
        raise w.bad
    for index, protocol in enumerate(protocols):
        other = protocols[1 - index]
        alive = not (protocol.lost or protocol.closed_by or w.reset)
        other_alive = not (other.lost or other.closed_by)
        if alive and other_alive:
            if other.got != protocol.given:
                protocol.bad('not-arrived', f'{len(other.got)} of {len(protocol.given)} bytes arrived over a living connection')
            if protocol.written_eof and not other.eof:
                protocol.bad('no-eof', 'the end of file did not arrive')
            if protocol.transport.get_write_buffer_size() or protocol.paused_writing:
                protocol.bad('not-drained', f'{protocol.transport.get_write_buffer_size()} {protocol.paused_writing}')
        if other.closed_by == 'close' and not (other.aborted or protocol.aborted or w.reset) and protocol.closed_by is None:
            if not protocol.eof and other.made and not isinstance(protocol.lost_exception, OSError):
                protocol.bad('no-eof', 'the peer closed, no end of file was seen')
            if len(protocol.got) < other.given_before_close and not other.abort_error:
                # a peer which writes into the closed side may get a reset
                if not (protocol.given and protocol.lost_exception is not None) and not isinstance(other.lost_exception, OSError):
                    protocol.bad('close-lost-data', f'{len(protocol.got)} of {other.given_before_close} bytes arrived before the graceful close')
    if w.bad:
        raise w.bad
    # now end all
    for protocol in protocols:
        if protocol.made and not protocol.closed_by and not protocol.lost:
            protocol.do({'kind': 'close'})
    await sleep(1.0, loop)
    for protocol in protocols:
        if protocol.made and not protocol.lost and not protocol.aborted:
            # the peer is gone, the rest can not be written
            if protocol.transport.get_write_buffer_size() and not w.reset:
                protocol.do({'kind': 'abort'})
    await sleep(1.0, loop)
    for index, protocol in enumerate(protocols):
        other = protocols[1 - index]
        if not protocol.made:
            if plan['cancel'] == index:
                continue
            protocol.bad('not-made')
        if protocol.lost != 1:
            protocol.bad('not-lost', f'connection lost was called {protocol.lost} times')
        given = bytes(protocol.given)
        if not given.startswith(bytes(other.got)):
            protocol.bad('stream-altered', f'{len(other.got)} bytes arrived, which are not what was sent')
        if protocol.fd is not None and protocol.fd in loop.selector.get_map():
            protocol.bad('still-observed')
        exception = protocol.lost_exception
        if exception is None:
            if w.reset and protocol.closed_by is None and not protocol.eof:
                protocol.bad('reset-hidden', 'connection lost without an exception after a reset')
        elif isinstance(exception, Marker):
            if exception is not protocol.abort_error:
                protocol.bad('wrong-error', repr(exception))
        elif not isinstance(exception, OSError):
            protocol.bad('wrong-error', repr(exception))
        if protocol.closed_by == 'abort_error' and not protocol.closed_lost and exception is not protocol.abort_error:
            if not isinstance(exception, OSError):
                protocol.bad('wrong-error', f'aborted with an error, lost with {exception!r}')
        # use after the end is harmless
        if protocol.made:
            transport = protocol.transport
            events = len(protocol.events)
            try:
                transport.write(b'late')
            except RuntimeError:
                if not protocol.written_eof:
                    raise
            transport.write_eof()
            transport.close()
            transport.abort(ValueError())
            transport.pause_reading()
            transport.resume_reading()
            repr(transport)
            protocol.written_eof = True
            await skip_ready_cycle()
            if len(protocol.events) != events:
                protocol.bad('after-lost')
    if w.bad:
        raise w.bad
    for end in w.ends:
        if not end.closed:
            raise Violation('not-closed', f'the socket of {end.name} was left open')


async def drain(loop, w):
    sim = w.sim
    plan = w.plan
    protocols = []
    ends = w.ends = N.make_pair(sim.net, 'pair')
    for end in ends:
        sock = N.SimSocket(real_socket.AF_INET, real_socket.SOCK_STREAM, _kobj=end)
        protocol = await loop.create_connection_with(lambda: ReadWriteProtocolBase(loop), sock)
        protocol.get_transport().set_write_buffer_limits(plan['high'])
        protocols.append(protocol)
        del sock
    w.ended = None
    given = [bytearray(), bytearray()]
    got = [bytearray(), bytearray()]

    async def writer(index, number, spec):
        protocol = protocols[index]
        for i, size in enumerate(spec['sizes']):
            if spec['gap'] is not None:
                await sleep(spec['gap'], loop)
            data = build('bytes', index * 100 + number * 10 + i, size)[1]
            given[index] += data
            protocol.write(data)
            try:
                await protocol.drain()
            except CancelledError:
                raise
            except BaseException as exception:
                if w.ended is None or not isinstance(exception, (OSError, Marker)):
                    raise
                return
            if w.ended is None and protocol.get_transport().get_write_buffer_size() > plan['high']:
                # someone else may have written meanwhile
                if len(plan['side'][index]['writers']) == 1:
                    raise Violation('drain-early', f'{protocol.get_transport().get_write_buffer_size()} bytes are buffered')

    async def reader(index, spec):
        protocol = protocols[index]
        while True:
            if spec['read_gap'] is not None and len(got[index]) < 2000:
                await sleep(spec['read_gap'], loop)
            try:
                data = await protocol.read_once() if spec['read_size'] == 1 else await protocol.read(spec['read_size'])
            except CancelledError:
                raise
            except EOFError as exception:
                if exception.args:
                    got[index] += exception.args[0]
                return
            except BaseException as exception:
                if w.ended is None or not isinstance(exception, (OSError, Marker)):
                    raise
                return
            if data is None:
                return
            got[index] += data
            if protocol.is_at_eof():
                return

    writers = [[Task(loop, writer(i, j, spec)) for j, spec in enumerate(side['writers'])] for i, side in enumerate(plan['side'])]
    readers = [Task(loop, reader(i, side)) for i, side in enumerate(plan['side'])]
    for tasks, side in zip(writers, plan['side']):
        for task, spec in zip(tasks, side['writers']):
            if spec['cancel'] is not None:
                loop.call_after(spec['cancel'], task.cancel)

    async def gather(tasks, what):
        event = Future(loop)
        handle = loop.call_after(60.0, event.set_result_if_pending, None)
        for task in tasks:
            task.add_done_callback(lambda _: event.set_result_if_pending(None) if all(t.is_done() for t in tasks) else None)
        if not all(t.is_done() for t in tasks):
            await event
        handle.cancel()
        for task in tasks:
            if not task.is_done():
                raise Violation('hang', f'{what} did not end')
            outcome = outcome_of(task)
            if outcome[0] == 'raise':
                if isinstance(outcome[1], (Violation, HarnessError)):
                    raise outcome[1]
                raise unexpected(outcome[1], ''.join(traceback.format_exception(outcome[1])))

    async def end():
        kind = plan['end']
        w.ended = kind
        transport = protocols[0].get_transport()
        if kind == 'close':
            protocols[0].close()
        elif kind == 'reset':
            for e in ends:
                if not e.closed:
                    e.on_rst()
        elif kind == 'abort':
            transport.abort()
        else:
            transport.abort(Marker('abort'))

    if plan['end_at'] is not None:
        await sleep(plan['end_at'], loop)
        await end()
        await sleep(2.0, loop)
        for protocol in protocols:
            protocol.close()
            if protocol.get_transport() is not None and not ends[protocols.index(protocol)].closed:
                protocol.get_transport().abort()
        await gather(writers[0] + writers[1], 'a drain over an ended connection')
        await gather(readers, 'a read over an ended connection')
    else:
        await gather(writers[0] + writers[1], 'a drain')
        for protocol in protocols:
            protocol.write_eof()
        await gather(readers, 'a read')
        for i in range(2):
            if got[1 - i] != given[i]:
                raise Violation('not-arrived', f'{len(got[1 - i])} of {len(given[i])} bytes were read')
    for i in range(2):
        if not given[i].startswith(got[1 - i]):
            raise Violation('stream-altered', '')
    for protocol in protocols:
        protocol.close()
    await sleep(1.0, loop)
    # a drain when all is over
    late = []
    for protocol in protocols:
        late.append(Task(loop, protocol.drain()))
    await sleep(1.0, loop)
    for task in late:
        if task.is_pending():
            raise Violation('hang', 'drain hangs on a lost connection')
        outcome_of(task)
    for e in ends:
        if not e.closed:
            raise Violation('not-closed', e.name)


def run(plan, sim):
    w = World()
    w.sim = sim
    w.plan = plan
    w.bad = None
    w.reset = False
    if plan['mode'] == 'drain':
        saved = protocol_module.BUFFER_SIZE_MAX
        protocol_module.BUFFER_SIZE_MAX = plan['buffer']
        try:
            run_async(sim, drain, w)
        finally:
            protocol_module.BUFFER_SIZE_MAX = saved
    else:
        run_async(sim, program, w)
    if w.bad:
        raise w.bad
