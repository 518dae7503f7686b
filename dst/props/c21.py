"""TLS transports."""
import os, ssl
from ..world import *
from .. import net as N

BUDGET = {'quick': 40000, 'thorough': 500000}
RULE = ('One evaluation is one TLS connection over a simulated network: between a client and a server of the library, or one of them and a reference TLS peer made of memory buffers. '
        'Both run programs of write, writelines, pause, resume, close and abort, from outside and inside of protocol callbacks, while the encrypted stream is segmented, delayed, cut by an end of file or reset, '
        'corrupted, replaced with garbage or silenced at any byte, the certificate is not trusted, or the connecting is cancelled.')
ASSUMPTIONS = ['There is no time limit for a handshake or a shut down: a silent peer ends its connection later.', 'As with plain transports, an end of file without a closing alert counts as the end of the stream.',
               'What a side did not receive yet when it closes or aborts itself may be dropped.']
REAL = ['OpenSSL through memory buffers']
STUBS = ['reference TLS peer']
HERE = os.path.join(os.path.dirname(os.path.dirname(__file__)), 'data')
CONTEXTS = {}


def context(server, version, trusted=True):
    key = (server, version, trusted)
    if key not in CONTEXTS:
        if server:
            result = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
            result.load_cert_chain(os.path.join(HERE, 'cert.pem'), os.path.join(HERE, 'key.pem'))
        else:
            result = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
            if trusted:
                result.load_verify_locations(os.path.join(HERE, 'cert.pem'))
            # the time of the machine does not matter
            result.verify_flags |= 0x200000
        if version == 2:
            result.maximum_version = ssl.TLSVersion.TLSv1_2
        CONTEXTS[key] = result
    return CONTEXTS[key]


def gen(rng):
    params = swarm(rng, delay_min=[0.0, 0.001], delay_max=[0.001, 0.004], cap=[65536, 65536, 700, 64], eagain=[0.0, 0.0, 0.3], short=[0.0, 0.3], segment=[0.0, 0.0, 0.4],
                   late=[None, 0.2], late_max=[0.002], tick=[1e-7])
    mode = rng.choice(['both', 'both', 'raw-server', 'raw-server', 'raw-client', 'raw-client'])
    quiet = rng.random() < 0.5

    slow = params.get('cap') in (700, 64) or params.get('segment') or mode != 'both' and rng.random() < 0.5

    def op(inside=False):
        kinds = ['write'] * 6 + ['writelines', 'pause', 'resume', 'resume']
        if not quiet:
            kinds += ['close', 'abort']
        elif inside:
            kinds = ['write', 'write', 'writelines']
        return {'kind': rng.choice(kinds), 'size': rng.choice([0, 1, 5, 50, 500, 2000] if slow else [0, 1, 5, 50, 500, 2000, 20000, 100000]), 'gap': None if inside else rng.choice([None, None, 0.0, 0.001, 0.005, 0.02]), 'type': rng.choice(['bytes', 'bytearray', 'view'])}

    def side():
        inside = {name: [op(True) for _ in range(rng.randint(1, 2))] for name in ('made', 'data', 'eof') if rng.random() < 0.25}
        if rng.random() < 0.1:
            inside['made'] = [{'kind': 'close', 'size': 0, 'type': 'bytes', 'gap': None}]
        return {'ops': [op() for _ in range(rng.randint(0, 6))], 'inside': inside, 'nth': rng.randint(1, 3), 'keep': rng.random() < 0.3}
    plan = {'params': params, 'mode': mode, 'version': rng.choice([2, 3, 3]), 'trusted': rng.random() > 0.06, 'name': rng.choice(['localhost'] * 12 + ['other']), 'sides': [side(), side()],
            'cancel': rng.choice([None] * 9 + [0.0, 0.002, 0.01]), 'first': rng.choice(['both', 'both', 'a', 'b']), 'reset_at': None, 'server_close': rng.choice([None, None, 0.0, 0.03])}
    if mode == 'both':
        plan['reset_at'] = rng.choice([None] * 6 + [0.0, 0.004, 0.01, 0.03])
    else:
        plan['peer'] = {'fault': rng.choice([None, None, None, None, 'fin', 'rst', 'silent', 'corrupt', 'garbage', 'silent']), 'at': rng.choice([0, 1, 4, 5, 50, 200, 600, 1000, 1500, 1600, 1700, 2000, 2500, 5000, 30000]),
                        'end': rng.choice(['fin', 'fin', 'rst']), 'end_after': rng.choice([0.05, 0.5, 3.0]), 'reply': rng.choice([True, True, False]), 'cuts': [rng.choice([1, 3, 5, 17, 100, 1000, 16384] if slow else [100, 1000, 16384]) for _ in range(rng.choice([0, 0, 1, 4]))],
                        'gap': rng.choice([0.0, 0.0, 0.0005])}
    return plan


def valid(plan):
    return len(plan['sides']) == 2 and plan['version'] in (2, 3) and all(s['nth'] > 0 and isinstance(s['inside'], dict) and all(o['kind'] and o['type'] for o in s['ops']) and all(
        o['kind'] and o['type'] for ops in s['inside'].values() for o in ops) for s in plan['sides']) and plan['name'] and plan['first'] and (plan['mode'] == 'both' or (
            plan['peer']['end_after'] > 0 and plan['peer']['end'] and all(c > 0 for c in plan['peer']['cuts'])))


class World:
    pass


def build(seed, size):
    return bytes((seed * 31 + i * 7 + (i >> 8)) % 251 for i in range(size))


class Side:
    """What is common of a protocol and of the reference peer."""
    aborted = False

    def __init__(self, w, index, spec):
        self.w = w
        self.index = index
        self.spec = spec
        self.events = []
        self.got = bytearray()
        self.given = bytearray()
        self.closed_by = None
        self.given_before_close = None
        self.seed = index * 1000
        self.fired = {}
        self.made = self.lost = self.eof = 0
        self.other = None
        self.got_before_close = None

    def bad(self, kind, text=''):
        if self.w.bad is None:
            self.w.bad = Violation(kind, f'side {self.index}: {text}; events: {self.events[-14:]}')

    def act(self, name):
        ops = self.spec['inside'].get(name)
        if not ops:
            return
        self.fired[name] = n = self.fired.get(name, 0) + 1
        if n != (1 if name in ('made', 'eof') else self.spec['nth']):
            return
        for op in ops:
            self.do(op)

    def receive(self, data):
        self.got += data
        given = self.other.given
        if bytes(self.got) != given[:len(self.got)]:
            self.bad('wrong-data', f'{len(self.got)} bytes are not a prefix of the {len(given)} given')

    def do(self, op):
        kind = op['kind']
        self.w.sim.log('do', self.index, kind)
        self.seed += 1
        if kind in ('write', 'writelines'):
            data = build(self.seed, op['size'])
            if self.closed_by is None and not self.lost:
                self.given += data
            self.write(data, op)
        elif kind in ('close', 'abort'):
            if kind == 'abort':
                self.aborted = True
            if self.closed_by is None:
                self.closed_by = kind
                self.given_before_close = len(self.given)
                self.got_before_close = len(self.got)
            self.end(kind)
        else:
            self.flow(kind)


class Protocol(Side):
    transport = None
    paused = paused_writing = False
    lost_exception = None

    def event(self, name):
        self.events.append(name)
        self.w.sim.log('event', self.index, name)
        if self.lost:
            self.bad('after-lost', f'{name} after connection lost')
        if not self.made and name != 'made':
            self.bad('before-made', f'{name} before connection made')

    def connection_made(self, transport):
        if self.made:
            self.bad('made-twice')
        self.event('made')
        self.made += 1
        self.transport = transport
        ssl_object = transport.get_extra_info('ssl_object')
        if ssl_object is None or ssl_object.version() is None or transport.get_extra_info('cipher') is None:
            self.bad('not-secured', 'made without a finished handshake')
        if self.w.refused:
            self.bad('not-verified', 'made although the certificate is not valid')
        self.act('made')

    def connection_lost(self, exception):
        self.event('lost')
        self.lost += 1
        self.lost_exception = exception
        self.lost_at = self.w.sim.now

    def data_received(self, data):
        self.event('data')
        if not data:
            self.bad('empty-data')
        if self.eof:
            self.bad('data-after-eof')
        self.receive(data)
        self.act('data')

    def eof_received(self):
        self.event('eof')
        if self.eof:
            self.bad('eof-twice')
        self.eof += 1
        self.act('eof')
        return self.spec['keep']

    def pause_writing(self):
        self.event('pause')
        if self.paused_writing:
            self.bad('paused-twice')
        self.paused_writing = True

    def resume_writing(self):
        self.event('resume')
        if not self.paused_writing:
            self.bad('resumed-twice')
        self.paused_writing = False

    def write(self, data, op):
        if op['type'] == 'bytearray':
            data = bytearray(data)
        elif op['type'] == 'view':
            data = memoryview(data)
        if op['kind'] == 'writelines':
            half = len(data) // 2
            self.transport.writelines([data[:half], data[half:]])
        else:
            self.transport.write(data)
        if op['type'] == 'bytearray' and not self.w.plan.get('same'):
            # it is copied
            data[:] = bytes(len(data))

    def end(self, kind):
        if kind == 'close':
            self.transport.close()
            if not self.transport.is_closing():
                self.bad('not-closing')
        else:
            self.transport.abort()

    def flow(self, kind):
        if kind == 'pause':
            self.paused = True
            self.transport.pause_reading()
        else:
            self.paused = False
            self.transport.resume_reading()


class Peer(Side):
    """Reference TLS peer."""
    def __init__(self, w, index, spec, server):
        Side.__init__(self, w, index, spec)
        self.server = server
        self.cfg = w.plan['peer']
        self.incoming = ssl.MemoryBIO()
        self.outgoing = ssl.MemoryBIO()
        plan = w.plan
        ctx = context(server, plan['version'])
        self.object = ctx.wrap_bio(self.incoming, self.outgoing, server_side=server, server_hostname=None if server else 'localhost')
        self.sent = 0
        self.cut = 0
        self.at = 0.0
        self.faulted = None
        self.ended = None
        self.broken = None
        self.notified = False           # we sent our closing alert
        self.saw_notify = False
        self.attached = False
        self.wire = bytearray()
        self.record = 0
        self.detectable = False

    def attach(self, end):
        if self.attached:
            end.callback = lambda end, kind, data: None
            end.raw_rst()
            return
        self.attached = True
        self.conn = end
        end.callback = self.on
        if not self.server:
            self.pump()
        else:
            self.flush()

    def framing(self):
        """What we got are TLS records."""
        wire = self.wire
        while len(wire) - self.record >= 5:
            kind, major, minor = wire[self.record:self.record + 3]
            length = int.from_bytes(wire[self.record + 3:self.record + 5], 'big')
            if kind not in (20, 21, 22, 23) or major != 3 or minor > 4 or length > 16384 + 2048:
                self.bad('unencrypted', f'not a record at {self.record}: {bytes(wire[self.record:self.record + 20])}')
                return
            self.record += 5 + length

    def on(self, end, kind, data):
        if kind == 'data':
            self.wire += data
            self.framing()
            if self.ended is None and self.faulted != 'silent':
                self.incoming.write(data)
                self.pump()
        elif kind == 'eof':
            self.eof += 1
            self.w.sim.log('peer', 'eof')
            self.finish('fin')
        else:
            self.lost += 1
            self.ended = self.ended or 'reset'

    def finish(self, how):
        if self.ended is not None:
            return
        self.ended = how
        self.w.sim.log('peer', how)
        # after what is on its way
        self.w.sim.after(max(0.0, self.at - self.w.sim.now), self.conn.raw_rst if how == 'rst' else self.conn.raw_close)

    def pump(self):
        if self.broken is not None:
            return
        try:
            if not self.made:
                self.object.do_handshake()
                self.made += 1
                self.w.sim.log('peer', 'made')
                self.act('made')
                for op in self.spec['ops']:
                    self.at_op = getattr(self, 'at_op', 0.0) + (op['gap'] or 0.0)
                    self.w.sim.after(self.at_op, self.late, op)
            while not self.saw_notify:
                data = self.object.read(65536)
                if not data:
                    self.notify_seen()
                    break
                self.receive(data)
                self.act('data')
        except ssl.SSLWantReadError:
            pass
        except ssl.SSLZeroReturnError:
            self.notify_seen()
        except ssl.SSLError as exception:
            self.broken = exception
            self.w.sim.log('peer', 'broken', type(exception).__name__)
            self.flush()
            self.w.sim.after(0.05, self.finish, 'fin')
            return
        self.flush()

    def notify_seen(self):
        if not self.saw_notify:
            self.saw_notify = True
            self.w.sim.log('peer', 'notify seen')
            if self.closed_by is None:
                self.closed_by = 'reply'
                self.given_before_close = len(self.given)
            if self.cfg['reply']:
                self.notify()
            self.flush()
            self.finish('fin')

    def notify(self):
        if not self.notified:
            self.notified = True
            try:
                self.object.unwrap()
            except ssl.SSLError:
                pass
            self.flush()

    def late(self, op):
        if self.ended is None and self.broken is None and self.closed_by is None:
            self.do(op)

    def write(self, data, op):
        if self.ended is None and not self.notified and data and self.faulted is None:
            try:
                self.object.write(data)
            except ssl.SSLError:
                pass
            self.flush()

    def end(self, kind):
        if kind == 'close':
            self.notify()
        else:
            self.finish('rst')

    def flow(self, kind):
        pass

    def flush(self):
        data = self.outgoing.read()
        if not self.attached or self.ended is not None:
            return
        cfg = self.cfg
        fault = cfg['fault']
        if self.faulted:
            if self.faulted != 'corrupt':
                return
        elif fault and self.sent + len(data) >= cfg['at'] and (data or cfg['at'] == 0):
            position = min(max(0, cfg['at'] - self.sent), len(data))
            self.w.sim.fault('tls-' + fault)
            self.faulted = fault
            start = 0
            while start < len(data) and start + 5 + int.from_bytes(data[start + 3:start + 5], 'big') <= position:
                start += 5 + int.from_bytes(data[start + 3:start + 5], 'big')
            # a protected record cannot be accepted with any other content, neither anything else between two records
            self.detectable = self.made and (fault == 'corrupt' and position >= start + 5 and position < len(data) and data[start] == 23 or fault == 'garbage' and position == start)
            if fault == 'corrupt':
                if position < len(data):
                    data = data[:position] + bytes([data[position] ^ 0x11]) + data[position + 1:]
                else:
                    self.faulted = None
                    position = None
                if position is not None:
                    self.w.sim.after(cfg['end_after'], self.finish, cfg['end'])
            else:
                data = data[:position]
                if fault == 'garbage':
                    data += b'HTTP/1.1 400 Bad Request\r\n\r\n'
                self.raw(data)
                if fault == 'fin':
                    self.finish('fin')
                elif fault == 'rst':
                    self.finish('rst')
                else:
                    self.w.sim.after(cfg['end_after'], self.finish, cfg['end'])
                return
        self.raw(data)

    def raw(self, data):
        self.sent += len(data)
        sim = self.w.sim
        cuts = self.cfg['cuts']
        start = 0
        while start < len(data):
            size = cuts[self.cut % len(cuts)] if cuts and self.cut < 400 else len(data)
            self.cut += 1
            part = data[start:start + size]
            start += size
            if self.cfg['gap'] and cuts:
                self.at = max(self.at, sim.now) + self.cfg['gap']
                sim.after(self.at - sim.now, self.conn.raw_send, part)
            elif self.at > sim.now:
                sim.after(self.at - sim.now, self.conn.raw_send, part)
            else:
                self.conn.raw_send(part)


async def script(w, loop, side):
    for op in side.spec['ops']:
        if op['gap'] is not None:
            await sleep(op['gap'], loop)
        if side.lost:
            return
        side.do(op)


async def until(loop, cond, limit, step=0.01):
    end = loop.time() + limit
    while not cond():
        if loop.time() > end:
            return False
        await sleep(step, loop)
    return True


async def main(loop, w):
    sim = w.sim
    plan = w.plan
    mode = plan['mode']
    before = set(sim.net.fds)
    a, b = w.a, w.b
    server = None
    made_servers = []
    connect = None
    outcome = None
    if mode != 'raw-server':
        def factory():
            made_servers.append(None)
            return b
        server = await loop.create_server_to(factory, '127.0.0.1', 4000, ssl_context=context(True, plan['version']))
        await server.start()
    else:
        sim.net.listeners[('127.0.0.1', 4000)] = b.attach
    if mode != 'raw-client':
        connect = Task(loop, loop.create_connection_to(lambda: a, '127.0.0.1', 4000, ssl_context=context(False, plan['version'], plan['trusted']), server_host_name=plan['name']))
    else:
        sim.net.raw_connect(('127.0.0.1', 4000), lambda end: a.attach(end) if end is not None else None)
    if plan['cancel'] is not None and connect is not None:
        await sleep(plan['cancel'], loop)
        sim.fault('cancel')
        w.cancelled = connect.cancel()
    if connect is not None:
        if not await until(loop, connect.is_done, 10.0):
            raise Violation('hang', 'connecting did not end')
        outcome = outcome_of(connect)
        sim.log('connect', outcome[0])
        if outcome[0] == 'return':
            if outcome[1] is not a or not a.made:
                raise Violation('connected', f'connected without connection made; {a.events}')
        elif outcome[0] == 'raise':
            if not isinstance(outcome[1], (OSError, ssl.SSLError)):
                raise Violation('connect-error', f'{outcome[1]!r}')
            if not w.may_fail():
                raise Violation('connect-error', f'{outcome[1]!r} without a cause')
        elif not w.cancelled:
            raise Violation('connect-error', f'{outcome}')
        if outcome[0] != 'return' and a.made and not a.lost:
            if not await until(loop, lambda: a.lost, 5.0):
                raise Violation('not-lost', f'connecting failed with {outcome}, but the protocol which was made is not told; {a.events}')
    if mode != 'raw-server':
        if outcome is None or outcome[0] == 'return':
            await until(loop, lambda: b.made or w.over(), 4.0)
    scripts = [Task(loop, script(w, loop, side)) for side in (a, b) if isinstance(side, Protocol) and side.made and not side.lost]
    if server is not None and plan['server_close'] is not None:
        await sleep(plan['server_close'], loop)
        server.close()
    if plan['reset_at'] is not None and sim.net.conns:
        await sleep(plan['reset_at'], loop)
        w.reset = True
        sim.fault('reset')
        for end in sim.net.conns[-1]:
            if not end.closed:
                end.on_rst()
    for task in scripts:
        await task
    if w.bad:
        raise w.bad
    for side in (a, b):
        if isinstance(side, Protocol) and side.made and side.paused and not side.lost:
            side.flow('resume')
    # all what was written arrives
    clean = w.clean()

    def quiet():
        for side in (a, b):
            if isinstance(side, Protocol) and side.made and side.paused and not side.lost:
                side.flow('resume')
        return not w.clean() or a.closed_by or b.closed_by or all(len(side.got) == len(side.other.given) for side in (a, b) if side.made) or w.bad
    if clean and a.made and b.made and a.closed_by is None and b.closed_by is None:
        if not await until(loop, quiet, 20.0, 0.05):
            raise Violation('lost-data', f'{len(a.got)} of {len(b.given)} and {len(b.got)} of {len(a.given)} bytes arrived; {a.events[-9:]} {b.events[-9:]}')
        sim.probe('complete')
    else:
        await sleep(0.3, loop)
    if w.bad:
        raise w.bad
    clean = w.clean()
    # the end
    for name, side in (('a', a), ('b', b)):
        if plan['first'] in ('both', name) and isinstance(side, Protocol) and side.made and not side.lost:
            side.do({'kind': 'close'})
    if isinstance(a if plan['first'] == 'a' else b, Peer) and plan['first'] != 'both':
        peer = a if plan['first'] == 'a' else b
        if peer.made and peer.closed_by is None and peer.ended is None and peer.broken is None:
            peer.do({'kind': 'close'})

    def ended():
        return all(side.lost or not side.made for side in (a, b) if isinstance(side, Protocol))
    await until(loop, ended, 3.0)
    for side in (a, b):
        if isinstance(side, Protocol) and side.made and not side.lost:
            side.do({'kind': 'close'})
    if not await until(loop, ended, 8.0):
        raise Violation('not-lost', f'a {a.events[-9:]} b {b.events[-9:]}')
    if server is not None:
        server.close()
    await sleep(0.1, loop)
    if w.bad:
        raise w.bad
    clean = w.clean()
    for side in (a, b):
        if isinstance(side, Protocol):
            if side.made and side.lost != 1:
                raise Violation('not-lost', f'{side.events}')
            if clean and side.made and side.lost_exception is not None and not side.aborted and not side.other.aborted:
                raise Violation('unclean-end', f'{side.lost_exception!r}; {side.events[-9:]}')
            if isinstance(side.other, Peer) and side.other.detectable and side.made and side.closed_by is None and not w.reset:
                sim.probe('detected')
                if side.lost_exception is None:
                    raise Violation('undetected', f'the stream was changed, but it ended as if all is well; {side.events[-9:]}')
    # what was written before the first close arrives
    if clean and a.made and b.made:
        for side in (a, b):
            other = side.other
            first = side.got_before_close is None or side.closed_by == 'reply'
            if other.closed_by in ('close', 'reply', None) and (side.closed_by is None or side.closed_by == 'reply') and first:
                expected = other.given_before_close if other.given_before_close is not None else len(other.given)
                if len(side.got) < expected:
                    raise Violation('lost-at-close', f'side {side.index} got {len(side.got)} of the {expected} bytes which were written before the close; {side.events[-9:]}; {other.events[-9:]}')
                sim.probe('flushed')
        for side in (a, b):
            if isinstance(side, Peer) and side.broken is None and side.ended in ('fin', None) and not side.other.aborted and not side.aborted and not side.lost:
                if not side.saw_notify:
                    raise Violation('no-closing-alert', f'the peer did not get a closing alert; {side.other.events[-9:]}')
                sim.probe('alert')
    if not await until(loop, lambda: not (set(sim.net.fds) - before), 6.0):
        raise Violation('leak', f'{len(set(sim.net.fds) - before)} sockets stay open; connect {outcome}; {a.events[-9:]}; {b.events[-9:]}')


def run(plan, sim):
    w = World()
    w.plan = plan
    w.sim = sim
    w.bad = None
    w.reset = w.cancelled = False
    mode = plan['mode']
    w.refused = False
    w.a = (Peer(w, 0, plan['sides'][0], False) if mode == 'raw-client' else Protocol(w, 0, plan['sides'][0]))
    w.b = (Peer(w, 1, plan['sides'][1], True) if mode == 'raw-server' else Protocol(w, 1, plan['sides'][1]))
    w.a.other, w.b.other = w.b, w.a
    peer = w.a if isinstance(w.a, Peer) else w.b if isinstance(w.b, Peer) else None
    invalid = mode != 'raw-client' and (not plan['trusted'] or plan['name'] != 'localhost')

    def faulty():
        return w.reset or (peer is not None and (peer.faulted is not None or peer.broken is not None))

    def may_fail():
        # the other side may already have ended it
        return invalid or faulty() or w.cancelled or w.a.aborted or w.b.aborted or plan['server_close'] is not None or peer is not None and peer.ended is not None
    w.may_fail = may_fail
    w.over = lambda: invalid or faulty() or peer is not None and peer.ended is not None
    w.clean = lambda: not (invalid or faulty() or w.cancelled or w.a.aborted or w.b.aborted)
    w.refused = False
    box_refused = invalid
    if box_refused:
        # only the client verifies
        made = w.a.connection_made

        def refused(transport):
            w.a.bad('not-verified', 'made although the certificate is not valid')
            made(transport)
        w.a.connection_made = refused
    run_async(sim, main, w, check_errors=False)
    no_errors(sim, allow=(OSError, ssl.SSLError) if may_fail() or plan['cancel'] is not None else ())
