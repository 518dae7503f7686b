"""Listening servers."""
from ..world import *
from .c29 import until
from scarletio.core import AbstractProtocolBase
from scarletio import EventThread
import errno
import socket as real_socket

BUDGET = {'quick': 20000, 'thorough': 400000}
RULE = ('One evaluation is a history of one or more servers on simulated addresses: clients connect, talk and leave (in order, with a reset, or before they '
        'were accepted) at random times, while accepting fails in random ways (aborted connections, spurious wakeups, no file descriptors for a while), '
        'the protocol factory fails for some, and the server is started, waited for and closed at random times.')
ASSUMPTIONS = ['Accepting is tried again a second after the system ran out of file descriptors.',
               'Connections which were in the queue of the system when the server closed are reset.']
STUBS = ['raw clients']


def gen(rng):
    n = rng.choice([1, 2, 4, 8, 15])
    times = [0.0, 0.001, 0.01, 0.05, 0.1, 0.3]
    plan = {
        'params': swarm(rng, delay_min=[0.0, 0.001], delay_max=[0.001, 0.005], accept_fault=[None, None, 0.2, 0.6], late=[None, 0.2], late_max=[0.002],
                        short=[0.0, 0.3], segment=[0.0, 0.4], eagain=[0.0, 0.2], tick=[1e-7]),
        'hosts': rng.choice([1, 1, 2]), 'backlog': rng.choice([1, 2, 5, 100]), 'how': rng.choice(['to', 'to', 'with']),
        'clients': [{'at': rng.choice(times) + rng.random() * rng.choice([0.0, 0.01, 0.5]), 'host': rng.randint(0, 1), 'messages': rng.choice([0, 1, 1, 2, 4]),
                     'leave': rng.choice(['fin', 'close', 'rst', 'stay', 'stay', 'fin']), 'hold': rng.choice([0.0, 0.001, 0.01, 0.1, 0.5, 2.0]),
                     'fail': rng.choice([None] * 6 + ['factory', 'made', 'server-close', 'abort'])} for _ in range(n)],
        'start': rng.choice([0.0, 0.0, 0.01, 0.1]), 'starts': rng.choice([1, 1, 2]),
        'close': rng.choice([0.02, 0.1, 0.101, 0.3, 0.6, 3.0, 3.0, 5.0]) + rng.choice([0.0, 0.0001, 0.002, 0.004]),
        'closes': rng.choice([1, 1, 2]),
        'waiters': [{'at': rng.choice([0.02, 0.1, 0.3, 0.7, 2.0, 4.0]), 'cancel': rng.choice([None, None, None, 0.0, 0.01, 0.5])}
                    for _ in range(rng.choice([0, 1, 2, 3]))],
        'exhausted': rng.choice([None, None, None, [0.0, 0.05], [0.0, 0.3], [0.1, 1.2], [0.05, 0.5], [0.3, 1.1]]),
        'spare': rng.choice([0, 0, 1, 3]),
        'restart': rng.choice([None, None, 0.0, 0.1, 1.5]),
    }
    return plan


def valid(plan):
    return plan['backlog'] > 0 and plan['hosts'] in (1, 2) and plan['closes'] > 0 and plan['starts'] > 0 and (
        plan['exhausted'] is None or len(plan['exhausted']) == 2)


class World:
    pass


class Protocol(AbstractProtocolBase):
    """Echoes."""
    __slots__ = ('w', 'transport', 'made', 'lost', 'data', 'number', 'server', 'act', 'created')

    def __new__(cls, w, server):
        self = object.__new__(cls)
        self.w = w
        self.server = server
        self.transport = None
        self.made = 0
        self.lost = 0
        self.data = b''
        self.act = None
        self.created = w.sim.now
        w.protocols.append(self)
        return self

    def connection_made(self, transport):
        w = self.w
        self.made += 1
        self.transport = transport
        if self.made > 1:
            w.fail('made-twice', f'{self.made}')
        if self.server.over_at is not None:
            w.fail('made-after-end', f'at {w.sim.now}, waiting for the end returned at {self.server.over_at}')
        self.server.active += 1
        peer = transport.get_extra_info('peer_name')
        client = w.by_address.get(tuple(peer) if isinstance(peer, (tuple, list)) else peer)
        if client is None:
            w.fail('peer-name', f'{peer!r}')
            return
        if client.protocol is not None:
            w.fail('two-protocols', f'{client.plan}')
        client.protocol = self
        fail = client.plan['fail']
        if fail == 'made':
            w.sim.fault('connection_made_raises')
            raise Marker('made')
        if fail == 'server-close':
            transport.close()
        elif fail == 'abort':
            transport.abort()

    def connection_lost(self, exception):
        self.lost += 1
        if self.lost > 1:
            self.w.fail('lost-twice', '')
        if not self.made:
            self.w.fail('lost-unmade', '')
        self.server.active -= 1
        self.server.idle_at = self.w.sim.now

    def data_received(self, data):
        self.data += bytes(data)
        self.transport.write(data)

    def eof_received(self):
        return False

    def pause_writing(self):
        pass

    def resume_writing(self):
        pass

    def get_extra_info(self, name, default=None):
        return self.transport.get_extra_info(name, default)


class Client:
    def __init__(self, w, number, plan):
        self.w = w
        self.number = number
        self.plan = plan
        self.end = None
        self.connected_at = None
        self.refused = False
        self.received = b''
        self.gone = None
        self.left = False
        self.protocol = None
        self.sent = b''
        self.server = None

    def connect(self, net):
        index = self.plan['host'] % self.w.plan['hosts']
        self.end = net.raw_connect((HOSTS[index], 9000), self.on_connected)
        self.w.by_address[self.end.address] = self

    def on_connected(self, end):
        w = self.w
        sim = w.sim
        if end is None:
            self.refused = True
            sim.log('refused', self.number)
            server = w.serving()
            if server is not None and server.started_at is not None and server.closed_at is None:
                w.fail('refused', f'{self.plan} while serving')
            return
        self.connected_at = sim.now
        self.server = w.serving()
        if self.server is None:
            w.fail('accepted', 'connected to a closed server')
            return
        end.callback = self.on
        for index in range(self.plan['messages']):
            data = f'{self.number}:{index};'.encode() * (1 + index * 50)
            self.sent += data
            sim.at(sim.now + 0.002 * index, end.raw_send, data)
        if self.plan['leave'] != 'stay':
            sim.at(sim.now + self.plan['hold'], self.leave, self.plan['leave'])

    def leave(self, how):
        if self.left or self.gone is not None:
            return
        self.left = True
        self.w.sim.fault('client_' + how)
        if how == 'fin':
            self.end.raw_fin()
        elif how == 'close':
            self.end.raw_close()
        else:
            self.end.raw_rst()

    def on(self, end, kind, data):
        if kind == 'data':
            self.received += data
        else:
            if self.gone is None:
                self.gone = (kind, self.w.sim.now)
            end.raw_close()


HOSTS = ['127.0.0.1', '127.0.0.2']


class ServerInfo:
    def __init__(self):
        self.active = 0
        self.idle_at = 0.0
        self.over_at = None
        self.started_at = None
        self.closed_at = None
        self.server = None
        self.made_factory = 0


async def create(w, loop, info):
    plan = w.plan

    def factory():
        info.made_factory += 1
        # which client this is for is not known here
        if w.factory_fails:
            w.factory_fails -= 1
            w.sim.fault('factory_raises')
            w.factory_failed += 1
            raise Marker('factory')
        return Protocol(w, info)
    hosts = HOSTS[:plan['hosts']]
    if plan['how'] == 'to' or plan['hosts'] != 1:
        server = await loop.create_server_to(factory, hosts if len(hosts) > 1 else hosts[0], 9000, backlog=plan['backlog'])
    else:
        import socket
        sock = socket.socket(real_socket.AF_INET, real_socket.SOCK_STREAM)
        sock.setblocking(False)
        sock.bind((hosts[0], 9000))
        server = await loop.create_server_with(factory, sock, backlog=plan['backlog'])
    info.server = server
    return info


async def waiter(w, loop, info, record):
    record['started'] = w.sim.now
    record['after'] = info.closed_at is not None
    await info.server.wait_closed()
    record['done'] = w.sim.now
    if info.closed_at is None:
        w.fail('wait-early', 'waiting returned before the server was closed')
    if info.active and not record['after']:
        # one who starts waiting after it was closed is not required to wait for the connections
        w.fail('wait-active', f'waiting returned with {info.active} connections')
    if info.over_at is None:
        info.over_at = w.sim.now
    record['idle'] = info.idle_at


def close(w, info):
    if info.closed_at is None:
        info.closed_at = w.sim.now
    w.sim.log('closed')
    info.server.close()


async def main(loop, w):
    plan = w.plan
    sim = w.sim
    net = sim.net
    info = ServerInfo()
    w.servers.append(info)
    await create(w, loop, info)
    base = sim.now
    for client in w.clients:
        sim.at(base + client.plan['at'], client.connect, net)
    if plan['exhausted'] is not None:
        def exhaust():
            net.fd_limit = len(net.fds) + plan['spare']

        def restore():
            net.fd_limit = None
        sim.at(base + plan['exhausted'][0], exhaust)
        sim.at(base + plan['exhausted'][1], restore)
    sim.at(base + 2.0, lambda: setattr(net, 'accept_faults', 0.0))
    await sleep(plan['start'], loop)
    if net.fd_limit is None or True:
        for _ in range(plan['starts']):
            task = loop.create_task(info.server.start())
            await task
        info.started_at = sim.now
    records = []

    async def wait_later(record):
        await sleep(max(0.0, base + record['at'] - sim.now), loop)
        record['task'] = task = loop.create_task(waiter(w, loop, info, record))
        if record['cancel'] is not None:
            loop.call_after(record['cancel'], task.cancel)
            record['cancelled'] = True
    for p in plan['waiters']:
        record = {'at': p['at'], 'cancel': p['cancel'], 'task': None, 'done': None, 'cancelled': False}
        records.append(record)
        record['outer'] = loop.create_task(wait_later(record))
    await sleep(max(0.0, base + plan['close'] - sim.now), loop)
    # everybody who could be served for long enough is served
    faults_end = base + 2.0 if plan['params'].get('accept_fault') else 0.0
    if plan['exhausted'] is not None:
        faults_end = max(faults_end, base + plan['exhausted'][1])
    lost = 0
    for client in w.clients:
        if client.connected_at is None or client.left and client.plan['hold'] < 0.1:
            continue
        retry = 1.1 if faults_end else 0.1
        served_by = max(client.connected_at, faults_end, info.started_at) + retry
        if sim.now < served_by or client.left:
            continue
        if client.gone is not None and client.protocol is None:
            lost += 1
            continue
        if client.protocol is None and not w.factory_failed:
            raise Violation('not-served', f'client {client.number} connected at {client.connected_at}, now {sim.now} {plan}')
        if client.protocol is not None and client.plan['fail'] is None and sim.now > served_by + 0.2:
            if client.received != client.sent or client.protocol.data != client.sent:
                raise Violation('echo', f'client {client.number} {len(client.sent)} {len(client.protocol.data)} {len(client.received)} {plan}')
    allowed = w.factory_failed + sim.faults.get('accept_econnaborted', 0)
    if lost > allowed:
        raise Violation('dropped', f'{lost} > {allowed} connections were dropped without a protocol {plan}')
    w.check()
    for _ in range(plan['closes']):
        close(w, info)
    if plan['restart'] is not None:
        await sleep(plan['restart'], loop)
        net.fd_limit = None
        net.accept_faults = 0.0
        second = ServerInfo()
        w.servers.append(second)
        await create(w, loop, second)
        await second.server.start()
        second.started_at = sim.now
        extra = Client(w, 100, {'at': 0.0, 'host': 0, 'messages': 2, 'leave': 'stay', 'hold': 0.0, 'fail': None})
        w.clients.append(extra)
        w.factory_fails = 0
        extra.connect(net)
        if not await until(loop, lambda: extra.received == extra.sent and extra.protocol is not None and extra.protocol.server is second, 0.3, 0.01):
            raise Violation('restarted', f'{extra.protocol} {len(extra.received)} {plan}')
        w.check()
        close(w, second)
    w.check()
    await sleep(0.1, loop)
    # not accepted connections are reset
    for client in w.clients:
        if client.connected_at is not None and client.protocol is None and not client.left and client.gone is None:
            if not await until(loop, lambda: client.protocol is not None or client.gone is not None or client.left, 0.1, 0.01):
                raise Violation('left-in-queue', f'client {client.number} {plan}')
    await sleep(1.3, loop)      # time of retries
    w.check()
    # connections outlive the server
    for client in w.clients:
        if client.protocol is not None and client.plan['fail'] is None and not client.left and client.gone is not None:
            raise Violation('connection-ended', f'client {client.number} {client.gone} {plan}')
        if client.protocol is not None and client.plan['fail'] is None and not client.left:
            client.end.raw_send(b'late')
    await sleep(0.1, loop)
    for client in w.clients:
        if client.protocol is not None and client.plan['fail'] is None and not client.left and client.connected_at is not None:
            if client.received != client.sent + b'late':
                raise Violation('echo-late', f'client {client.number} {len(client.sent)} {len(client.received)} {plan}')
    for client in w.clients:
        if client.connected_at is not None:
            client.leave('fin')
    if not await until(loop, lambda: all(s.active == 0 for s in w.servers), 0.5, 0.01):
        raise Violation('connection-stays', f'{[s.active for s in w.servers]} {plan}')
    await sleep(max(0.0, base + 4.1 - sim.now), loop)
    for record in records:
        await record['outer']
    await sleep(0.1, loop)
    for record in records:
        task = record['task']
        outcome = outcome_of(task)
        if outcome[0] == 'cancelled' and record['cancelled']:
            sim.fault('cancelled_wait')
            continue
        if outcome[0] != 'return':
            raise Violation('wait-hangs' if outcome[0] == 'pending' else 'wait-failed', f'{outcome!r} {plan}')
        if record['done'] - max(info.closed_at, info.idle_at, base + record['at']) > 0.05:
            raise Violation('wait-late', f"{record['done']} closed {info.closed_at} idle {info.idle_at} {plan}")
    for info in w.servers:
        task = loop.create_task(info.server.wait_closed())
        await sleep(0.0, loop)
        await sleep(0.01, loop)
        if task.is_pending():
            raise Violation('wait-hangs', 'waiting for a closed server')
    w.check()
    for protocol in w.protocols:
        if protocol.made != 1 or protocol.lost != 1:
            raise Violation('protocol', f'made {protocol.made} lost {protocol.lost} {plan}')
    left = [obj for obj in net.fds.values() if isinstance(getattr(obj, 'peer_address', None), tuple) and not obj.callback and not obj.local]
    left += [obj for obj in net.fds.values() if getattr(obj, 'state', None) == 'listening']
    if left:
        raise Violation('socket-left', f'{left[0].name} {left[0].state} {plan}')


def run(plan, sim):
    w = World()
    w.plan = plan
    w.sim = sim
    w.servers = []
    w.protocols = []
    w.by_address = {}
    w.factory_fails = sum(1 for c in plan['clients'] if c['fail'] == 'factory')
    w.factory_failed = 0
    w.problems = []
    w.fail = lambda kind, text: w.problems.append((kind, text))

    def check():
        if w.problems:
            kind, text = w.problems[0]
            raise Violation(kind, f'{text} {plan}')
    w.check = check

    def serving():
        for info in reversed(w.servers):
            if info.server is not None and info.server.serving and info.closed_at is None:
                return info
        return None
    w.serving = serving
    w.clients = [Client(w, index, p) for index, p in enumerate(plan['clients'])]
    run_async(sim, main, w, check_errors=False)
    # only running out of descriptors is reported
    sim.errors[:] = [e for e in sim.errors if getattr(e[0], 'errno', None) != errno.EMFILE]
    no_errors(sim, allow=(Marker,))
