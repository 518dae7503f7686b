"""Host resolution and connection fallback."""
from ..world import *
from .c29 import until
from scarletio.core import AbstractProtocolBase
from scarletio.core.event_loop import event_loop as event_loop_module
from scarletio.http_client import HTTPClient
from scarletio.http_client.client_request import ClientRequest
from scarletio.http_client.connector_tcp import ConnectorTCP
from scarletio.http_client.connector_base import ConnectorBase
from scarletio.http_client import constants as client_constants
from scarletio.utils import IgnoreCaseMultiValueDictionary
from scarletio.web_common import URL
import errno
import socket as real_socket

BUDGET = {'quick': 16000, 'thorough': 400000}
RULE = ('One evaluation is a history of concurrent http requests, connections of a connector and plain connections to one to three host names: the simulated resolver answers each lookup with a scripted '
        'delay, address set or failure, and each address accepts, refuses, is unreachable or silent (until the kernel gives up) and may change over time; IPv6 may be missing, descriptors may be short, '
        'local addresses may not be bindable, users are cancelled, time passes beyond the life of cached results, and the connector closes at a random time.')
ASSUMPTIONS = ['The resolver is scripted (it is checked by C31).', 'A silent address fails when the kernel gives up connecting, after 127 seconds.']
STUBS = ['resolver', 'servers']

LIFE = 10.0
POOL = ['10.1.0.1', '10.1.0.2', '10.1.0.3', 'fd01::1', 'fd01::2', '10.1.0.4']
NAMES = ['a.example', 'b.example', 'c.example']


def gen_policy(rng, good):
    out = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        out.append([rng.choice([0.0, 0.1, 5.0, 10.0, 20.0]) if out else 0.0, 'ok' if rng.random() < good else rng.choice(['refuse', 'refuse', 'unreachable', 'never'])])
    return out


def gen(rng):
    good = rng.choice([0.0, 0.3, 0.3, 0.6, 0.9])
    hosts = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        hosts.append([{'delay': rng.choice([0.0, 0.0, 0.001, 0.05, 0.5]), 'kind': rng.choice(['ok'] * 6 + ['oserror', 'gaierror', 'other']),
                       'ips': sorted(rng.sample(range(len(POOL)), rng.choice([1, 1, 2, 3, 4, 6])), key=lambda _: rng.random())} for _ in range(rng.choice([1, 1, 2, 3]))])
    users = []
    for _ in range(rng.choice([1, 1, 2, 3, 5, 8])):
        users.append({
            'at': rng.choice([0.0, 0.0, 0.0, 0.001, 0.05, 0.5, 5.0, 9.9, 10.5, 11.0, 15.0, 30.0]), 'how': rng.choice(['http', 'connector', 'connector', 'direct']), 'host': rng.randint(0, 2),
            'cancel': rng.choice([None] * 4 + [0.0, 0.0, 0.001, 0.03, 0.05, 0.3, 3.0]), 'timeout': rng.choice([None, None, None, 0.01, 0.2, 2.0]), 'hops': rng.choice([0, 1, 2, 3, 4]),
            'local': rng.choice([None, None, None, [0], [1], [0, 1], [2], [2, 0], [3]]), 'family': rng.choice([0, 0, 0, 4, 6]), 'fail': rng.random() < 0.08,
            'client': rng.randint(0, 1), 'port': rng.choice([80, 80, 80, 81]),
        })
    return {
        'params': swarm(rng, delay_max=[0.001, 0.01], segment=[0.0, 0.4], eagain=[0.0, 0.2], late=[None, 0.2], late_max=[0.002], tick=[1e-7], no_ipv6=[None, None, None, True]),
        'hosts': hosts, 'ips': [gen_policy(rng, good) for _ in POOL], 'users': users,
        'family': rng.choice([0, 0, 0, 4, 6]),
        'close': rng.choice([None, None, None, [0, 0.0], [0, 0.02], [0, 0.3], [1, 0.05], [0, 10.6], [0, 3.0]]), 'hops': rng.choice([0, 1, 2, 3, 4]),
        'clients': rng.choice([1, 1, 2]),
        'fds': rng.choice([None] * 6 + [[0.0, 0.02, 0], [0.0, 3.0, 1], [10.4, 11.0, 0]]),
    }


def valid(plan):
    return plan['clients'] in (1, 2) and all(host and all(step['ips'] for step in host) for host in plan['hosts']) and plan['hosts'] and all(
        p and all(len(x) == 2 and x[1] for x in p) for p in plan['ips']) and len(plan['ips']) == len(POOL) and all(
        user['local'] is None or user['local'] for user in plan['users']) and all(user['port'] for user in plan['users']) and (plan['close'] is None or len(plan['close']) == 2) and (
        plan['fds'] is None or len(plan['fds']) == 3)


LOCALS = {0: ('127.0.0.1', None), 1: ('::1', None), 2: ('203.0.113.1', errno.EADDRNOTAVAIL), 3: ('10.0.0.9', errno.EADDRINUSE)}


class World:
    pass


class User:
    pass


class Other(Exception):
    pass


class Factory(Exception):
    pass


class Protocol(AbstractProtocolBase):
    __slots__ = ('transport', 'made', 'lost', '__weakref__')

    def __new__(cls):
        self = object.__new__(cls)
        self.made = 0
        self.lost = 0
        self.transport = None
        return self

    def connection_made(self, transport):
        self.made += 1
        self.transport = transport

    def connection_lost(self, exception):
        self.lost += 1

    def get_extra_info(self, name, default=None):
        return self.transport.get_extra_info(name, default)

    def pause_writing(self):
        pass

    def resume_writing(self):
        pass

    def data_received(self, data):
        pass

    def eof_received(self):
        return False

    def close_transport(self, force=False):
        self.transport.close()


def family_of(number):
    return {0: 0, 4: real_socket.AF_INET, 6: real_socket.AF_INET6}[number]


def status_of(plan, ip, now):
    """The set of states which the address may show at the time."""
    out = set()
    current = None
    for at, state in sorted(plan['ips'][POOL.index(ip)], key=lambda x: x[0]):
        if at <= now or current is None:
            current = state
    return current


class Lookup:
    pass


def make_resolver(w):
    plan = w.plan
    real = event_loop_module.get_address_info_async

    async def fake(event_loop, host_name, port, socket_family=0, socket_type=0, socket_protocol=0, socket_flags=0, **kw):
        if not (isinstance(host_name, str) and (host_name in NAMES or host_name == 'local.example')):
            return await real(event_loop, host_name, port, socket_family, socket_type, socket_protocol, socket_flags, **kw)
        if host_name == 'local.example':
            user = w.local_of[port]
            await sleep(0.001, event_loop)
            out = [LOCALS[index][0] for index in user.spec['local']]
            return pack([ip for ip in out if not socket_family or (real_socket.AF_INET6 if ':' in ip else real_socket.AF_INET) == socket_family], 0)
        host = NAMES.index(host_name)
        steps = plan['hosts'][host]
        number = w.calls.get(host, 0)
        w.calls[host] = number + 1
        step = steps[min(number, len(steps) - 1)]
        lookup = Lookup()
        lookup.host = host
        lookup.port = port
        lookup.start = w.sim.now
        lookup.end = None
        lookup.step = step
        lookup.family = socket_family
        lookup.number = number
        lookup.done = False
        lookup.cancelled = False
        lookup.kind = None
        lookup.owner, lookup.user = ('direct', w.local_of[port - 10000]) if port >= 50000 else (port // 1000, None)
        w.lookups.append(lookup)
        w.sim.log('lookup', host, number)
        try:
            if step['delay']:
                await sleep(step['delay'], event_loop)
            if w.settled:
                kind = 'ok'
                ips = ['10.1.0.9']
            else:
                kind = step['kind']
                ips = [POOL[i] for i in step['ips']]
            ips = [ip for ip in ips if not socket_family or (real_socket.AF_INET6 if ':' in ip else real_socket.AF_INET) == socket_family]
            if kind == 'ok' and not ips:
                kind = 'gaierror'
            lookup.kind = kind
            lookup.ips = ips
            if kind == 'oserror':
                raise OSError('the lookup failed')
            if kind == 'gaierror':
                raise real_socket.gaierror(-2, 'Name or service not known')
            if kind == 'other':
                raise Other('unrelated')
            lookup.done = True
            return pack(ips, port)
        except CancelledError:
            lookup.cancelled = True
            raise
        finally:
            lookup.end = w.sim.now
            w.sim.log('looked-up', host, number)
    return real, fake


def pack(ips, port):
    if not ips:
        raise real_socket.gaierror(-2, 'Name or service not known')
    return [(real_socket.AF_INET6 if ':' in ip else real_socket.AF_INET, real_socket.SOCK_STREAM, 6, '', (ip, port, 0, 0) if ':' in ip else (ip, port)) for ip in ips]


def listener(w, ip):
    def accept(end):
        buffer = bytearray()

        def on(end, kind, data):
            if kind == 'data':
                buffer.extend(data)
                if b'\r\n\r\n' in buffer:
                    body = ip.encode()
                    end.raw_send(b'HTTP/1.1 200 OK\r\nConnection: close\r\nContent-Length: %d\r\n\r\n%b' % (len(body), body))
                    end.raw_fin()
            elif kind == 'eof':
                end.raw_close()
        end.callback = on
    return accept


async def work(w, loop, user):
    spec = user.spec
    name = NAMES[user.host]
    port = user.port
    user.began = w.sim.now
    user.cache_at_start = None
    if user.how == 'direct':
        factory = Protocol
        if spec['fail']:
            def factory():
                user.factory_calls += 1
                raise Factory()
        local = None
        if spec['local'] is not None:
            # the port tells whose it is
            local = ('local.example', 40000 + user.index)
        protocol = await loop.create_connection_to(factory, name, port, local_address=local, socket_family=family_of(spec['family']))
        user.protocol = protocol
        return protocol.get_extra_info('peer_name')[0]
    client = w.clients[user.client]
    if user.how == 'connector':
        request = ClientRequest(loop, 'GET', URL(f'http://{name}:{port}/'), IgnoreCaseMultiValueDictionary(), None, None, None, None, None, None, None, None)
        user.request = request
        connection = await client.connector.connect(request)
        user.connection = connection
        return connection.get_transport().get_extra_info('peer_name')[0]
    async with client.get(f'http://{name}:{port}/') as response:
        data = await response.read()
    return data.decode()


async def guarded(w, loop, user):
    w.user_of[loop.current_task] = user
    spec = user.spec
    try:
        if user.timeout is not None:
            task = Task(loop, inner(w, loop, user))
            task.apply_timeout(user.timeout)
            user.inner = task
            try:
                result = await task
            except TimeoutError as exception:
                user.outcome = ('timeout',) if exception.errno is None else ('error', exception)
                return
        else:
            result = await work(w, loop, user)
    except CancelledError:
        user.outcome = ('cancelled',)
        raise
    except Exception as exception:
        user.outcome = ('error', exception)
    else:
        user.outcome = ('ok', result)
    finally:
        user.ended = w.sim.now


async def inner(w, loop, user):
    w.user_of[loop.current_task] = user
    return await work(w, loop, user)


def hop(loop, count, function):
    if count > 0:
        loop.call_soon(hop, loop, count - 1, function)
    else:
        function()


def make_user(w, index, spec):
    user = User()
    user.index = index
    user.spec = spec
    user.host = spec['host'] % len(w.plan['hosts'])
    user.how = spec['how']
    user.client = spec['client'] % w.plan['clients']
    user.timeout = spec['timeout']
    user.attempts = []
    user.binds = []
    user.factory_calls = 0
    # ports tell who asks
    user.port = 50000 + index if user.how == 'direct' else 1000 * user.client + spec['port']
    user.outcome = None
    user.ended = None
    user.began = None
    user.cancelled_at = None
    user.protocol = None
    user.connection = None
    w.local_of[40000 + index] = user
    return user


def release(w, user):
    if user.protocol is not None:
        user.protocol.close_transport()
    if user.connection is not None:
        user.connection.close()


async def main(loop, w):
    plan = w.plan
    sim = w.sim
    base = sim.now
    w.base = base
    before = set(sim.net.fds)
    w.clients = [HTTPClient(loop, connector=ConnectorTCP(loop, family=family_of(plan['family']))) for _ in range(plan['clients'])]
    w.closed_at = {}
    if plan['close'] is not None:
        number, at = plan['close']
        number %= plan['clients']

        def close():
            w.closed_at[number] = sim.now
            sim.log('close connector')
            w.clients[number].connector.close()
        loop.call_after(at, hop, loop, plan['hops'], close)
    if plan['fds'] is not None:
        at, until_, spare = plan['fds']
        def limit():
            sim.net.fd_limit = len(sim.net.fds) + spare
            w.short = [sim.now, None]
            sim.fault('fd_limit')

        def unlimit():
            sim.net.fd_limit = None
            if w.short is not None:
                w.short[1] = sim.now
        loop.call_after(at, limit)
        loop.call_after(until_ + 0.001, unlimit)

    users = []
    tasks = []

    def begin(user):
        user.task = Task(loop, guarded(w, loop, user))
        tasks.append(user.task)
        spec = user.spec
        if spec['cancel'] is not None:
            def cancel():
                if user.outcome is None:
                    user.cancelled_at = sim.now
                    user.task.cancel()
            if spec['cancel'] == 0.0:
                hop(loop, spec['hops'], cancel)
            else:
                loop.call_after(spec['cancel'], hop, loop, spec['hops'], cancel)

    for index, spec in enumerate(plan['users']):
        user = make_user(w, index, spec)
        w.users.append(user)
        loop.call_after(spec['at'], begin, user)

    def ended(user):
        return user.outcome is not None or (user.cancelled_at is not None and user.task.is_done())
    longest = 31.0 + 6 * 128.0 * 3
    if not await until(loop, lambda: all(ended(user) for user in w.users), longest, 0.25):
        w.fail('hang', f'users did not end: {[user.spec for user in w.users if not ended(user)]}')
        w.check()
    for user in w.users:
        verify(w, user)
        w.check()
    # Everyone is gone: the connectors still work.
    w.settled = True
    sim.net.fd_limit = None
    await sleep(LIFE + 1.0, loop)
    for number in range(plan['clients']):
        if number in w.closed_at:
            continue
        for host in range(len(plan['hosts'])):
            for port in (80, 81):
                user = make_user(w, len(w.users), {'host': host, 'how': 'connector', 'client': number, 'timeout': None, 'port': port, 'family': 0, 'local': None, 'fail': False, 'cancel': None})
                w.users.append(user)
                user.task = Task(loop, guarded(w, loop, user))
                if not await until(loop, lambda: user.outcome is not None, 6 * 128.0 * 3, 0.25):
                    w.fail('poisoned', f'a later request of the same host did not end: host {host}')
                elif plan['family'] != 6 and user.outcome[0] != 'ok':
                    w.fail('poisoned', f'a later request of the same host ended with {user.outcome!r}')
                w.check()
    # lookups which nobody waits for end as well
    for user in w.users:
        release(w, user)
    for client in w.clients:
        client.connector.close()
    await sleep(2.0, loop)
    left = set(sim.net.fds) - before
    if left:
        w.fail('leak', f'{len(left)} sockets were not closed')
    if sim.net.gc_closed:
        w.fail('leak', f'{len(sim.net.gc_closed)} sockets were dropped without closing them')
    check_lookups(w)
    w.check()


def check_lookups(w):
    """Lookups of a host are shared and their results reused."""
    for lookup in w.lookups:
        if lookup.owner == 'direct':
            continue
        for other in w.lookups:
            if other is lookup or other.owner != lookup.owner or other.host != lookup.host or other.port != lookup.port or other.number >= lookup.number:
                continue
            if other.end is None or other.end > lookup.start:
                w.fail('not-shared', f'lookup {lookup.number} of host {lookup.host} started at {lookup.start} while lookup {other.number} was running until {other.end}')
            elif other.done and lookup.start < other.end + LIFE - 0.005:
                w.fail('not-cached', f'lookup {lookup.number} of host {lookup.host} started at {lookup.start}, lookup {other.number} ended successfully at {other.end}')


def verify(w, user):
    plan = w.plan
    spec = user.spec
    outcome = user.outcome
    if outcome is None or user.began is None:
        return
    tried = [(ip, state) for (_, ip, state) in user.attempts]
    where = f'user {user.index} {user.how} host {user.host} from {user.began} until {user.ended}, tried {tried}, ended with {outcome!r}'
    seen = set()
    for ip, state in tried:
        if ip in seen:
            w.fail('tried-twice', where)
        seen.add(ip)
    for ip, state in tried[:-1]:
        if state == 'ok':
            w.fail('went-on', where)
    if user.how == 'direct':
        lookups = [l for l in w.lookups if l.owner == 'direct' and l.user is user]
    else:
        lookups = [l for l in w.lookups if l.owner == user.client and l.host == user.host and l.port == user.port]
    # what it could know
    known = [l for l in lookups if l.done and l.end <= user.ended]
    usable = set()
    for l in known:
        usable.update(l.ips)
    for ip, state in tried:
        if ip not in usable:
            w.fail('foreign-address', where)
    # the result of a lookup which was outdated may be used only if nothing newer was known as it started
    before = [l for l in known if l.end <= user.began]
    if outcome[0] == 'cancelled' :
        if user.cancelled_at is None:
            w.fail('cancelled', f'{where}, it was not cancelled')
        elif user.ended > user.cancelled_at + 0.05:
            w.fail('late-cancel', f'{where}, it was cancelled at {user.cancelled_at}')
        return
    if outcome[0] == 'timeout':
        if user.timeout is None or user.ended < user.began + user.timeout - 0.005:
            w.fail('timeout', where)
        return
    if user.timeout is not None and user.ended > user.began + user.timeout + 0.05:
        w.fail('late-timeout', where)
    if outcome[0] == 'ok':
        if not tried or tried[-1][0] != outcome[1]:
            w.fail('wrong-peer', where)
        elif tried[-1][1] != 'ok':
            w.fail('wrong-peer', where)
        if spec['fail'] and user.how == 'direct':
            w.fail('factory', where)
        return
    exception = outcome[1]
    if user.how == 'direct' and spec['fail'] and isinstance(exception, Factory):
        if not tried or tried[-1][1] != 'ok':
            w.fail('factory', where)
        return
    closed = w.closed_at.get(user.client) if user.how != 'direct' else None
    if isinstance(exception, Other):
        if not any(l.kind == 'other' and l.end is not None and l.end <= user.ended and l.end >= user.began for l in lookups if l.end is not None):
            w.fail('error', where)
        return
    if not isinstance(exception, OSError):
        w.fail('error', where)
        return
    if closed is not None and closed <= user.ended:
        return
    if user.how == 'http' and user.ended > user.began + 30.0:
        # the timeout of the client
        return
    # It failed: everything it could know must have failed.
    if tried and tried[-1][1] == 'ok':
        w.fail('gave-up', f'{where}: the last one had answered')
        return
    failed = [l for l in lookups if l.end is not None and user.began <= l.end <= user.ended and not l.done]
    newest = [l for l in known if l.end >= user.began]
    if before:
        last = before[-1]
        expected = last.ips
        if user.began < last.end + LIFE - 0.01:
            need = [expected]
        elif user.began > last.end + LIFE + 0.01:
            need = [l.ips for l in newest] if newest else None
        else:
            return
    else:
        need = [l.ips for l in newest] if newest else None
    if need is None:
        if not failed:
            w.fail('no-reason', f'{where}, no lookup failed')
        return
    if failed and user.how != 'direct' and newest and len(failed) + len(newest) > 1:
        return
    blocked = w.blocked(user)
    best = None
    for ips in need:
        missing = [ip for ip in ips if ip not in seen and ip not in blocked]
        if not missing:
            return
        best = missing
    w.fail('gave-up', f'{where}: {best} were not tried')


def run(plan, sim):
    w = World()
    w.plan = plan
    w.sim = sim
    w.problems = []
    w.users = []
    w.user_of = {}
    w.local_of = {}
    w.lookups = []
    w.calls = {}
    w.settled = False
    w.short = None
    w.fail = lambda kind, text: w.problems.append((kind, text))

    def check():
        if w.problems:
            kind, text = w.problems[0]
            raise Violation(kind, f'{text} {plan}')
    w.check = check

    def policy(address):
        state = 'ok' if address[0] not in POOL else status_of(plan, address[0], sim.now - w.base)
        user = w.user_of.get(w.loop.current_task)
        if user is not None:
            user.attempts.append((sim.now, address[0], state))
            if address[1] != user.port:
                w.fail('wrong-port', f'{address}')
        return state

    def bind(ip):
        for address, code in LOCALS.values():
            if address == ip:
                return code
        return None
    sim.params['connect'] = policy
    sim.params['bind'] = bind

    def blocked(user):
        """Addresses no socket can be made for."""
        out = set()
        families = set()
        if sim.params.get('no_ipv6'):
            out.update(ip for ip in POOL if ':' in ip)
        if w.short is not None:
            if (w.short[1] is None or user.began <= w.short[1]) and user.ended >= w.short[0]:
                out.update(POOL)
        if user.how == 'direct' and user.spec['local'] is not None:
            good = {':' in LOCALS[index][0] for index in user.spec['local'] if LOCALS[index][1] is None}
            out.update(ip for ip in POOL if (':' in ip) not in good)
        return out
    w.blocked = blocked
    for ip in [*POOL, '10.1.0.9']:
        for port in (80, 81, 1080, 1081, *range(50000, 50000 + len(plan['users']))):
            sim.net.listeners[(ip, port)] = listener(w, ip)
    real, fake = make_resolver(w)
    event_loop_module.get_address_info_async = fake

    async def body(loop):
        w.loop = loop
        await main(loop, w)
    try:
        run_async(sim, body)
    finally:
        event_loop_module.get_address_info_async = real
    no_errors(sim)
