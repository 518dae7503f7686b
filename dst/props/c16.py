"""Asynchronous operations over raw sockets."""
import array, errno, socket as real_socket
from selectors import EVENT_READ, EVENT_WRITE
from ..world import *
from .. import net as N

BUDGET = {'quick': 14000, 'thorough': 350000}
RULE = ('One evaluation is a listener, clients which connect (with refusals, silence and cancellation) and both sides sending '
        'and receiving over raw non blocking sockets at the same time, with short transfers, spurious would-block answers, '
        'segmentation, resets, half closes and operations cancelled at any instant.')
ASSUMPTIONS = ['At most one reading and one writing operation runs on a socket at a time.',
               'Bytes (connections) taken from the kernel in the very instant of the cancellation may be lost with it.']
SLACK = 0.004


def gen(rng):
    def send():
        return {'size': rng.choice([0, 1, 3, 40, 400, 1500]), 'type': rng.choice(['bytes', 'bytes', 'bytearray', 'view', 'array']),
                'gap': rng.choice([None, None, 'skip', 0.0, 0.003]), 'cancel': rng.choice([None] * 6 + [0.0, 'skip', 0.002, 0.006])}

    def receive():
        return {'n': rng.choice([1, 7, 64, 1000]), 'into': rng.random() < 0.3,
                'gap': rng.choice([None, None, 'skip', 0.0, 0.003]), 'cancel': rng.choice([None] * 6 + [0.0, 'skip', 0.002, 0.006])}

    def side():
        return {'send': [send() for _ in range(rng.randint(0, 4))], 'receive': [receive() for _ in range(rng.randint(1, 4))],
                'end': rng.choice(['shutdown', 'shutdown', 'shutdown', 'reset'])}
    return {
        'params': swarm(rng, delay_min=[0.0, 0.001], delay_max=[0.001, 0.004], cap=[65536, 700, 64, 23], eagain=[0.0, 0.0, 0.3],
                        short=[0.0, 0.3], segment=[0.0, 0.4], refuse=[0.0, 0.0, 0.3], connect_never=[0.0, 0.0, 0.2], late=[None, 0.2],
                        late_max=[0.002], accept_fault=[0.0, 0.0, 0.3]),
        'kind': rng.choice(['tcp', 'tcp', 'tcp', 'unix']),
        'loops': rng.choice([1, 1, 2]),
        'accept_cancel': [rng.choice([None, None, 0.0, 'skip', 0.003, 0.02]) for _ in range(rng.randint(1, 4))],
        'clients': [{'start': rng.choice([0.0, 0.002, 0.01]), 'cancel': rng.choice([None, None, None, 0.0, 'skip', 0.002, 0.005]),
                     'sides': [side(), side()]} for _ in range(rng.randint(1, 3))],
    }


def valid(plan):
    return (bool(plan['clients']) and plan['loops'] in (1, 2) and bool(plan['accept_cancel']) and
            all(r['n'] > 0 for c in plan['clients'] for s in c['sides'] for r in s['receive']) and
            all(len(c['sides']) == 2 for c in plan['clients']) and
            all(s['receive'] for c in plan['clients'] for s in c['sides']))


class World:
    pass


async def pause(gap, loop):
    if gap == 'skip':
        await skip_ready_cycle()
    elif gap is not None:
        await sleep(gap, loop)


async def cancellable(w, loop, coroutine, cancel):
    """-> (result, exception, time of cancellation)"""
    task = Task(loop, coroutine)
    cancelled_at = None
    if cancel is not None:
        if cancel == 'skip':
            await skip_ready_cycle()
        elif cancel:
            try:
                await task_wait(task, cancel, loop)
            except TimeoutError:
                pass
        if task.is_pending():
            cancelled_at = w.sim.now
            task.cancel()
    try:
        result = await task
    except CancelledError:
        if cancelled_at is None:
            raise Violation('cancelled', 'an operation was cancelled by itself')
        return None, 'cancelled', cancelled_at
    except OSError as exception:
        return None, exception, cancelled_at
    return result, None, cancelled_at


async def task_wait(task, timeout, loop):
    event = Future(loop)
    handle = loop.call_after(timeout, event.set_result_if_pending, None)
    task.add_done_callback(lambda t: event.set_result_if_pending(None))
    await event
    handle.cancel()


class Tap:
    """Records what the kernel saw at an end."""
    def __init__(self, sim, end):
        self.sim = sim
        self.end = end
        self.sent = bytearray()
        self.taken = bytearray()
        self.taken_at = None
        recv, send = end.recv, end.send

        def tapped_recv(n):
            data = recv(n)
            self.taken += data
            if data:
                self.taken_at = sim.now
            return data

        def tapped_send(data):
            n = send(data)
            self.sent += bytes(data)[:n]
            return n
        end.recv = tapped_recv
        end.send = tapped_send


def observed(loop, file_descriptor):
    if loop.selector is None:
        return 0
    key = loop.selector.get_map().get(file_descriptor)
    return 0 if key is None else key.events


def check_free(loop, sock, event, what):
    if observed(loop, sock.fileno()) & event:
        raise Violation('still-observed', f'the socket is observed after {what} ended')


def build(kind, seed, size):
    data = bytes((seed * 31 + i * 7) % 251 for i in range(size))
    if kind == 'bytearray':
        return bytearray(data), data
    if kind == 'view':
        return memoryview(data), data
    if kind == 'array':
        value = array.array('I', range(seed, seed + size // 4))
        return value, value.tobytes()
    return data, data


async def sender(w, loop, sock, tap, side, seed):
    sim = w.sim
    for index, spec in enumerate(side['send']):
        await pause(spec['gap'], loop)
        value, data = build(spec['type'], seed + index, spec['size'])
        before = len(tap.sent)
        result, exception, cancelled_at = await cancellable(w, loop, loop.socket_send_all(sock, value), spec['cancel'])
        written = bytes(tap.sent[before:])
        sim.log('sent', len(written), type(exception).__name__)
        check_free(loop, sock, EVENT_WRITE, 'send all')
        if exception is None:
            if written != data:
                raise Violation('send-wrong', f'{len(data)} bytes given, the kernel got {len(written)} bytes or others')
            if result is not None:
                raise Violation('send-wrong', f'send all returned {result!r}')
        else:
            if not data.startswith(written):
                raise Violation('send-wrong', 'the kernel did not get a prefix of what was given')
            if exception != 'cancelled':
                if exception.errno not in (errno.EPIPE, errno.ECONNRESET):
                    raise Violation('wrong-error', f'{exception!r}')
                if not tap.end.rst:
                    raise Violation('wrong-error', f'{exception!r} without any reset')
                return False
    await pause(0.001, loop)
    if side['end'] == 'shutdown':
        if not (tap.end.rst or tap.end.err):
            sock.shutdown(real_socket.SHUT_WR)
    return True


async def receiver(w, loop, sock, tap, side, got):
    """Reads till the end of the stream."""
    index = 0
    specs = side['receive']
    while True:
        spec = specs[index % len(specs)]
        index += 1
        cancel = spec['cancel'] if index <= len(specs) * 3 else None
        await pause(spec['gap'] if index <= len(specs) * 3 else None, loop)
        n = spec['n'] if index <= len(specs) * 3 else 4096
        before = len(tap.taken)
        if before != len(got) + w.lost.get(tap, 0):
            raise Violation('stolen', 'bytes were taken while nobody was receiving')
        error_before = tap.end.err or tap.end.rst
        if spec['into']:
            buffer = bytearray(n)
            result, exception, cancelled_at = await cancellable(w, loop, loop.socket_receive_into(sock, buffer), cancel)
            data = None if result is None else bytes(buffer[:result])
            if data is not None and any(buffer[result:]):
                raise Violation('receive-wrong', 'written over the received amount')
        else:
            data, exception, cancelled_at = await cancellable(w, loop, loop.socket_receive(sock, n), cancel)
        check_free(loop, sock, EVENT_READ, 'receive')
        taken = bytes(tap.taken[before:])
        w.sim.log('received', len(taken), type(exception).__name__)
        if exception is None:
            if data != taken:
                raise Violation('receive-wrong', f'the kernel gave {len(taken)} bytes, the caller got {data!r}'[:200])
            got += data
            if not data:
                if not (tap.end.rx_eof or tap.end.rst):
                    raise Violation('early-end', 'end of stream without an end')
                return
        elif exception == 'cancelled':
            if taken:
                if tap.taken_at is None or cancelled_at is None or cancelled_at - tap.taken_at > SLACK or tap.taken_at - cancelled_at > 1e-6:
                    raise Violation('stolen', f'a cancelled receive took {len(taken)} bytes')
                w.lost[tap] = w.lost.get(tap, 0) + len(taken)
                w.losses.append((tap, before, len(taken)))
                # the caller does not know of it
        else:
            if exception.errno not in (errno.ECONNRESET, errno.EPIPE):
                raise Violation('wrong-error', f'{exception!r}')
            return


async def talk(w, loop, sock, tap, side, seed):
    got = bytearray()
    w.got[tap] = got
    reading = Task(loop, receiver(w, loop, sock, tap, side, got))
    alive = await sender(w, loop, sock, tap, side, seed)
    if side['end'] == 'reset' and alive:
        await sleep(0.003, loop)
        # the peer gets its reset after what was sent
        w.resets.add(tap)
        tap.end.send_rst()
    await reading
    sock.close()


async def server_side(w, loop, listener):
    """Accepts till everything is connected."""
    index = 0
    while not w.all_connected or listener._k.backlog:
        cancels = w.plan['accept_cancel']
        cancel = cancels[index % len(cancels)]
        index += 1
        if index > 40:
            cancel = 5.0
        if cancel is None:
            cancel = 2.0
        before = w.accepted
        pair, exception, cancelled_at = await cancellable(w, loop, loop.socket_accept(listener), cancel)
        check_free(loop, listener, EVENT_READ, 'accept')
        if exception == 'cancelled':
            if w.accepted != before:
                if cancelled_at - w.accepted_at > SLACK:
                    raise Violation('stolen', 'a cancelled accept took a connection')
                if not w.accepted_end.closed:
                    raise Violation('leaked', 'a cancelled accept left a connection open')
        elif exception is not None:
            if exception.errno not in (errno.EMFILE, errno.ECONNABORTED) or not w.plan['params'].get('accept_fault'):
                raise Violation('wrong-error', f'{exception!r}')
        else:
            sock, address = pair
            if w.accepted != before + 1:
                raise Violation('accept-wrong', f'{w.accepted - before} connections were taken at once')
            end = sock._k
            w.sim.log('accepted', end.name)
            w.serving.append(start_on(w.sim, loop, serve, w, loop, sock, end))


async def serve(w, loop, sock, end):
    client = w.by_end.get(end.peer)
    for _ in range(400):
        if client is not None:
            break
        # the connect was not finished yet on the other side
        await sleep(0.01, loop)
        if end.rst or end.rx_eof:
            break
        client = w.by_end.get(end.peer)
    if client is None:
        sock.close()
        return
    tap = Tap(w.sim, end)
    w.taps.append((w.tap_of[client], tap))
    await talk(w, loop, sock, tap, w.plan['clients'][client]['sides'][1], 1000 + client * 10)


async def client_side(w, loop, number, spec, address):
    sim = w.sim
    await sleep(spec['start'], loop)
    plan = w.plan
    family = real_socket.AF_UNIX if plan['kind'] == 'unix' else real_socket.AF_INET
    for attempt in range(3):
        sock = N.SimSocket(family, real_socket.SOCK_STREAM)
        sock.setblocking(False)
        end = sock._k
        started = sim.now
        result, exception, cancelled_at = await cancellable(
            w, loop, loop.socket_connect(sock, address), spec['cancel'] if attempt == 0 else None)
        check_free(loop, sock, EVENT_WRITE, 'connect')
        sim.log('connect', number, type(exception).__name__, end.state)
        if exception is None:
            if end.state != 'connected':
                raise Violation('connect-wrong', f'connect returned, the socket is {end.state}')
            tap = Tap(sim, end)
            w.tap_of[number] = tap
            w.by_end[end] = number
            break
        if exception != 'cancelled':
            if end.state == 'connected':
                raise Violation('connect-wrong', f'{exception!r} for a connected socket')
            allowed = {errno.ECONNREFUSED} if plan['params'].get('refuse') else set()
            if plan['params'].get('connect_never'):
                allowed.add(errno.ETIMEDOUT)
            if exception.errno not in allowed:
                raise Violation('wrong-error', f'{exception!r}')
            if exception.errno == errno.ETIMEDOUT and sim.now - started < 120.0:
                raise Violation('wrong-error', f'{exception!r} after {sim.now - started} seconds')
        sock.close()
    else:
        return
    await talk(w, loop, sock, tap, spec['sides'][0], number * 10)


def run(plan, sim):
    w = World()
    w.sim = sim
    w.plan = plan
    w.got = {}
    w.lost = {}
    w.losses = []
    w.taps = []
    w.tap_of = {}
    w.by_end = {}
    w.resets = set()
    w.serving = []
    w.all_connected = False
    w.accepted = 0
    w.accepted_at = None
    loops = [new_loop(sim, f'loop{i}') for i in range(plan['loops'])]
    listener = N.SimSocket(real_socket.AF_UNIX if plan['kind'] == 'unix' else real_socket.AF_INET, real_socket.SOCK_STREAM)
    listener.setblocking(False)
    address = '/tmp/s' if plan['kind'] == 'unix' else ('127.0.0.1', 4000)
    listener.bind(address)
    listener.listen(1)
    backlog = listener._k.backlog

    class Backlog(type(backlog)):
        def popleft(self):
            value = type(backlog).popleft(self)
            if not value.closed:
                w.accepted += 1
                w.accepted_at = sim.now
                w.accepted_end = value
            return value
    listener._k.backlog = Backlog()
    boxes = [start_on(sim, loops[0], client_side, w, loops[0], i, spec, address) for i, spec in enumerate(plan['clients'])]
    server = start_on(sim, loops[-1], server_side, w, loops[-1], listener)
    for box in boxes:
        if not box.event.wait(700.0):
            for other in (server, *w.serving):
                if other.done:
                    finish(sim, other)
            raise Violation('hang', 'a client did not end')
        finish(sim, box)
    w.all_connected = True
    if not server.event.wait(100.0):
        raise Violation('hang', 'the server did not end')
    finish(sim, server)
    for box in w.serving:
        if not box.event.wait(100.0):
            raise Violation('hang', 'a served connection did not end')
        finish(sim, box)
    for tap_0, tap_1 in w.taps:
        for a, b in ((tap_0, tap_1), (tap_1, tap_0)):
            if not a.sent.startswith(b.taken):
                raise HarnessError('the simulated network altered the stream')
            expected = bytearray(b.taken)
            removed = 0
            for tap, start, length in w.losses:
                if tap is b:
                    del expected[start - removed:start - removed + length]
                    removed += length
            if w.got[b] != expected:
                raise Violation('stream-altered', 'the received bytes are not the sent ones')
            if b.taken != a.sent and not (a in w.resets or b in w.resets or b.end.rst):
                raise Violation('stream-short', f'{len(b.taken)} of {len(a.sent)} bytes arrived')
    listener.close()
    for loop in loops:
        for key in list(loop.selector.get_map().values()):
            if key.fd != loop._self_read_socket.fileno():
                raise Violation('still-observed', f'{key}')
    for loop in loops:
        stop_loop(sim, loop)
    no_errors(sim)
