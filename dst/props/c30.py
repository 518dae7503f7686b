"""Websockets: closing always ends, nobody waits forever."""
from ..world import *
from .. import http as H, ws as W
from .c29 import until, interleaving, shape, plain
from scarletio.http_client import HTTPClient
from scarletio.web_socket import WebSocketServer
from scarletio.web_common import ConnectionClosed, InvalidHandshake, PayloadError

BUDGET = {'quick': 50000, 'thorough': 300000}
RULE = ('One evaluation is one websocket connection over a simulated network between a client and a server of the library, or one of them and '
        'a reference peer which may be silent, stop reading, or end the connection in any way. While messages and pings go both ways, random '
        'closing events happen at random instants: close calls from either side (some cancelled), the handler returning or raising, the server '
        'closing, resets, stalls, the peer closing, ending, violating the protocol; or the opening handshake is cut. Everything has to be over in time.')
ASSUMPTIONS = ['A side on which nothing happens and nobody closes may stay open (there is no keep alive).', 'Pending pings may get cancelled by closing.',
               'A close call needs at most 5 times its close_timeout.']
STUBS = ['reference websocket peer']

SIZES = [0, 1, 5, 100, 126, 2000, 20000]
BIG = SIZES + [100000, 200000]


def gen_ops(rng, sizes):
    tasks = []
    for _ in range(rng.choice([0, 1, 1, 2])):
        tasks.append([{'kind': rng.choice(['text', 'text', 'bytes', 'ping', 'ping']), 'size': rng.choice(sizes), 'gap': rng.choice([0.0, 0.001, 0.01, 0.03]),
                       'cancel': rng.choice([None] * 9 + [0.0, 0.003])}
                      for _ in range(rng.randint(1, 6))])
    return tasks


def gen(rng):
    mode = rng.choice(['both', 'both', 'both', 'client', 'client', 'server', 'server', 'hs-server', 'hs-client'])
    params = swarm(rng, delay_min=[0.0, 0.001], delay_max=[0.001, 0.005], short=[0.0, 0.4], segment=[0.0, 0.5], eagain=[0.0, 0.2],
                   late=[None, 0.2], late_max=[0.002], cap=[65536, 65536, 3000], tick=[1e-7])
    plan = {'params': params, 'mode': mode, 'ct': [rng.choice([0.4, 3.0]), rng.choice([0.4, 3.0])]}
    if mode.startswith('hs'):
        plan['cut'] = rng.choice([0, 0, 1, 20, 60, 100, 1000])
        plan['end'] = rng.choice(['silent', 'fin', 'close', 'rst', 'garbage'])
        plan['gap'] = rng.choice([0.0, 0.002, 0.01])
        plan['at'] = rng.choice([0.0, 0.001, 0.003, 0.005, 0.01, 0.02, 0.1])
        plan['how'] = rng.choice(['cancel', 'cancel', 'none'] if mode == 'hs-client' else ['close', 'close', 'late-close'])
        plan['count'] = rng.choice([1, 1, 2, 3])
        return plan
    plan['read'] = {'a': rng.choice(['now', 'now', 'late', 'slow']), 'b': rng.choice(['now', 'now', 'late', 'slow'])}
    plan['waiters'] = {'a': rng.choice([0, 0, 1]), 'b': rng.choice([0, 0, 1])}
    times = [0.0, 0.001, 0.003, 0.01, 0.012, 0.02, 0.03, 0.05, 0.1]
    kinds = {
        'both': ['close', 'close', 'close', 'close', 'cancel-close', 'return', 'raise', 'server-close', 'drop', 'stall', 'stall-one', 'cancel-task'],
        'client': ['close', 'close', 'cancel-close', 'p-close', 'p-close', 'p-fin', 'p-rst', 'p-bad', 'p-pause', 'p-resume', 'drop', 'stall', 'p-half'],
        'server': ['close', 'close', 'cancel-close', 'return', 'raise', 'server-close', 'p-close', 'p-close', 'p-fin', 'p-rst', 'p-bad', 'p-pause',
                   'p-resume', 'drop', 'stall', 'p-half', 'cancel-task'],
    }[mode]
    healthy = mode == 'both' and rng.random() < 0.5
    if healthy:
        kinds = ['close', 'close', 'close', 'return', 'raise', 'server-close']
    sizes = SIZES if healthy or rng.random() < 0.7 else BIG
    plan['ops'] = {'a': gen_ops(rng, sizes), 'b': gen_ops(rng, sizes)}
    plan['events'] = [{'at': rng.choice(times), 'kind': rng.choice(kinds), 'side': rng.choice('ab') if mode == 'both' else 'a' if mode == 'client' else 'b',
                       'for': rng.choice([0.0, 0.001, 0.004, 0.02, 0.1, 1.0, 7.0]), 'code': rng.choice([1000, 1001, 1003, 3000, 4999]),
                       'reason': rng.choice(['', 'bye', 'é' * 61])}
                      for _ in range(rng.choice([1, 1, 1, 2, 2, 3]))]
    plan['peer'] = {'close': rng.choice([True, True, False]), 'pong': rng.choice([True, False]), 'fin': rng.choice([True, True, False]),
                    'eof': rng.choice([True, True, False]), 'after': rng.choice([0, 0, 1, 3])}
    return plan


def valid(plan):
    if min(plan['ct'], default=0) <= 0 or len(plan['ct']) != 2:
        return False
    if plan['mode'].startswith('hs'):
        return plan['count'] > 0
    return all(isinstance(plan[k], dict) and set(plan[k]) == set('ab') for k in ('ops', 'read', 'waiters')) and bool(plan['events']) and all(
        isinstance(t, list) and t and all(isinstance(o, dict) and o['kind'] for o in t) for s in 'ab' for t in plan['ops'][s]) and all(
        e['kind'] and e['side'] and (e['code'] in (1000, 1001, 1003) or e['code'] >= 3000) for e in plan['events'])


class World:
    pass


class Side:
    def __init__(self, name, ct):
        self.name = name
        self.ct = ct
        self.ws = None
        self.tasks = []         # (label, task)
        self.sent = []
        self.got = []
        self.end = None
        self.reader_done = False
        self.closed_at = None   # when something happened which has to close this side
        self.fast_at = None


def payload(op, side, task, index):
    if op['kind'] == 'text':
        return W.make_text(f'{side}{task}{index}', op['size'])
    return W.make_binary(f'{side}{task}{index}', op['size'])


async def sender(w, loop, side, number, ops, sent):
    ws = side.ws
    for index, op in enumerate(ops):
        await sleep(op['gap'], loop)
        record = None
        if op['kind'] == 'ping':
            coroutine = ws.ping()
        else:
            data = payload(op, side.name, number, index)
            record = [data, False]
            sent.append(record)
            coroutine = ws.send(data)
        call = loop.create_task(coroutine)
        if op['cancel'] is not None:
            loop.call_after(op['cancel'], call.cancel)
        try:
            await call
        except CancelledError:
            if op['cancel'] is None and op['kind'] != 'ping':
                raise Violation('cancelled', f"{op['kind']} got cancelled")
        except ConnectionClosed:
            return
        else:
            if record is not None:
                record[1] = True


async def reader(w, loop, side):
    ws = side.ws
    how = w.plan['read'][side.name]
    if how == 'late':
        await until(loop, lambda: ws.closed or w.ending, 100.0)
    while True:
        if how == 'slow':
            await sleep(0.01, loop)
        try:
            message = await ws.receive()
        except ConnectionClosed as exception:
            side.end = exception
            if side.name == 'b':
                w.handler_end.set_result_if_pending('end')
            return
        side.got.append(plain(message))


async def second_waiter(w, loop, side):
    """An other reader of the same websocket."""
    while True:
        try:
            side.got.append(plain(await side.ws.receive()))
        except ConnectionClosed:
            return


def spawn(w, loop, side, label, coroutine):
    task = loop.create_task(coroutine)
    side.tasks.append((label, task))
    return task


def use(w, loop, side, ws):
    plan = w.plan
    side.ws = ws
    spawn(w, loop, side, 'reader', reader(w, loop, side))
    for _ in range(plan['waiters'][side.name]):
        spawn(w, loop, side, 'waiter', second_waiter(w, loop, side))
    for index, ops in enumerate(plan['ops'][side.name]):
        sent = []
        side.sent.append(sent)
        spawn(w, loop, side, 'sender', sender(w, loop, side, index, ops, sent))


async def closer(w, loop, side, code, reason):
    await side.ws.close(code, reason)


def fire(w, loop, side, event):
    kind = event['kind']
    w.sim.fault(kind)
    w.sim.log('event', side.name, kind)
    if kind in ('close', 'cancel-close'):
        task = loop.create_task(closer(w, loop, side, event['code'], event['reason']))
        if kind == 'cancel-close':
            side.tasks.append(('cancelled-close', task))
            loop.call_after(event['for'], task.cancel)
            if event['for'] > 0.0:
                note(w, side)       # it has begun
        else:
            side.tasks.append(('close', task))
            note(w, side)
        w.codes.add((event['code'], event['reason']))
    elif side.name == 'b':
        if w.handler_over:
            return
        if kind == 'server-close':
            w.codes.add((1001, ''))
            note(w, side)
            spawn(w, loop, side, 'server-close', close_server(w))
        elif kind == 'cancel-task':
            task = side.ws.handler_task
            if task is not None:
                note(w, side)
                task.cancel()
        else:
            note(w, side)
            w.codes.add((1011 if kind == 'raise' else 1000, ''))
            w.handler_end.set_result_if_pending(kind)


async def close_server(w):
    await w.server.close()


def note(w, side):
    if side.closed_at is None:
        side.closed_at = w.sim.now


def net_event(w, event):
    """Events of the network and of the raw peer."""
    kind = event['kind']
    net = w.sim.net
    ends = w.ends
    if kind in ('close', 'cancel-close', 'return', 'raise', 'server-close', 'cancel-task'):
        return
    w.sim.fault(kind)
    w.sim.log('event', kind)
    if kind == 'drop':
        for end in ends():
            end.on_rst()
        for side in w.sides:
            note(w, side)
    elif kind == 'stall':
        for end in ends():
            end.stall(event['for'])
    elif kind == 'stall-one':
        ends()[0 if event['side'] == 'a' else 1].stall(event['for'])
    else:
        peer = w.peer
        if kind == 'p-close':
            if not peer.close_sent:
                peer.send_close(event['code'], event['reason'])
                if not peer.is_client and w.plan['peer']['fin'] and peer.parser.closed is not None:
                    peer.end.raw_fin()
        elif kind == 'p-half':
            peer.end.raw_send(peer.frame(W.TEXT, b'x' * 50)[:20])
        elif kind == 'p-fin':
            peer.end.raw_fin()
        elif kind == 'p-rst':
            peer.end.raw_rst()
        elif kind == 'p-bad':
            if not peer.close_sent:
                peer.end.raw_send(W.encode_frame(W.TEXT, b'x', rsv=1, mask=b'abcd' if peer.is_client else None))
        elif kind == 'p-pause':
            peer.end.pause_rx = True
        elif kind == 'p-resume':
            if peer.end.pause_rx and not peer.end.closed:
                peer.end.resume_rx()


def is_healthy(plan):
    return plan['mode'] == 'both' and all(e['kind'] in ('close', 'return', 'raise', 'server-close') for e in plan['events']) and min(plan['ct']) >= 3.0


def is_prompt(plan):
    """The connection ends, or the peer ends it as it should."""
    kinds = [e['kind'] for e in plan['events']]
    if min(plan['ct']) < 3.0 or not kinds or max((o['size'] for s in 'ab' for t in plan['ops'][s] for o in t), default=0) > 20000:
        return False
    if all(kind == 'drop' or kind == 'p-rst' for kind in kinds):
        return True
    peer = plan['peer']
    return plan['mode'] != 'both' and peer['close'] and peer['fin'] and peer['eof'] and all(kind in ('p-close', 'close', 'p-fin', 'p-rst', 'drop') for kind in kinds)


async def play(w, loop):
    """-> when everything is set up: waits for the end of everything."""
    plan = w.plan
    sim = w.sim
    sides = w.sides
    for event in plan['events']:
        sim.at(sim.now + event['at'], net_event, w, event)
    for event in plan['events']:
        if event['kind'] in ('close', 'cancel-close', 'return', 'raise', 'server-close', 'cancel-task'):
            side = [s for s in sides if s.name == event['side']][0]
            loop.call_after(event['at'], fire, w, loop, side, event)
    start = sim.now
    await sleep(0.3, loop)
    if is_healthy(plan):
        # the effective closing events
        began = [s.closed_at for s in sides if s.closed_at is not None]
        if began:
            t = min(began)
            if not await until(loop, lambda: all(over(s) for s in sides) and w.handler_over, max(0.0, t + 1.5 - sim.now), 0.01):
                raise Violation('slow-close', f'after {sim.now - t} {status(w)} {plan}')
            check_fds(w, 'healthy')
            sim.log('healthy end')
    if is_prompt(plan):
        t = max(e['at'] for e in plan['events']) + start
        if not await until(loop, lambda: all(over(s) for s in sides), max(0.0, t + 1.0 - sim.now), 0.01):
            raise Violation('slow-end', f'after {sim.now - t} {status(w)} {plan}')
        for side in sides:
            if all(e['kind'] in ('drop', 'p-rst', 'p-fin') for e in plan['events']) and (side.ws.close_code, side.end and side.end.code) != (1006, 1006):
                raise Violation('close-code', f'{side.name} {side.ws.close_code} {side.end!r} {plan}')
    # bounds of the sides on which something happened
    for side in sides:
        if side.closed_at is not None:
            if not await until(loop, lambda: over(side), max(0.0, side.closed_at + 5 * side.ct + 0.5 + 7.5 * bool(any(e['kind'] == 'drop' for e in plan['events'])) - sim.now), 0.05):
                raise Violation('side-open', f'{side.name} {status(w)} {plan}')
    # a call to close is always enough
    w.ending = True
    at = sim.now
    for side in sides:
        spawn(w, loop, side, 'final-close', closer(w, loop, side, 1000, ''))
    limit = 5 * max(plan['ct']) + 1.0
    if not await until(loop, lambda: all(over(s) for s in sides), limit, 0.05):
        raise Violation('never-closed', f'{sim.now - at} {status(w)} {plan}')
    if not await until(loop, lambda: all(task.is_done() for s in sides for label, task in s.tasks), 1.0, 0.02):
        raise Violation('pending-call', f'{status(w)} {plan}')
    if not await until(loop, lambda: w.handler_over, 1.0, 0.02):
        raise Violation('handler', f'the handler task is not over {status(w)} {plan}')
    if any(s.name == 'b' for s in sides):
        task = loop.create_task(close_server(w))
        if not await until(loop, lambda: task.is_done(), limit, 0.05):
            raise Violation('server-close', f'{plan}')
        task.get_result()
    check_tasks(w)


def over(side):
    ws = side.ws
    return ws.closed and all(task.is_done() for label, task in side.tasks if label != 'reader' and label != 'waiter') and (
        ws.transfer_data_task.is_done() and ws.close_connection_task.is_done())


def status(w):
    out = []
    for s in w.sides:
        ws = s.ws
        out.append(f"{s.name}: state {ws.state} code {ws.close_code} transfer {ws.transfer_data_task.is_done()} close {ws.close_connection_task.is_done()} "
                   f"transport {ws._transport is not None} pending {[label for label, task in s.tasks if not task.is_done()]}")
    return f"{'; '.join(out)} handler over {w.handler_over}"


def check_tasks(w):
    plan = w.plan
    for side in w.sides:
        for label, task in side.tasks:
            outcome = outcome_of(task)
            if outcome[0] == 'return':
                continue
            if label == 'cancelled-close' and outcome[0] == 'cancelled':
                continue
            exception = outcome[1] if len(outcome) > 1 else 'cancelled'
            if isinstance(exception, Violation):
                raise exception
            raise Violation('call-failed', f'{side.name} {label} {outcome!r} {plan}')
        ws = side.ws
        if side.end is None or type(side.end) is not ConnectionClosed:
            raise Violation('reader-end', f'{side.name} {side.end!r}')
        if not ws.close_code:
            raise Violation('no-code', side.name)
        if ws.pings and any(waiter.is_pending() for waiter in ws.pings.values()):
            raise Violation('ping-pending', side.name)
    if is_healthy(plan) and w.codes:
        # only the first closing frames count
        for side in w.sides:
            other = [s for s in w.sides if s is not side][0]
            if (side.ws.close_code, side.ws.close_reason) not in w.codes:
                raise Violation('close-code', f'{side.name} {side.ws.close_code} {side.ws.close_reason!r} {w.codes} {plan}')
            if side.end.code not in {code for code, reason in w.codes}:
                raise Violation('close-code', f'{side.name} {side.end!r} {w.codes} {plan}')
            if not plan['waiters'][side.name] and not interleaving(side.got, other.sent, True):
                raise Violation('messages', f'{side.name} {[[(shape([m]), sure) for m, sure in s] for s in other.sent]} -> {shape(side.got)} {plan}')
    else:
        for side in w.sides:
            if plan['mode'] == 'both' and not plan['waiters'][side.name]:
                other = [s for s in w.sides if s is not side][0]
                if not interleaving(side.got, other.sent, False):
                    raise Violation('messages', f'{side.name} {[shape([m for m, _ in s]) for s in other.sent]} -> {shape(side.got)} {plan}')
    if plan['mode'] != 'both':
        peer = w.peer
        side = w.sides[0]
        if peer.bad is not None:
            raise Violation('bad-frame', f'{peer.bad} {plan}')
        kinds = [e['kind'] for e in plan['events']]
        if not interleaving(peer.messages, side.sent, False):
            raise Violation('sent-messages', f'{plan}')
    check_fds(w, 'end')


def check_fds(w, when):
    left = left_over(w)
    if left:
        raise Violation('socket-left', f'{when} {left[0].name} {status(w) if hasattr(w, "sides") else ""} {w.plan}')


def left_over(w):
    return [obj for obj in w.sim.net.fds.values() if isinstance(getattr(obj, 'peer_address', None), tuple) and not obj.callback and not obj.local]


async def open_server(w, loop, handler):
    return await WebSocketServer(loop, '127.0.0.1', 8080, handler, web_socket_keyword_parameters={'close_timeout': w.plan['ct'][1]})


def make_handler(w, loop, side):
    async def handler(ws):
        use(w, loop, side, ws)
        w.opened.set_result_if_pending(None)
        watch(w, loop, ws.handler_task)
        kind = await w.handler_end
        w.sim.fault('handler_' + kind)
        if kind == 'raise':
            raise Marker('handler')
    return handler


def watch(w, loop, task):
    def done(task):
        w.handler_over = True
        outcome_of(task)
    task.add_done_callback(done)


async def both(w, loop):
    a = Side('a', w.plan['ct'][0])
    b = Side('b', w.plan['ct'][1])
    w.sides = [a, b]
    w.server = await open_server(w, loop, make_handler(w, loop, b))
    client = HTTPClient(loop)
    ws = await client.connect_web_socket('ws://127.0.0.1:8080/', close_timeout=w.plan['ct'][0])
    use(w, loop, a, ws)
    w.ends = lambda: w.sim.net.conns[-1]
    if not await until(loop, lambda: w.opened.is_done(), 1.0, 0.001):
        raise Violation('harness', 'not opened')
    await play(w, loop)
    client.close()


def make_peer(w, end, is_client, on_open):
    config = w.plan['peer']

    def on_end(peer, kind):
        if config['eof']:
            end.raw_close()

    def on_frame(peer, op, value):
        if op == W.CLOSE:
            if not peer.is_client and config['fin'] and peer.close_sent:
                end.raw_fin()
    peer = W.Peer(w.sim, end, is_client, on_open, on_frame, auto_pong=config['pong'], auto_close=config['close'], on_end=on_end)
    peer.close_queue = config['after']
    return peer


async def with_client(w, loop):
    plan = w.plan
    a = Side('a', plan['ct'][0])
    w.sides = [a]
    w.handler_over = True
    peers = []

    def on_open(peer, head):
        response, request = W.server_response(head)
        peer.end.raw_send(response)

    def accept(end):
        peers.append(make_peer(w, end, False, on_open))
    w.sim.net.listeners[('127.0.0.1', 8080)] = accept
    client = HTTPClient(loop)
    ws = await client.connect_web_socket('ws://127.0.0.1:8080/', close_timeout=plan['ct'][0])
    w.peer = peers[0]
    w.ends = lambda: [e for e in (w.peer.end, w.peer.end.peer)]
    use(w, loop, a, ws)
    await play(w, loop)
    client.close()


async def with_server(w, loop):
    plan = w.plan
    b = Side('b', plan['ct'][1])
    w.sides = [b]
    peers = []
    w.server = await open_server(w, loop, make_handler(w, loop, b))

    def connected(end):
        peers.append(make_peer(w, end, True, lambda peer, head: None))
        end.raw_send(W.client_request('127.0.0.1:8080', 'dGhlIHNhbXBsZSBub25jZQ=='))
    w.sim.net.raw_connect(('127.0.0.1', 8080), connected)
    if not await until(loop, lambda: w.opened.is_done() and peers, 1.0, 0.001):
        raise Violation('harness', 'not opened')
    w.peer = peers[0]
    w.ends = lambda: [e for e in (w.peer.end, w.peer.end.peer)]
    await play(w, loop)


# -- cut opening handshakes

def end_it(end, how):
    if how == 'fin':
        end.raw_fin()
    elif how == 'close':
        end.raw_close()
    elif how == 'rst':
        end.raw_rst()
    elif how == 'garbage':
        end.raw_send(b'\x00\xff' * 20 + b'\r\n\r\n')


async def hs_server(w, loop):
    plan = w.plan
    sim = w.sim
    opened = []

    async def handler(ws):
        opened.append(ws)
        try:
            while True:
                await ws.receive()
        except ConnectionClosed:
            pass

    w.server = await open_server(w, loop, handler)
    ends = []

    def connected(end):
        ends.append(end)
        if end is None:
            return      # the server is closed already
        end.callback = on
        data = W.client_request('127.0.0.1:8080', 'dGhlIHNhbXBsZSBub25jZQ==')
        cut = plan['cut']
        if cut:
            end.raw_send(data[:cut])
        sim.at(sim.now + plan['gap'], end_it, end, plan['end'])

    def on(end, kind, data):
        if kind != 'data':
            end.raw_close()
    for _ in range(plan['count']):
        sim.net.raw_connect(('127.0.0.1', 8080), connected)
    ct = plan['ct'][1]
    if plan['how'] == 'late-close':
        await until(loop, lambda: len(ends) == plan['count'], 1.0, 0.01)
        await sleep(0.2, loop)
        if plan['end'] in ('rst', 'close') or (plan['end'] == 'garbage' and plan['cut'] < 1000):
            # the server does not keep what is over
            if not await until(loop, lambda: not left_over(w) and not w.server.web_sockets, 5 * ct + 0.5):
                raise Violation('handshake-left', f'{left_over(w)} {w.server.web_sockets} {plan}')
    else:
        await sleep(plan['at'], loop)
    at = sim.now
    task = loop.create_task(close_server(w))
    if not await until(loop, lambda: task.is_done(), 5 * ct + 1.0):
        raise Violation('server-close', f'{w.server.web_sockets} {plan}')
    task.get_result()
    if not await until(loop, lambda: not left_over(w), 5 * ct + 1.0):
        raise Violation('socket-left', f'{left_over(w)[0].name} {plan}')
    if w.server.web_sockets:
        raise Violation('web-socket-left', f'{plan}')


async def hs_client(w, loop):
    plan = w.plan
    sim = w.sim
    peers = []

    def on_open(peer, head):
        response, request = W.server_response(head)
        if plan['cut']:
            peer.end.raw_send(response[:plan['cut']])
        sim.at(sim.now + plan['gap'], end_it, peer.end, plan['end'])

    def accept(end):
        peers.append(W.Peer(sim, end, False, on_open, None, on_end=lambda peer, kind: end.raw_close()))
    sim.net.listeners[('127.0.0.1', 8080)] = accept
    client = HTTPClient(loop)
    calls = []

    async def connect():
        ws = await client.connect_web_socket('ws://127.0.0.1:8080/', close_timeout=plan['ct'][0])
        try:
            await ws.receive()
        except ConnectionClosed:
            pass
        finally:
            await ws.close()
    for _ in range(plan['count']):
        calls.append(loop.create_task(connect()))
    if plan['how'] == 'cancel':
        await sleep(plan['at'], loop)
        for call in calls:
            call.cancel()
        limit = 1.0 + 5 * plan['ct'][0]
    else:
        await until(loop, lambda: all(c.is_done() for c in calls), 61.0 + 5 * plan['ct'][0], 0.1)
        for call in calls:
            if call.is_pending() and plan['end'] == 'silent' and plan['cut'] >= 1000:
                call.cancel()       # it is open
        limit = 1.0 + 5 * plan['ct'][0]
    if not await until(loop, lambda: all(c.is_done() for c in calls), limit):
        raise Violation('connect-hangs', f'{plan}')
    for call in calls:
        outcome = outcome_of(call)
        if outcome[0] == 'raise' and not isinstance(outcome[1], (InvalidHandshake, PayloadError, ConnectionError, TimeoutError, ConnectionClosed)):
            raise Violation('connect-exception', f'{outcome[1]!r} {plan}')
        if outcome[0] == 'return' and plan['cut'] < 1000:
            raise Violation('connected', f'{plan}')
        w.sim.log('connect', outcome[0])
    if not await until(loop, lambda: not left_over(w), 5 * plan['ct'][0] + 1.0):
        client.close()
        raise Violation('socket-left', f'{left_over(w)[0].name} {plan}')
    client.close()


async def main(loop, w):
    w.opened = Future(loop)
    w.handler_end = Future(loop)
    await {'both': both, 'client': with_client, 'server': with_server, 'hs-server': hs_server, 'hs-client': hs_client}[w.plan['mode']](w, loop)
    await sleep(0.2, loop)
    left = left_over(w)
    if left:
        raise Violation('socket-left', f'{left[0].name} {w.plan}')


def run(plan, sim):
    w = World()
    w.plan = plan
    w.sim = sim
    w.handler_over = False
    w.ending = False
    w.codes = set()
    run_async(sim, main, w, check_errors=False)
    for exception, location in sim.errors:
        if isinstance(exception, Violation):
            raise exception
        if not isinstance(exception, (Marker, ConnectionClosed, CancelledError, PayloadError) if plan['mode'].startswith('hs') is False else (Marker, ConnectionClosed, CancelledError, PayloadError, ConnectionError)):
            raise Violation('unhandled-exception', f'{exception!r} at {location[:300]}\n' + ''.join(traceback.format_exception(exception))[-1500:])
    if sim.thread_errors:
        raise Violation('thread-died', sim.thread_errors[0])
