"""Websockets: messages arrive whole and in order, violations close the connection."""
from ..world import *
from .. import http as H, ws as W
from scarletio.http_client import HTTPClient
from scarletio.web_socket import WebSocketServer
from scarletio.web_common import ConnectionClosed, InvalidHandshake, PayloadError, WebSocketProtocolError
from scarletio.web_common.web_socket_frame import WebSocketFrame

BUDGET = {'quick': 20000, 'thorough': 300000}
RULE = ('One evaluation is one websocket connection over a simulated network: a client and a server of the library, or one of them and a '
        'reference peer. Each side sends text and binary messages, pings and pongs from several tasks (some of the calls cancelled), reference '
        'peers fragment theirs, put control frames in between, cut them to segments, and may violate the protocol at any point, or take part in '
        'a wrong opening handshake.')
ASSUMPTIONS = ['A cancelled send may or may not have sent its message.', 'max_queue is not used (it drops messages by design).',
               'Close codes 1012 and 1014 are not sent.', 'Extensions are user objects, the library has none of its own.']
STUBS = ['reference websocket peer']

SIZES = [0, 1, 2, 3, 4, 5, 7, 20, 124, 125, 126, 127, 128, 130, 1000, 65535, 65536, 65537, 140000]
VIOLATIONS = ['mask', 'rsv', 'opcode', 'control-fragment', 'control-long', 'cont-start', 'new-inside', 'utf8', 'utf8-part', 'utf8-cut', 'utf8-close',
              'close-code', 'close-short', 'big', 'big-parts', 'huge']
CODES = {'utf8': (1007,), 'utf8-part': (1007,), 'utf8-cut': (1007,), 'utf8-close': (1007, 1002), 'big': (1009,), 'big-parts': (1009,), 'huge': (1009, 1002)}
BAD_CODES = [0, 1, 999, 1004, 1005, 1006, 1015, 1016, 1100, 2000, 2999, 5000, 65535]
BAD_UTF8 = [b'\xff', b'a\x80', b'\xc0\xaf', b'\xed\xa0\x80', b'\xf4\x90\x80\x80', b'ok\xe2\x82', b'\xfe', b'\xf8\x88\x80\x80\x80']
HS_SERVER = {
    'plain': 101, 'case': 101, 'keep-alive': 101, 'two-connections': 101, 'origin-ok': 101, 'protocols': 101, 'foreign-extension': 101,
    'extension': 101, 'no-connection': 0, 'wrong-connection': 0, 'no-upgrade': 0, 'wrong-upgrade': 0, 'no-key': 0, 'bad-key': 0, 'short-key': 0, 'two-keys': 0,
    'version': 0, 'no-version': 0, 'origin-bad': 0, 'origin-none': 0, 'origin-part': 0, 'early': 404, 'early-coroutine': 403, 'early-bytes': 401,
}
HS_CLIENT = {
    'plain': True, 'case': True, 'keep-alive': True, 'two-connections': True, 'upgrade-case': True, 'interim': True, 'protocol': True, 'extension': True,
    'status-200': False, 'status-404': False, 'status-426': False, 'bad-accept': False, 'case-accept': False, 'no-accept': False, 'two-accepts': False,
    'no-connection': False, 'wrong-connection': False, 'no-upgrade': False, 'wrong-upgrade': False, 'foreign-protocol': False, 'unasked-protocol': False,
    'two-protocols': False, 'foreign-extension': False, 'unasked-extension': False, 'fin': False, 'rst': False, 'half': False, 'http10': False,
}


def gen_ops(rng, big):
    tasks = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        ops = []
        for _ in range(rng.randint(0, 5)):
            ops.append({'kind': rng.choice(['text', 'bytes', 'text', 'bytes', 'bytearray', 'memoryview', 'ping', 'ping', 'pong']),
                        'size': rng.choice(SIZES if big else SIZES[:15]), 'gap': rng.choice([None, None, 0.0, 0.001, 0.01]),
                        'cancel': rng.choice([None] * 7 + [0.0, 0.002]), 'data': rng.choice([None, 'same', 'own', 'bytearray', 'own', 'long'])})
        tasks.append(ops)
    return tasks


def gen_script(rng, big):
    items = []
    for _ in range(rng.randint(0, 6)):
        kind = rng.choice(['text', 'binary', 'text', 'binary', 'ping', 'pong'])
        item = {'kind': kind, 'size': rng.choice(SIZES if big else SIZES[:15]), 'form': rng.choice([None, None, None, 2, 8]),
                'gap': rng.choice([0.0, 0.0, 0.001, 0.02])}
        if kind in ('text', 'binary'):
            item['parts'] = [rng.choice([0, 1, 2, 3, 10, 100, 3000, 70000]) for _ in range(rng.choice([0, 0, 1, 2, 3, 6]))]
            item['between'] = [rng.choice([None, None, 'ping', 'pong', 'ping']) for _ in range(len(item['parts']))]
        items.append(item)
    return items


def gen(rng):
    mode = rng.choice(['both', 'both', 'client', 'client', 'server', 'server', 'hs-server', 'hs-client'])
    big = rng.random() < 0.15
    params = swarm(rng, delay_min=[0.0, 0.001], delay_max=[0.001, 0.005], short=[0.0, 0.4], segment=[0.0, 0.5], eagain=[0.0, 0.2],
                   late=[None, 0.2], late_max=[0.002], cap=[65536, 65536, 3000, 300] if not big else [65536, 200000], tick=[1e-7])
    plan = {'params': params, 'mode': mode, 'max_size': rng.choice([None, None, None, 5, 130, 3000, 66000]),
            'extension': rng.choice([False, False, True, 'two']), 'pongs': rng.choice([None, None, 'last']),
            'a': gen_ops(rng, big), 'b': gen_ops(rng, big), 'read_gap': rng.choice([None, None, 0.0, 0.01]),
            'read_cancel': rng.choice([None, None, 0.0, 0.001, 0.003]),
            'close': rng.choice(['client', 'server', 'both']), 'code': rng.choice([1000, 1000, 1001, 1011, 3000, 4999]),
            'reason': rng.choice(['', '', 'bye', 'é' * 61])}
    if mode in ('client', 'server'):
        plan['script'] = gen_script(rng, big)
        plan['cuts'] = H.gen_cuts(rng, 600)
        plan['violation'] = rng.choice([None, None] + VIOLATIONS + ['close-code'])
        plan['inside'] = rng.random() < 0.3
        plan['more'] = rng.choice([0, 1, 3])
        plan['n'] = rng.randint(0, 100)
        plan['with_response'] = rng.random() < 0.4
    elif mode == 'both':
        plan['threads'] = rng.random() < 0.3
        if plan['threads'] and not big:
            plan['params']['preempt'] = 0.002
    elif mode == 'hs-server':
        plan['variant'] = rng.choice(list(HS_SERVER))
        plan['cuts'] = H.gen_cuts(rng, 300)
    else:
        plan['variant'] = rng.choice(list(HS_CLIENT))
        plan['cuts'] = H.gen_cuts(rng, 300)
    return plan


def valid(plan):
    return bool(plan['mode']) and all(isinstance(c, (list, tuple)) and len(c) == 2 for c in plan.get('cuts', ())) and (plan['code'] in (1000, 1001, 1011) or plan['code'] >= 3000) and plan['max_size'] != 0 and all(
        isinstance(t, list) and all(isinstance(o, dict) and o['kind'] for o in t) for t in plan['a'] + plan['b']) and all(
        len(i.get('parts', ())) == len(i.get('between', ())) for i in plan.get('script', ()))


class Extension:
    """Reverses the payload of data frames."""
    def __init__(self, name='x-reverse'):
        self.name = name
        self.request_params = [('mode', '1')]

    def are_valid_parameters(self, parameters, accepted):
        return [tuple(p) for p in parameters] == self.request_params and self not in accepted

    def encode(self, frame):
        if frame.operation_code < 8:
            return WebSocketFrame(frame.final, frame.operation_code, bytes(frame.data)[::-1])
        return frame

    def decode(self, frame, *, max_size):
        if frame.operation_code < 8:
            frame.data = bytes(frame.data)[::-1]
        return frame


class Rotation(Extension):
    """Rotates the payload of data frames, so it is not interchangeable with the reversing one."""
    def __init__(self):
        self.name = 'x-rotate'
        self.request_params = [('by', '1'), ('plain', None)]

    def encode(self, frame):
        if frame.operation_code < 8:
            data = bytes(frame.data)
            return WebSocketFrame(frame.final, frame.operation_code, data[1:] + data[:1])
        return frame

    def decode(self, frame, *, max_size):
        if frame.operation_code < 8:
            data = bytes(frame.data)
            frame.data = data[-1:] + data[:-1]
        return frame


def extensions_of(plan):
    return [Extension(), Rotation()] if plan['extension'] == 'two' else [Extension()]


def encoding(plan):
    """-> (encode, decode) of what the extensions do to the payload of a data frame."""
    if not plan['extension']:
        return (lambda data: data), (lambda data: data)
    if plan['extension'] == 'two':
        return (lambda data: data[::-1][1:] + data[::-1][:1]), (lambda data: (data[-1:] + data[:-1])[::-1])
    return (lambda data: data[::-1]), (lambda data: data[::-1])


class World:
    def __init__(self):
        self.sockets = []


def payload(op, side, task, index):
    size = op['size']
    if op['kind'] == 'text':
        return W.make_text(f'{side}{task}{index}', size)
    data = W.make_binary(f'{side}{task}{index}', size)
    if op['kind'] == 'bytearray':
        return bytearray(data)
    if op['kind'] == 'memoryview':
        return memoryview(data)
    return data


def plain(message):
    if isinstance(message, str):
        return message
    return bytes(message)


def fits(plan, op, data):
    return plan['max_size'] is None or len(data.encode() if isinstance(data, str) else data) <= plan['max_size']


async def sender(w, loop, ws, side, task, ops, sent):
    """Records [payload, surely sent]."""
    plan = w.plan
    for index, op in enumerate(ops):
        if op['gap'] is not None:
            await sleep(op['gap'], loop)
        record = None
        kind = op['kind']
        if kind in ('ping', 'pong'):
            how = op['data']
            data = None if how is None else b'same' if how == 'same' else f'{side}{task}{index}'.encode()
            if how == 'long':
                data = b'l' * (125 + min(op['size'], 20))
                if len(data) > 125:
                    try:
                        await (ws.ping(data) if kind == 'ping' else ws.pong(data))
                    except WebSocketProtocolError:
                        continue
                    raise Violation('long-control', f'{kind} with {len(data)} bytes')
            if how == 'bytearray':
                data = bytearray(data)
            coroutine = ws.ping(data) if kind == 'ping' else ws.pong(data)
        else:
            data = payload(op, side, task, index)
            if not fits(plan, op, data):
                # its own side does not know the limit of the other, keep to it
                coroutine = None
                continue
            record = [plain(data), False]
            sent.append(record)
            coroutine = ws.send(data)
        call = loop.create_task(coroutine)
        if op['cancel'] is not None and not (kind == 'bytearray'):
            loop.call_after(op['cancel'], call.cancel)
        try:
            await call
        except CancelledError:
            if op['cancel'] is None:
                if kind == 'ping' and not ws.open:
                    raise ConnectionClosed(ws.close_code, None)     # pings are cancelled when the connection ends
                raise Violation('cancelled', f'{kind} got cancelled')
            w.sim.fault('cancelled_' + kind)
        else:
            if record is not None:
                record[1] = True


async def reader(w, loop, ws, side, got, box):
    """Reads until the end; -> how it ended."""
    plan = w.plan
    while True:
        if plan['read_gap'] is not None:
            await sleep(plan['read_gap'], loop)
        call = loop.create_task(ws.receive())
        if plan['read_cancel'] is not None:
            handle = loop.call_after(plan['read_cancel'], call.cancel)
            plan_cancel = True
        try:
            message = await call
        except CancelledError:
            w.sim.fault('cancelled_receive')
            if plan['read_cancel'] is None:
                raise Violation('cancelled', 'receive got cancelled')
            await sleep(0.003, loop)
            continue
        except BaseException as exception:
            box.append(exception)
            return
        finally:
            if plan['read_cancel'] is not None:
                handle.cancel()
        if not isinstance(message, (str, bytes, bytearray, memoryview)):
            raise Violation('message-type', repr(type(message)))
        got.append(plain(message))
        w.sim.log('got', side, len(message))


def interleaving(got, tasks, complete):
    """Whether `got` is an interleaving of the tasks' messages, where the ones which are not sure may be missing."""
    states = {tuple([0] * len(tasks))}
    states = close_over(states, tasks)
    for message in got:
        following = set()
        for state in states:
            for index, position in enumerate(state):
                if position < len(tasks[index]) and tasks[index][position][0] == message and type(tasks[index][position][0]) is type(message):
                    following.add(state[:index] + (position + 1,) + state[index + 1:])
        states = close_over(following, tasks)
        if not states:
            return False
    if not complete:
        return True
    return any(all(position == len(task) for position, task in zip(state, tasks)) for state in states)


def close_over(states, tasks):
    out = set(states)
    stack = list(states)
    while stack:
        state = stack.pop()
        for index, position in enumerate(state):
            if position < len(tasks[index]) and not tasks[index][position][1]:
                new = state[:index] + (position + 1,) + state[index + 1:]
                if new not in out:
                    out.add(new)
                    stack.append(new)
    return out


def shape(messages):
    return [f'{type(m).__name__}:{len(m)}:{m[:12]!r}' for m in messages]


async def open_server(w, loop, handler, **keyword):
    plan = w.plan
    parameters = {'close_timeout': 10.0}
    if plan['max_size'] is not None:
        parameters['max_size'] = plan['max_size']
    server = await WebSocketServer(loop, '127.0.0.1', 8080, handler, web_socket_keyword_parameters=parameters, **keyword)
    return server


async def until(loop, condition, limit, step=0.05):
    waited = 0.0
    while not condition():
        if waited > limit:
            return False
        await sleep(step, loop)
        waited += step
    return True


async def use(w, loop, ws, side, other):
    """Runs the senders and the reader of a side."""
    plan = w.plan
    info = w.info[side]
    info['ws'] = ws
    info['loop'] = loop
    info['reader'] = loop.create_task(reader(w, loop, ws, side, info['got'], info['end']))
    tasks = []
    for index, ops in enumerate(plan[side]):
        sent = []
        info['sent'].append(sent)
        tasks.append(loop.create_task(sender(w, loop, ws, side, index, ops, sent)))
    return tasks


def new_info():
    return {'sent': [], 'got': [], 'end': [], 'ws': None, 'done': False}


async def both(w, loop):
    plan = w.plan
    sim = w.sim
    w.info = {'a': new_info(), 'b': new_info()}
    server_loop = loop
    if plan.get('threads'):
        server_loop = new_loop(sim, 'second')
        w.second = server_loop
    keyword = {}
    client_keyword = {'close_timeout': 10.0}
    if plan['max_size'] is not None:
        client_keyword['max_size'] = plan['max_size']
    if plan['extension']:
        keyword['available_extensions'] = [Extension('x-other'), *extensions_of(plan)[::-1]]
        client_keyword['available_extensions'] = extensions_of(plan)
    w.server_done = False
    w.may_end = False

    async def handler(ws):
        tasks = await use(w, server_loop, ws, 'b', 'a')
        w.info['b']['opened'] = True
        try:
            for task in tasks:
                await task
            w.info['b']['done'] = True
            if not await until(server_loop, lambda: w.may_end, 60.0, 0.02):
                raise Violation('harness', 'server not told to end')
            if plan['close'] in ('server', 'both'):
                await ws.close(plan['code'], plan['reason'])
            await w.info['b']['reader']
        except BaseException as exception:
            w.problem = exception
            raise
        finally:
            w.server_done = True

    w.problem = None
    if server_loop is loop:
        server = await open_server(w, loop, handler, **keyword)
    else:
        server = await run_on(server_loop, loop, open_server(w, server_loop, handler, **keyword))
    client = HTTPClient(loop)
    async with client.connect_web_socket('ws://127.0.0.1:8080/chat', **client_keyword) as ws:
        tasks = await use(w, loop, ws, 'a', 'b')
        for task in tasks:
            await task
        w.info['a']['done'] = True
        if not await until(loop, lambda: w.info['b']['done'] or w.problem is not None, 60.0):
            raise Violation('send-hangs', f'the sends and pings of the server did not finish {plan}')
        if w.problem is not None:
            raise w.problem

        def complete():
            return interleaving(w.info['a']['got'], w.info['b']['sent'], True) and interleaving(w.info['b']['got'], w.info['a']['sent'], True)
        ok = await until(loop, complete, 3.0, 0.05)
        if not ok:
            raise Violation('messages', f"{[shape([m for m, _ in s]) for s in w.info['b']['sent']]} -> {shape(w.info['a']['got'])}; "
                            f"{[shape([m for m, _ in s]) for s in w.info['a']['sent']]} -> {shape(w.info['b']['got'])} {w.info['a']['end']} {w.info['b']['end']}")
        # nothing further may arrive
        await sleep(0.1, loop)
        if w.info['a']['end'] or w.info['b']['end']:
            raise Violation('closed-early', f"{w.info['a']['end']} {w.info['b']['end']}")
        w.may_end = True
        start = sim.now
        if plan['close'] in ('client', 'both'):
            await ws.close(plan['code'], plan['reason'])
        await w.info['a']['reader']
        if not await until(loop, lambda: w.server_done, 30.0):
            raise Violation('close-hangs', '')
        if w.problem is not None:
            raise w.problem
        for side in 'ab':
            info = w.info[side]
            exception = info['end'][0] if info['end'] else None
            if type(exception) is not ConnectionClosed:
                raise Violation('end', f'{side} {exception!r}')
            if info['ws'].close_code != plan['code'] or info['ws'].close_reason != plan['reason']:
                raise Violation('close-code', f"{side} {info['ws'].close_code} {info['ws'].close_reason!r} instead of {plan['code']} {plan['reason']!r}")
            if exception.code != plan['code']:
                raise Violation('close-code', f'{side} {exception!r}')
        for side in 'ab':
            if not interleaving(w.info[side]['got'], w.info['b' if side == 'a' else 'a']['sent'], True):
                raise Violation('late-message', side)
    client.close()
    if server_loop is loop:
        await server.close()
    else:
        await run_on(server_loop, loop, close_of(server))


async def close_of(server):
    await server.close()


async def run_on(other, loop, coroutine):
    """Awaits a coroutine on an other loop."""
    box = []

    async def wrapper():
        try:
            box.append((await coroutine, None))
        except BaseException as exception:
            box.append((None, exception))
    other.create_task_thread_safe(wrapper())
    if not await until(loop, lambda: box, 200.0, 0.005):
        raise Violation('hangs', repr(coroutine))
    if box[0][1] is not None:
        raise box[0][1]
    return box[0][0]


# -- with a reference peer

def script_bytes(w, peer, plan):
    """-> (bytes, expected messages, expected pongs, violation expected codes | None)"""
    out = bytearray()
    expected = []
    pongs = []
    violation = plan['violation']
    limit = plan['max_size'] if plan['max_size'] is not None else 1 << 26
    n = plan['n']
    reverse = encoding(plan)[0]

    def control(kind, index):
        data = f'{kind}{index}'.encode()
        if index % 3 == 2:
            data = b''
        elif index % 5 == 4:
            data = b'z' * 125
        if kind == 'ping':
            pongs.append(data)
        return peer.frame(W.PING if kind == 'ping' else W.PONG, data)

    def cut(data, sizes):
        pieces = []
        position = 0
        for size in sizes:
            pieces.append(data[position:position + size])
            position += size
        pieces.append(data[position:])
        return pieces

    counter = 0
    for number, item in enumerate(plan['script']):
        if item['kind'] in ('ping', 'pong'):
            out += control(item['kind'], counter)
            counter += 1
            continue
        if item['kind'] == 'text':
            message = W.make_text(f's{number}', item['size'])
            data = message.encode()
        else:
            message = data = W.make_binary(f's{number}', item['size'])
        if len(data) > limit:
            continue
        pieces = cut(data, item['parts'])
        for index, piece in enumerate(pieces):
            op = W.CONT if index else W.TEXT if item['kind'] == 'text' else W.BINARY
            form = item['form'] if item['form'] is not None and not (item['form'] == 2 and len(piece) > 65535) else None
            out += peer.frame(op, reverse(piece), fin=index == len(pieces) - 1, form=form)
            if index < len(item['between']) and item['between'][index] is not None:
                out += control(item['between'][index], counter)
                counter += 1
        expected.append(message)
    codes = None
    if violation is not None:
        codes = CODES.get(violation, (1002,))
        inside = plan['inside'] and violation not in ('cont-start', 'big')
        if inside:
            out += peer.frame(W.TEXT, b'part', fin=False) if limit >= 4 else peer.frame(W.TEXT, b'', fin=False)
        op = W.CONT if inside else (W.TEXT if n % 2 else W.BINARY)
        left = limit - (4 if inside and limit >= 4 else 0)
        body = b'x' * min(left, n % 7)
        wrong_mask = None if peer.is_client else b'abcd'
        if violation == 'mask':
            out += W.encode_frame([op, W.PING, W.CLOSE][n % 3], b'' if n % 3 == 2 else body, mask=wrong_mask)
        elif violation == 'rsv':
            out += peer.frame([op, W.PING, W.CLOSE][n % 3], b'' if n % 3 == 2 else body, rsv=1 + n % 7)
        elif violation == 'opcode':
            out += peer.frame([3, 4, 5, 6, 7, 11, 12, 13, 14, 15][n % 10], body)
        elif violation == 'control-fragment':
            out += peer.frame([W.PING, W.PONG, W.CLOSE][n % 3], b'' if n % 3 == 2 else body, fin=False)
        elif violation == 'control-long':
            out += peer.frame([W.PING, W.PONG, W.CLOSE][n % 3], b'\x03\xe8' + b'x' * (124 + n % 4))
        elif violation == 'cont-start':
            out += peer.frame(W.CONT, body, fin=bool(n % 2))
        elif violation == 'new-inside':
            if not inside:
                out += peer.frame(W.BINARY, b'', fin=False)
            out += peer.frame([W.TEXT, W.BINARY][n % 2], b'')
        elif violation in ('utf8', 'utf8-part', 'utf8-cut'):
            bad = BAD_UTF8[n % len(BAD_UTF8)]
            if violation == 'utf8-cut':
                bad = b'\xe2\x82'
            if len(bad) > left:
                bad = b'\xff'
            if violation == 'utf8' and not inside:
                out += peer.frame(W.TEXT, reverse(bad))
            else:
                if not inside:
                    out += peer.frame(W.TEXT, b'', fin=False)
                pieces = cut(bad, [1] * (n % 3))
                for index, piece in enumerate(pieces):
                    out += peer.frame(W.CONT, reverse(piece), fin=index == len(pieces) - 1)
        elif violation == 'utf8-close':
            out += peer.frame(W.CLOSE, b'\x03\xe8' + BAD_UTF8[n % len(BAD_UTF8)])
        elif violation == 'close-code':
            out += peer.frame(W.CLOSE, BAD_CODES[n % len(BAD_CODES)].to_bytes(2, 'big'))
        elif violation == 'close-short':
            out += peer.frame(W.CLOSE, b'\x03')
        elif violation == 'big':
            if plan['max_size'] is None:
                out += peer.frame(W.BINARY, b'', form=8, length=limit + 1 + n)
            else:
                out += peer.frame(W.BINARY, b'x' * (limit + 1 + n))
        elif violation == 'big-parts':
            out += peer.frame(op if op == W.CONT else W.BINARY, b'x' * (left if limit < 100000 else 10), fin=False)
            if limit < 100000:
                out += peer.frame(W.CONT, b'x', fin=True)
            else:
                out += peer.frame(W.CONT, b'', form=8, length=limit - 9 + n)
        elif violation == 'huge':
            out += peer.frame(op, b'', form=8, length=[(1 << 63) - 1, 1 << 63, (1 << 64) - 1][n % 3])
        for _ in range(plan['more']):
            out += peer.frame(W.TEXT, b'')
    return bytes(out), expected, pongs, codes


async def one_side(w, loop):
    plan = w.plan
    sim = w.sim
    net = sim.net
    side = 'a' if plan['mode'] == 'client' else 'b'
    w.info = {side: new_info()}
    info = w.info[side]
    peers = []
    ready = []
    offered = 'permessage-deflate; client_max_window_bits, x-reverse; mode=1' if plan['extension'] else 'permessage-deflate'
    if plan['extension'] == 'two':
        offered += ', x-rotate; by=1; plain'

    def begin(peer, first=b''):
        data, *expected = script_bytes(w, peer, plan)
        w.expected = expected
        cuts = plan['cuts']
        if first and plan['with_response']:
            peer.play(first + data, cuts)
        else:
            if first:
                peer.end.raw_send(first)
            peer.play(data, cuts, 0.001)
        sim.at(peer.next_at, lambda: setattr(w, 'all_sent', True))

    w.all_sent = False
    if plan['mode'] == 'client':
        def on_open(peer, head):
            response, request = W.server_response(
                head, ['Sec-WebSocket-Extensions: x-reverse; mode=1' + ', x-rotate; by="1"; plain' * (plan['extension'] == 'two')] if plan['extension'] else [])
            begin(peer, response)

        def accept(end):
            peers.append(Peer_of(w, end, False, on_open))
        net.listeners[('127.0.0.1', 8080)] = accept
        keyword = {}
        if plan['max_size'] is not None:
            keyword['max_size'] = plan['max_size']
        if plan['extension']:
            keyword['available_extensions'] = extensions_of(plan)
        client = HTTPClient(loop)
        async with client.connect_web_socket('ws://127.0.0.1:8080/', **keyword) as ws:
            await talk(w, loop, ws, side, peers[0])
        client.close()
    else:
        finished = []

        async def handler(ws):
            try:
                await talk(w, loop, ws, side, peers[0])
            except BaseException as exception:
                finished.append(exception)
                raise
            else:
                finished.append(None)

        keyword = {}
        if plan['extension']:
            keyword['available_extensions'] = [Extension('x-other'), *extensions_of(plan)[::-1]]
        server = await open_server(w, loop, handler, **keyword)

        def on_open(peer, head):
            if not head.startswith(b'HTTP/1.1 101 '):
                raise Violation('handshake', f'{head!r}')
            peer.response = head
            begin(peer)

        def connected(end):
            peer = Peer_of(w, end, True, on_open)
            peers.append(peer)
            end.raw_send(W.client_request('127.0.0.1:8080', 'dGhlIHNhbXBsZSBub25jZQ==', ['Sec-WebSocket-Extensions: ' + offered]))
        net.raw_connect(('127.0.0.1', 8080), connected)
        if not await until(loop, lambda: finished, 400.0, 0.05):
            raise Violation('hangs', f'{plan}')
        if finished[0] is not None:
            raise finished[0]
        await server.close()


def Peer_of(w, end, is_client, on_open):
    plan = w.plan

    def answer(peer):
        value = peer.last_ping
        peer.last_ping = None
        if not peer.close_sent and not peer.end.closed:
            peer.send(W.PONG, value)

    def on_end(peer, kind):
        if kind == 'eof':
            if peer.is_client and not peer.close_sent:
                pass
            end.raw_close()

    def on_frame(peer, op, value):
        if op == W.PING and plan['pongs'] == 'last':
            if peer.last_ping is None:
                w.sim.at(w.sim.now + 0.015, lambda: answer(peer))
            peer.last_ping = value
        if op == W.CLOSE and not peer.is_client:
            # servers end the tcp connection
            w.sim.at(max(peer.next_at, w.sim.now), end.raw_fin)
    peer = W.Peer(w.sim, end, is_client, on_open, on_frame, on_end=on_end)
    peer.parser.transform = encoding(plan)[1]
    if plan['pongs'] == 'last':
        # it is enough to answer the last ping
        peer.auto_pong = False
        peer.last_ping = None
    return peer


async def talk(w, loop, ws, side, peer):
    plan = w.plan
    sim = w.sim
    info = w.info[side]
    tasks = await use(w, loop, ws, side, None)
    failures = []
    for task in tasks:
        try:
            await task
        except ConnectionClosed as exception:
            failures.append(exception)
    await until(loop, lambda: w.all_sent, 100.0)
    expected, pongs, codes = w.expected
    if failures and codes is None:
        raise Violation('send-failed', f'{failures[0]!r} {plan}')
    await until(loop, lambda: len(info['got']) >= len(expected), 3.0)
    ended_at = None
    if codes is None:
        await sleep(0.1, loop)
        if info['end']:
            raise Violation('closed-early', f"{info['end'][0]!r} {plan}")
        if plan['close'] == 'client':
            await ws.close(plan['code'], plan['reason'])
        else:
            peer.send_close(plan['code'], plan['reason'])
    start = sim.now
    if not await until(loop, lambda: info['end'], 40.0):
        raise Violation('no-end', f"the websocket does not end after {plan['violation']} {plan}")
    await info['reader']
    if info['got'] != expected or [type(m) for m in info['got']] != [type(m) for m in expected]:
        raise Violation('messages', f"{shape(expected)} -> {shape(info['got'])} {info['end']}")
    exception = info['end'][0]
    if type(exception) is not ConnectionClosed:
        raise Violation('end', repr(exception))
    if not await until(loop, lambda: peer.eof or peer.reset, 40.0):
        raise Violation('tcp-open', f'the connection is not closed {plan}')
    if peer.bad is not None:
        raise Violation('bad-frame', f'{peer.bad} {plan}')
    if codes is None:
        if exception.code != plan['code'] or ws.close_code != plan['code'] or ws.close_reason != plan['reason']:
            raise Violation('close-code', f"{exception!r} {ws.close_code} {ws.close_reason!r} {plan['code']} {plan['reason']!r}")
        if peer.parser.closed != (plan['code'], plan['reason']):
            raise Violation('close-frame', f'{peer.parser.closed} {plan}')
    else:
        w.sim.fault('violation_' + plan['violation'])
        if peer.parser.closed is None or peer.parser.closed[0] not in codes:
            raise Violation('violation-code', f"{plan['violation']} answered with {peer.parser.closed} {plan}")
        if exception.code not in codes:
            raise Violation('violation-code', f"{plan['violation']} raised {exception!r} {plan}")
    # what the real side sent
    got = peer.messages
    sent = info['sent']
    if not interleaving(got, sent, codes is None):
        raise Violation('sent-messages', f'{[shape([m for m, _ in s]) for s in sent]} -> {shape(got)} {plan}')
    received = [value for op, value in peer.frames if op == W.PONG]
    unsolicited = sum(1 for ops in plan[side] for op in ops if op['kind'] == 'pong')
    if not unsolicited:
        if sum(op['size'] for ops in plan[side] for op in ops) > 50000:
            # while writing is paused only the last ping is answered
            rest = iter(pongs)
            ok = all(pong in rest for pong in received)
        else:
            ok = received == pongs[:len(received)]
        if codes is None and plan['close'] == 'client':
            ok = ok and (received == pongs or (sum(op['size'] for ops in plan[side] for op in ops) > 50000 and received[-1:] == pongs[-1:]))
        if not ok:
            raise Violation('pongs', f'{pongs} -> {received}')
    try:
        await ws.send('late')
    except ConnectionClosed:
        pass
    else:
        raise Violation('send-after-close', '')


# -- handshakes

async def hs_server(w, loop):
    plan = w.plan
    sim = w.sim
    variant = plan['variant']
    opened = []
    bodies = []

    async def handler(ws):
        opened.append(ws)
        try:
            message = await ws.receive()
            await ws.send(message)
            await ws.receive()
        except ConnectionClosed:
            pass

    keyword = {}
    if variant.startswith('origin'):
        keyword['origin'] = 'http://good.example'
    if variant == 'protocols':
        keyword['available_subprotocols'] = ['chat', 'other']
    if variant == 'extension':
        keyword['available_extensions'] = [Extension()]
    if variant == 'early':
        keyword['request_processor'] = lambda path, headers: ('nope', 404)
    elif variant == 'early-bytes':
        keyword['request_processor'] = lambda path, headers: (b'nope\n', 401)
    elif variant == 'early-coroutine':
        async def processor(path, headers):
            await sleep(0.001, loop)
            return 'nope', 403
        keyword['request_processor'] = processor
    server = await open_server(w, loop, handler, **keyword)
    key = 'dGhlIHNhbXBsZSBub25jZQ=='
    headers = [['Host', '127.0.0.1:8080'], ['Upgrade', 'websocket'], ['Connection', 'Upgrade'], ['Sec-WebSocket-Key', key], ['Sec-WebSocket-Version', '13']]

    def change(name, *values):
        headers[:] = [h for h in headers if h[0] != name] + [[name, v] for v in values]

    if variant == 'case':
        headers[:] = [[n.lower(), v] for n, v in headers]
        headers[1][1] = 'WebSocket'
        headers[2][1] = 'upgrade'
    elif variant == 'keep-alive':
        change('Connection', 'keep-alive, Upgrade')
    elif variant == 'two-connections':
        change('Connection', 'keep-alive', 'Upgrade')
    elif variant == 'no-connection':
        change('Connection')
    elif variant == 'wrong-connection':
        change('Connection', 'keep-alive')
    elif variant == 'no-upgrade':
        change('Upgrade')
    elif variant == 'wrong-upgrade':
        change('Upgrade', 'h2c')
    elif variant == 'no-key':
        change('Sec-WebSocket-Key')
    elif variant == 'bad-key':
        change('Sec-WebSocket-Key', '!' + key[1:])
    elif variant == 'short-key':
        change('Sec-WebSocket-Key', 'AAAA')
    elif variant == 'two-keys':
        change('Sec-WebSocket-Key', key, ('B' if key[0] != 'B' else 'C') + key[1:])
    elif variant == 'version':
        change('Sec-WebSocket-Version', '8')
    elif variant == 'no-version':
        change('Sec-WebSocket-Version')
    elif variant == 'origin-ok':
        change('Origin', 'http://good.example')
    elif variant == 'origin-bad':
        change('Origin', 'http://bad.example')
    elif variant == 'origin-part':
        change('Origin', 'http://good')
    elif variant == 'protocols':
        change('Sec-WebSocket-Protocol', 'none, other, chat')
    elif variant == 'foreign-extension':
        change('Sec-WebSocket-Extensions', 'permessage-deflate; client_max_window_bits')
    elif variant == 'extension':
        change('Sec-WebSocket-Extensions', 'permessage-deflate, x-reverse; mode=1')
    heads = []
    peers = []

    def on_open(peer, head):
        heads.append(head)
        if head.startswith(b'HTTP/1.1 101 '):
            peer.send(W.TEXT, b'hello' if variant != 'extension' else b'olleh')
            return True
        peer.auto_close = False
        bodies.append(bytes(peer.head[len(head) + 4:]))
        peer.on = None
        peer.end.callback = rest
        return False

    def rest(end, kind, data):
        if kind == 'data':
            bodies.append(data)
        elif peers[0].ended_at is None:
            peers[0].ended_at = sim.now
            end.raw_close()

    def connected(end):
        peer = W.Peer(sim, end, True, on_open, on_end=lambda peer, kind: end.raw_close())
        peers.append(peer)
        data = 'GET / HTTP/1.1\r\n' + ''.join(f'{n}: {v}\r\n' for n, v in headers) + '\r\n'
        peer.play(data.encode(), plan['cuts'])
    sim.net.raw_connect(('127.0.0.1', 8080), connected)
    if not await until(loop, lambda: heads, 20.0):
        raise Violation('no-answer', f'{plan}')
    expected = HS_SERVER[variant]
    status = int(heads[0].split(b' ')[1])
    response = [line.partition(b': ')[::2] for line in heads[0].split(b'\r\n')[1:]]
    response = [(n.decode().lower(), v.decode()) for n, v in response]
    value = lambda name: [v for n, v in response if n == name]
    if expected == 101:
        if status != 101:
            raise Violation('handshake-refused', f'{variant} {heads[0]!r} {bodies}')
        if value('sec-websocket-accept') != [W.accept_key(key)] or [v.lower() for v in value('upgrade')] != ['websocket'] or \
                [v.lower() for v in value('connection')] != ['upgrade']:
            raise Violation('handshake-response', f'{heads[0]!r}')
        if variant == 'protocols':
            if value('sec-websocket-protocol')[0] not in ('chat', 'other'):
                raise Violation('subprotocol', f'{heads[0]!r}')
        if value('sec-websocket-extensions') != (['x-reverse; mode=1'] if variant == 'extension' else []):
            raise Violation('extensions', f'{heads[0]!r}')
        if not await until(loop, lambda: peers[0].messages, 5.0):
            raise Violation('no-echo', f'{plan}')
        if peers[0].messages != ['hello' if variant != 'extension' else 'olleh']:
            raise Violation('echo', f'{peers[0].messages}')
        peers[0].send_close(1000, '')
    else:
        if status == 101 or opened:
            raise Violation('handshake-accepted', f'{variant} {heads[0]!r}')
        if expected and status != expected:
            raise Violation('early-status', f'{variant} {heads[0]!r}')
        if not expected and not 400 <= status < 500:
            raise Violation('handshake-status', f'{variant} {heads[0]!r}')
    if not await until(loop, lambda: peers[0].ended_at is not None, 30.0):
        raise Violation('tcp-open', f'{plan}')
    if expected not in (0, 101):
        if b''.join(bodies).strip() != b'nope':
            raise Violation('early-body', f'{bodies}')
    await server.close()


async def hs_client(w, loop):
    plan = w.plan
    sim = w.sim
    variant = plan['variant']
    peers = []

    def on_open(peer, head):
        request = H.parse_head(head)
        for name, value in (('upgrade', 'websocket'), ('connection', 'upgrade'), ('sec-websocket-version', '13')):
            if [v.lower() for v in H.get(request.headers, name)] != [value]:
                raise Violation('request', f'{head!r}')
        key, = H.get(request.headers, 'sec-websocket-key')
        if H.get(request.headers, 'host') != ['127.0.0.1:8080']:
            raise Violation('request', f'{head!r}')
        headers = [['Upgrade', 'websocket'], ['Connection', 'Upgrade'], ['Sec-WebSocket-Accept', W.accept_key(key)]]
        status = '101 Switching Protocols'
        version = '1.1'
        before = ''

        def change(name, *values):
            headers[:] = [h for h in headers if h[0] != name] + [[name, v] for v in values]
        if variant == 'case':
            headers[:] = [[n.upper(), v] for n, v in headers]
            headers[1][1] = 'upgrade'
        elif variant == 'upgrade-case':
            change('Upgrade', 'WebSocket')
        elif variant == 'keep-alive':
            change('Connection', 'keep-alive, Upgrade')
        elif variant == 'two-connections':
            change('Connection', 'Keep-Alive', 'Upgrade')
        elif variant == 'interim':
            before = 'HTTP/1.1 100 Continue\r\n\r\n'
        elif variant == 'protocol':
            change('Sec-WebSocket-Protocol', 'other')
        elif variant == 'foreign-protocol' or variant == 'unasked-protocol':
            change('Sec-WebSocket-Protocol', 'foreign')
        elif variant == 'two-protocols':
            change('Sec-WebSocket-Protocol', 'chat', 'other')
        elif variant == 'extension':
            change('Sec-WebSocket-Extensions', 'x-reverse; mode=1')
        elif variant == 'foreign-extension' or variant == 'unasked-extension':
            change('Sec-WebSocket-Extensions', 'permessage-deflate')
        elif variant.startswith('status'):
            status = f'{variant[7:]} Whatever'
            headers.append(['Content-Length', '0'])
            if plan['n' if 'n' in plan else 'code'] % 2:
                headers[:] = [['Content-Length', '2']]
        elif variant == 'bad-accept':
            change('Sec-WebSocket-Accept', W.accept_key(key + 'x'))
        elif variant == 'no-accept':
            change('Sec-WebSocket-Accept')
        elif variant == 'case-accept':
            change('Sec-WebSocket-Accept', W.accept_key(key).swapcase())
        elif variant == 'two-accepts':
            change('Sec-WebSocket-Accept', W.accept_key(key), W.accept_key('A' + key))
        elif variant == 'no-connection':
            change('Connection')
        elif variant == 'wrong-connection':
            change('Connection', 'keep-alive')
        elif variant == 'no-upgrade':
            change('Upgrade')
        elif variant == 'wrong-upgrade':
            change('Upgrade', 'h2c')
        elif variant == 'http10':
            version = '1.0'
        data = f'{before}HTTP/{version} {status}\r\n' + ''.join(f'{n}: {v}\r\n' for n, v in headers) + '\r\n'
        if ['Content-Length', '2'] in headers:
            data += 'no'
        data = data.encode()
        if HS_CLIENT[variant] is True:
            text = b'hello' if variant != 'extension' else b'olleh'
            data += peer.frame(W.TEXT, text)
        if variant == 'half':
            data = data[:len(data) // 2]
        if variant not in ('fin', 'rst'):
            peer.play(data, plan['cuts'])
        if variant in ('fin', 'rst', 'half'):
            sim.at(max(sim.now, peer.next_at) + 0.001, peer.end.raw_rst if variant == 'rst' else peer.end.raw_close)
        return True

    def accept(end):
        def on_frame(peer, op, value):
            if op == W.CLOSE:
                end.raw_fin()
        peers.append(W.Peer(sim, end, False, on_open, on_frame, on_end=lambda peer, kind: end.raw_close()))
    sim.net.listeners[('127.0.0.1', 8080)] = accept
    client = HTTPClient(loop)
    keyword = {}
    if variant in ('protocol', 'foreign-protocol', 'two-protocols'):
        keyword['available_subprotocols'] = ['chat', 'other']
    if variant in ('extension', 'foreign-extension'):
        keyword['available_extensions'] = [Extension()]
    good = HS_CLIENT[variant]
    try:
        async with client.connect_web_socket('ws://127.0.0.1:8080/', **keyword) as ws:
            if not good:
                raise Violation('handshake-accepted', variant)
            if variant == 'protocol' and ws.subprotocol != 'other':
                raise Violation('subprotocol', repr(ws.subprotocol))
            message = await ws.receive()
            if message != 'hello':
                raise Violation('first-message', repr(message))
            await ws.send('x')
            await ws.ping()
    except (InvalidHandshake, ConnectionError, PayloadError) as exception:
        if good:
            raise Violation('handshake-refused', f'{variant} {exception!r}')
        sim.fault('handshake_refused')
    if good and peers[0].messages != ['x']:
        raise Violation('messages', f'{peers[0].messages}')
    if not good and not variant.startswith('status') and variant != 'http10':
        # what is not usable is not kept
        await until(loop, lambda: peers[0].ended_at is not None, 1.0)
        if not (peers[0].ended_at is not None or peers[0].end.closed):
            raise Violation('refused-open', f'{variant}')
    client.close()


async def main(loop, w):
    mode = w.plan['mode']
    if mode == 'both':
        await both(w, loop)
    elif mode in ('client', 'server'):
        await one_side(w, loop)
    elif mode == 'hs-server':
        await hs_server(w, loop)
    else:
        await hs_client(w, loop)
    await sleep(0.5, loop)
    left = [obj for obj in w.sim.net.fds.values() if isinstance(getattr(obj, 'peer_address', None), tuple) and not obj.callback and not obj.local]
    if left:
        await sleep(15.0, loop)
        left = [obj for obj in w.sim.net.fds.values() if isinstance(getattr(obj, 'peer_address', None), tuple) and not obj.callback and not obj.local]
    if left:
        raise Violation('socket-left', f'{left[0].peer_address} {w.plan}')


def run(plan, sim):
    w = World()
    w.plan = plan
    w.sim = sim
    w.second = None
    run_async(sim, main, w)
    if w.second is not None:
        stop_loop(sim, w.second)
    no_errors(sim)
