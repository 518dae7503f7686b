"""HTTP connection pool: every response belongs to its own request."""
from ..world import *
from .. import http as H
from scarletio.http_client import HTTPClient
from scarletio.web_common import PayloadError

BUDGET = {'quick': 9000, 'thorough': 250000}
RULE = ('One evaluation is a history of one to four concurrent tasks, each making several requests of one client to one to three raw '
        'servers which answer with generated responses (all framings, keep alive headers, early answers, cut offs, resets, silence) and '
        'may close the idle connection, or send unasked data on it; bodies are read whole, in part, not at all, responses closed, released '
        'or dropped, requests cancelled, and the client is closed at the end or amid.')
ASSUMPTIONS = ['The servers are reference peers of the simulation, the network and the clock are simulated.',
               'A response the server sends unasked at the very instant of a request cannot be told from the response of that request.']
STUBS = ['servers']
MARGIN = 0.03


def gen(rng):
    servers = [['10.0.0.1', 8080], ['10.0.0.1', 8081], ['10.0.0.2', 8080]][:rng.choice([1, 1, 2, 3])]
    clean = rng.random() < 0.25
    tasks = []
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        ops = []
        for _ in range(rng.choice([1, 2, 3, 3, 5])):
            framing = rng.choice(['length', 'length', 'chunked', 'chunked', 'close'])
            version = rng.choice(['1.1'] * 5 + ['1.0']) if framing != 'chunked' else '1.1'
            op = {
                'server': rng.randrange(len(servers)),
                'gap': rng.choice([None, None, 0.0, 0.001, 0.02, 0.3, 1.0, 5.0]),
                'body': rng.choice([None] * 4 + ['bytes', 'stream', 'stream']),
                'body_size': rng.choice([1, 20, 20, 3000, 3000, 90000]), 'body_chunks': rng.randint(1, 4), 'body_gap': rng.choice([None, 0.0, 0.004, 0.05]),
                'use': rng.choice(['read'] * 4 + ['chunks', 'chunks', 'early', 'early', 'none', 'close', 'release', 'drop', 'head']),
                'use_delay': rng.choice([None, None, 0.0, 0.002, 0.03]),
                'hold': rng.choice([None, None, None, 0.0, 0.01, 0.2]),
                'cancel': None, 'burn': rng.choice([None] * 12 + [0.8, 1.5, 3.0]),
                'response': {
                    'framing': framing, 'version': version, 'status': rng.choice([200, 200, 200, 204, 404]),
                    'size': rng.choice([0, 1, 10, 300, 300, 3000]) if rng.random() < 0.95 else 150000, 'seed': rng.randint(0, 10 ** 6),
                    'coding': rng.choice([None, None, None, 'gzip']), 'chunks': rng.choice([[100], [20, 7], [5000]]),
                    'connection': rng.choice([None, None, None, 'keep-alive', 'Keep-Alive', 'close', 'Close', 'x-other']),
                    'keep_alive': rng.choice([None, None, None, 'timeout=1', 'timeout=2, max=2', 'max=1', 'timeout=4, max=100', 'foo=bar'])},
                'start': rng.choice([0.0, 0.0, 0.002, 0.05, 0.3]), 'cuts': [], 'early': False, 'fault': None, 'at': rng.random(),
                'then': None, 'then_gap': rng.choice([0.0, 0.001, 0.02, 0.3, 0.9, 3.0])}
            size = op['response']['size']
            if size > 10000:
                op['response']['chunks'] = [20000]
            else:
                op['cuts'] = H.gen_cuts(rng, 150 + size) if rng.random() < 0.6 else []
            if op['use'] == 'head':
                op['body'] = None
            if not clean:
                op['early'] = op['body'] is not None and rng.random() < 0.3
                op['fault'] = rng.choice([None] * 8 + ['cut', 'rst', 'never'])
                op['then'] = rng.choice([None] * 5 + ['close', 'close', 'rst', 'extra', 'poison', 'poison'])
                op['cancel'] = rng.choice([None] * 6 + [0.0, 0.001, 0.005, 0.02, 0.1])
            if op['fault'] == 'never' and op['cancel'] is None:
                op['cancel'] = rng.choice([0.01, 0.1, 0.5])
            ops.append(op)
        tasks.append({'gap': rng.choice([None, 0.0, 0.001, 0.02, 1.0]), 'ops': ops})
    return {'params': swarm(rng, delay_min=[0.0, 0.001], delay_max=[0.001, 0.01], short=[0.0, 0.3], segment=[0.0, 0.5], eagain=[0.0, 0.2],
                            late=[None, 0.2], late_max=[0.002], cap=[65536, 65536, 6000], tick=[1e-7]),
            'servers': servers, 'tasks': tasks, 'close_at': rng.choice([None] * 4 + [0.005, 0.05, 0.5]) if not clean else None,
            'big': rng.random() < 0.3}


def valid(plan):
    return bool(plan['servers']) and bool(plan['tasks']) and all(
        t['ops'] and all(o['server'] < len(plan['servers']) and o['response']['chunks'] and all(o['response']['chunks'])
                         and o['response']['status'] >= 200 and o['body_chunks'] > 0 and o['body_size'] > 0
                         and (o['fault'] != 'never' or o['cancel'] is not None) for o in t['ops']) for t in plan['tasks'])


class World:
    pass


def body_of(key, op):
    return (f'<{key}>'.encode() * (op['body_size'] // 4 + 1))[:op['body_size']]


async def stream_of(w, loop, key, op):
    data = body_of(key, op)
    count = op['body_chunks']
    size = len(data) // count + 1
    for index in range(count):
        if index and op['body_gap'] is not None:
            await sleep(op['body_gap'], loop)
        yield data[index * size:(index + 1) * size]


def wire_of(key, op, method):
    spec = dict(op['response'])
    headers = [['X-Id', key]]
    if spec['connection'] is not None:
        headers.append(['Connection', spec['connection']])
    if spec['keep_alive'] is not None:
        headers.append(['Keep-Alive', spec['keep_alive']])
    spec['headers'] = headers
    body = (f'[{key}]'.encode() * (spec['size'] // 4 + 1))[:spec['size']]
    return H.Wire(spec, method, body)


def stays(op, wire):
    """(keep alive, timeout, maximum) as the response says"""
    spec = op['response']
    connection = spec['connection']
    if connection is not None and connection.lower() == 'close':
        alive = False
    elif spec['version'] == '1.0':
        alive = connection is not None and connection.lower() == 'keep-alive'
    else:
        alive = True
    timeout = 15.0
    maximum = None
    for part in (spec['keep_alive'] or '').split(','):
        name, _, value = part.strip().partition('=')
        if name == 'timeout':
            timeout = float(value)
        elif name == 'max':
            maximum = int(value)
    return alive and not wire.until_close, timeout, maximum


async def one_request(w, loop, key, op, info):
    server = w.plan['servers'][op['server']]
    url = f'http://{server[0]}:{server[1]}/{key}'
    keyword = {}
    if op['body'] == 'bytes':
        keyword['data'] = body_of(key, op)
    elif op['body'] == 'stream':
        keyword['data'] = stream_of(w, loop, key, op)
    method = info['method']
    use = op['use']

    async def go(response):
        info['response'] = True
        name = response.headers.get('X-Id')
        if name == 'poison' and excused(w, op, dict(info, cancelled=False), w.sim.now, True):
            w.taint(key)
            raise ConnectionError('unasked response in time')
        if name in w.tainted:
            w.taint(key)
            raise ConnectionError('shifted by an unasked response')
        if name != key:
            raise Violation('foreign-response', f'{key} got the response {response.status} {response.headers!r} {response.raw_message!r} {op}')
        if response.status != op['response']['status']:
            raise Violation('status', f'{response.status} {op}')
        if op['use_delay'] is not None:
            await sleep(op['use_delay'], loop)
        wire = wire_of(key, op, method)
        want = wire.user_body or b''
        if use == 'read' or use == 'head':
            body = await response.read()
            if (body or b'') != want:
                raise Violation('body', f'{key} got {body!r:.300} instead of {want!r:.300} {op}')
            info['complete'] = True
        elif use in ('chunks', 'early'):
            got = bytearray()
            if response.payload_stream is not None:
                async for chunk in response.payload_stream:
                    got += chunk
                    if not want.startswith(bytes(got)):
                        raise Violation('body', f'{key} got {bytes(got)!r:.300} instead of {want!r:.300} {op}')
                    if use == 'early' and got:
                        break
                    if op['use_delay'] is not None:
                        await sleep(0.0, loop)
            if use == 'chunks':
                if bytes(got) != want:
                    raise Violation('body', f'{key} got {bytes(got)!r:.300} instead of {want!r:.300} {op}')
                info['complete'] = True
        elif use == 'close':
            response.close()
        elif use == 'release':
            response.release()
        if op['hold'] is not None:
            await sleep(op['hold'], loop)

    if use == 'drop':
        response = await w.client.request(method, url, **keyword)
        await go(response)
        del response
    else:
        async with w.client.request(method, url, **keyword) as response:
            await go(response)


def expiry(conn):
    """When the connection must not be used anymore (None if in use)."""
    if conn.idle is None:
        return None
    info, end, timeout = conn.idle
    if 'end' not in info:
        return None
    return max(end + conn.server.delay_max, info['end']) + timeout


def known(w, now):
    """What happened before this time must have been noticed by then."""
    value = now - w.delay_max - MARGIN
    for begin, end in reversed(w.burns):
        if end >= value:
            value = min(value, begin - w.delay_max - MARGIN)
    return value


def excused(w, op, info, now, window=False):
    """Whether the server (or the user) gave a reason to fail."""
    if not window and (op['fault'] is not None or info['cancelled'] or w.closed_at is not None):
        return True
    for when, server in w.troubles:
        if server == op['server'] and known(w, info['start']) <= when <= now:
            return True
    return False


async def one_task(w, loop, number):
    task = w.plan['tasks'][number]
    if task['gap'] is not None:
        await sleep(task['gap'], loop)
    for index, op in enumerate(task['ops']):
        if op['gap'] is not None:
            await sleep(op['gap'], loop)
        if op['burn'] is not None:
            # other work of the thread
            w.burns.append([w.sim.now, w.sim.now + op['burn']])
            burn(w.sim, op['burn'])
        key = f'{number}.{index}'
        info = w.infos[key]
        info['start'] = w.sim.now
        inner = Task(loop, one_request(w, loop, key, op, info))
        handle = None
        if op['cancel'] is not None:
            def cancel(inner=inner, info=info):
                info['cancelled'] = True
                inner.cancel()
            handle = loop.call_after(op['cancel'], cancel)
        done = Future(loop)
        inner.add_done_callback(lambda t, done=done: done.set_result_if_pending(None))
        watch = loop.call_after(90.0, done.set_result_if_pending, None)
        await done
        watch.cancel()
        if inner.is_pending():
            raise Violation('hang', f'{key} {op}')
        if handle is not None:
            handle.cancel()
        outcome = outcome_of(inner)
        inner = None
        info['end'] = w.sim.now
        w.sim.log('outcome', key, outcome[0], type(outcome[1]).__name__ if len(outcome) > 1 and outcome[1] is not None else '')
        if outcome[0] == 'return':
            if info.get('complete') and op['fault'] is not None and info['faulted']:
                raise Violation('accepted', f'{key} read completely, but was cut off; {op}')
        elif outcome[0] == 'cancelled':
            if not info['cancelled'] and w.closed_at is None:
                raise Violation('cancelled', f'{key} {outcome} {op}')
        else:
            exception = outcome[1]
            if isinstance(exception, Violation):
                raise exception
            if w.closed_at is not None and info['start'] >= w.closed_at:
                continue
            if not isinstance(exception, (OSError, EOFError, PayloadError)):
                raise Violation('error-kind', f'{key} {exception!r} {op}\n' + ''.join(traceback.format_exception(exception))[-1500:])
            if not excused(w, op, info, w.sim.now):
                raise Violation('error', f'{key} {exception!r} {exception.__cause__!r} {op} {info}\n'
                                + ''.join(traceback.format_exception(exception))[-2500:])


async def program(loop, w):
    plan = w.plan
    w.client = client = HTTPClient(loop)
    closed = Future(loop)

    def close():
        w.closed_at = w.sim.now
        w.sim.log('close')
        client.close()
        closed.set_result_if_pending(None)

    tasks = [Task(loop, one_task(w, loop, number)) for number in range(len(plan['tasks']))]
    handle = None
    if plan['close_at'] is not None:
        handle = loop.call_after(plan['close_at'], close)
    errors = []
    for task in tasks:
        try:
            await task
        except BaseException as exception:
            errors.append(exception)
    for exception in errors:
        if isinstance(exception, Violation):
            raise exception
    if errors:
        raise errors[0]
    if handle is not None:
        handle.cancel()
    tasks = None
    gc.collect()
    if w.closed_at is None:
        # idle connections expire
        for _ in range(40):
            await sleep(0.5, loop)
            now = w.sim.now
            for server in w.servers:
                for conn in server.conns:
                    until = expiry(conn)
                    if until is not None and conn.is_open() and not conn.end.closed and now > until + 0.5 + 2 * w.delay_max and not conn.end.shut_wr:
                        raise Violation('idle-open', f'the connection {conn.index} of {server.port} expired at {until} and is open at {now}')
        await sleep(1.0, loop)
        close()
        await sleep(0.5, loop)
    else:
        await sleep(1.0, loop)
    for server in w.servers:
        for conn in server.conns:
            if conn.is_open() and not conn.end.closed:
                raise Violation('open', f'the connection {conn.index} of {server.port} is open after the client is closed')
    open_fds = [obj for obj in w.sim.net.fds.values() if getattr(obj, 'peer', None) is not None and not obj.local and not obj.callback]
    if open_fds:
        raise Violation('socket-left', repr([e.name for e in open_fds]))


def run(plan, sim):
    w = World()
    w.plan = plan
    w.sim = sim
    w.closed_at = None
    w.troubles = []
    w.tainted = set()
    w.burns = []
    w.smooth = not plan['params'].get('short') and not plan['params'].get('eagain') and plan['params'].get('cap') != 6000
    w.delay_max = plan['params'].get('delay_max', 0.02)
    w.infos = {}
    for number, task in enumerate(plan['tasks']):
        for index, op in enumerate(task['ops']):
            method = 'HEAD' if op['use'] == 'head' else 'GET' if op['body'] is None else 'POST'
            w.infos[f'{number}.{index}'] = {'op': op, 'method': method, 'cancelled': False, 'faulted': False, 'seen': 0, 'answered': False}
    w.servers = []

    def check_head(conn, request, number):
        key = request.target[1:]
        info = w.infos.get(key)
        if info is None:
            raise Violation('request', f'unknown target {request.target}')
        op = info['op']
        if number == op['server'] and request.method == info['method']:
            pass
        else:
            raise Violation('request', f'{request.method} {request.target} at server {number}')
        return key, info, op

    def begin(conn, request, number):
        """Checks that the connection may be used for this request, and answers."""
        key, info, op = check_head(conn, request, number)
        info['seen'] += 1
        if info['seen'] > 1:
            raise Violation('request', f'{key} was sent twice')
        last = conn.last
        now = sim.now
        if conn.tainted or key in w.tainted:
            conn.keys.append(key)
            w.taint(key)
            return
        if last is not None:
            last_op, last_info, end, alive, maximum = last
            text = f'{key} ({info["start"]}) on the connection of {last_op}; count {len(conn.keys)}'
            if not alive:
                raise Violation('reused', f'not kept alive: {text}')
            if now < end:
                raise Violation('reused', f'before the response was complete: {text}')
            if maximum is not None and len(conn.keys) >= maximum:
                raise Violation('reused', f'more often than {maximum}: {text}')
            if conn.trouble_at is not None and conn.trouble_at < known(w, info['start']):
                raise Violation('reused', f'after {last_op["then"]} at {conn.trouble_at}, request started {info["start"]}: {text}')
            until = expiry(conn)
            if until is not None and info['start'] > until + 2 * w.delay_max + MARGIN:
                raise Violation('reused', f'expired at {until}, used at {now}: {text}')
        if w.closed_at is not None and op['body'] is None and not w.burns and w.smooth and now > w.closed_at + w.delay_max + 0.003:
            raise Violation('after-close', f'{key} was sent after the client was closed at {w.closed_at}')
        conn.keys.append(key)
        conn.idle = None
        sim.log('reuse' if last is not None else 'new', len(conn.keys))
        wire = wire_of(key, op, request.method)
        data = wire.data
        alive, timeout, maximum = stays(op, wire)
        info['answered'] = True
        conn.last = (op, info, 1e9, False, None)
        if op['fault'] == 'never':
            info['faulted'] = True
            return
        if op['fault'] in ('cut', 'rst'):
            at = int(len(data) * op['at'])
            info['faulted'] = at < len(data) and not (wire.until_close and at >= len(wire.head)) or (op['fault'] == 'rst' and wire.until_close)
            if wire.until_close and not wire.payload and at == len(data):
                info['faulted'] = op['fault'] == 'rst'
            if wire.until_close and len(wire.head) <= at < len(data):
                # looks complete, but has not the expected body
                at = max(0, len(wire.head) - 5)
                info['faulted'] = True
            conn.play(data[:at], op['cuts'], op['start'])
            when = conn.finish('fin' if op['fault'] == 'cut' else 'rst', 0.0)
            trouble(conn, number, when)
            return
        end = conn.play(data, op['cuts'], op['start'])
        conn.last = (op, info, end, alive, maximum)
        if wire.until_close:
            conn.finish('fin', 0.0)
            trouble(conn, number, end)
            return
        if alive and op['use'] != 'drop':
            conn.idle = (info, end, timeout)
        then = op['then']
        if then is not None:
            def do():
                if not conn.is_open() or len(conn.keys) and conn.keys[-1] != key:
                    return
                trouble(conn, number, sim.now)
                sim.log('then', then)
                if then == 'close':
                    conn.end.raw_fin()
                elif then == 'rst':
                    conn.end.raw_rst()
                elif then == 'extra':
                    conn.end.raw_send(b'x')
                else:
                    conn.end.raw_send(b'HTTP/1.1 200 OK\r\nX-Id: poison\r\nContent-Length: 3\r\n\r\nbad')
            sim.at(end + op['then_gap'], do)

    def taint(key):
        """The responses of a connection are shifted by an unasked one."""
        w.tainted.add(key)
        for number, server in enumerate(w.servers):
            for conn in server.conns:
                if key in conn.keys:
                    conn.tainted = True
                    conn.idle = None
                    conn.end.raw_rst()
                    trouble(conn, number, sim.now)

    w.taint = taint

    def trouble(conn, number, when):
        w.troubles.append((when, number))
        if conn.trouble_at is None:
            conn.trouble_at = when

    for number, (ip, port) in enumerate(plan['servers']):
        def handler(conn, request, number=number):
            key, info, op = check_head(conn, request, number)
            body = request.body
            want = b'' if op['body'] is None else body_of(key, op)
            if body != want:
                raise Violation('request-body', f'{key}: {body!r:.200} ({len(body)}) instead of {want!r:.200} ({len(want)}); {op}')
            if not (op['early'] and conn.keys and conn.keys[-1] == key):
                begin(conn, request, number)

        def on_head(conn, request, number=number):
            key, info, op = check_head(conn, request, number)
            if op['early']:
                begin(conn, request, number)

        server = H.Server(sim, ip, port, handler, on_head=on_head)

        def on_accept(conn):
            conn.keys = []
            conn.tainted = False
            conn.last = None
            conn.trouble_at = None
            conn.idle = None

        server.on_accept = on_accept
        server.delay_max = w.delay_max
        w.servers.append(server)
    run_async(sim, program, w)
    for server in w.servers:
        if server.bad:
            raise Violation('bad-request', repr(server.bad[0][1]))
