"""HTTP requests end: timeouts, cancellations and lost connections release everything."""
from ..world import *
from .. import http as H
from scarletio.http_client import HTTPClient, Proxy
from scarletio.web_common import PayloadError, ProxyError

BUDGET = {'quick': 6000, 'thorough': 250000}
RULE = ('One evaluation is one to four concurrent requests of one client, each to its own raw server with one behaviour (refused or '
        'unanswered connects, silent, slow, endless or half answers, a server which does not read, redirect loops, resets and closes at any '
        'time, failing proxies, slow or failing host resolution), a timeout, a cancellation time and a body which may hang or fail.')
ASSUMPTIONS = ['The servers are reference peers of the simulation, the network, the resolver and the clock are simulated.',
               'The timeout of a request covers it until its response is returned; reading the body is up to the user.']
STUBS = ['servers', 'host resolution']
KINDS = ['ok', 'ok', 'ok', 'refuse', 'blackhole', 'silent', 'slow-head', 'half-head', 'no-read', 'redirect', 'fin', 'rst', 'body-stall', 'body-cut',
         'endless-head', 'endless-interim', 'late-read', 'garbage', 'dns-slow', 'dns-fail', 'dns-slow', 'proxy-ok', 'proxy-silent', 'proxy-refused',
         'proxy-cut', 'proxy-slow']


def gen(rng):
    requests = []
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        requests.append({
            'gap': rng.choice([None, 0.0, 0.01, 0.3]), 'kind': rng.choice(KINDS),
            'timeout': rng.choice([0.05, 0.2, 0.2, 0.5, 1.0, None]), 'cancel': rng.choice([None] * 3 + [0.0, 0.001, 0.01, 0.05, 0.2, 0.5]),
            'again': rng.choice([None] * 6 + [0.0, 0.01]),
            'body': rng.choice([None, None, None, 'bytes', 'stream', 'stream', 'hang', 'raise']), 'size': rng.choice([1, 100, 5000, 200000, 400000]),
            'chunks': rng.randint(1, 4), 'body_gap': rng.choice([None, 0.0, 0.01, 0.1]),
            'use': rng.choice(['read', 'read', 'none', 'chunks', 'early', 'close', 'close-other']),
            'start': rng.choice([0.0, 0.002, 0.05, 0.3]), 'when': rng.choice([0.0, 0.001, 0.01, 0.1, 0.4]), 'at': rng.random(),
            'cuts': H.gen_cuts(rng, 400), 'delay': rng.choice([0.0, 0.01, 0.1, 3.0]), 'redirects': rng.choice([1, 3, 10, 50])})
    return {'params': swarm(rng, delay_min=[0.0, 0.001], delay_max=[0.001, 0.01], short=[0.0, 0.3], segment=[0.0, 0.5], eagain=[0.0, 0.2],
                            late=[None, 0.2], late_max=[0.002], cap=[65536, 65536, 6000], tick=[1e-7]),
            'requests': requests, 'close_at': rng.choice([None] * 5 + [0.01, 0.1, 0.05])}


def valid(plan):
    return bool(plan['requests']) and all(r['chunks'] > 0 and r['size'] > 0 and r['timeout'] != 0 and r['redirects'] > 0
                                          for r in plan['requests'])


class World:
    pass


class BodyError(Exception):
    pass


async def stream_of(w, loop, index, r):
    info = w.infos[index]
    info['streams'] += 1
    try:
        size = r['size'] // r['chunks'] + 1
        left = r['size']
        for number in range(r['chunks']):
            if number:
                if r['body'] == 'hang':
                    await Future(loop)
                elif r['body'] == 'raise':
                    raise BodyError(index)
                elif r['body_gap'] is not None:
                    await sleep(r['body_gap'], loop)
            yield b'x' * min(size, left)
            left -= min(size, left)
        if r['body'] == 'hang':
            await Future(loop)
        if r['body'] == 'raise':
            raise BodyError(index)
    finally:
        info['streams'] -= 1


def body_of(r):
    return b'<' + b'y' * 500 + b'>'


async def one_request(w, loop, index, r, info):
    kind = r['kind']
    host = f'host{index}.example' if kind.startswith('dns') else f'10.0.0.{index + 1}'
    url = f'http://{host}:8080/{index}'
    keyword = {}
    if r['body'] == 'bytes':
        keyword['data'] = b'x' * r['size']
    elif r['body'] is not None:
        keyword['data'] = stream_of(w, loop, index, r)
    if r['timeout'] is not None:
        keyword['timeout'] = r['timeout']
    if kind == 'redirect':
        keyword['redirects'] = r['redirects']
    if kind.startswith('proxy'):
        keyword['proxy'] = Proxy(f'http://10.0.1.{index + 1}:3128')
    method = 'GET' if r['body'] is None else 'POST'
    try:
        context = w.client.request2(method, url, None, **keyword)
        response = await context
    finally:
        info['answered'] = w.sim.now
    info['status'] = response.status
    async with context as response:
        if r['use'] == 'close-other':
            loop.call_after(0.01, response.close)
            info['closed'] = w.sim.now + 0.01
        if r['use'] == 'read' or r['use'] == 'close-other':
            body = await response.read()
            if body != body_of(r):
                raise Violation('body', f'{body!r} {r}')
            info['complete'] = True
        elif r['use'] == 'chunks' or r['use'] == 'early':
            body = bytearray()
            async for chunk in response.payload_stream:
                body += chunk
                if r['use'] == 'early':
                    break
            else:
                if bytes(body) != body_of(r):
                    raise Violation('body', f'{bytes(body)!r} {r}')
                info['complete'] = True
        elif r['use'] == 'close':
            response.close()


def sockets_of(w, index):
    out = []
    for obj in w.sim.net.fds.values():
        address = getattr(obj, 'peer_address', None)
        if address is not None and obj.callback is None and tuple(address[:2]) in ((f'10.0.0.{index + 1}', 8080), (f'10.0.1.{index + 1}', 3128)):
            out.append(obj)
    return out


async def outcome_within(w, loop, index, r, info):
    """Runs one request; returns only texts, so nothing of the request stays referenced."""
    box = [Task(loop, one_request(w, loop, index, r, info))]

    def cancel():
        if box and box[0].is_pending():
            info['cancelled'] = w.sim.now
            box[0].cancel()

    handles = []
    for when in (r['cancel'], None if r['cancel'] is None or r['again'] is None else r['cancel'] + r['again']):
        if when is not None:
            handles.append(loop.call_after(when, cancel))
    handles.append(loop.call_after((r['timeout'] or 60.0) + 2.0, cancel))
    done = Future(loop)
    box[0].add_done_callback(lambda t: done.set_result_if_pending(None))
    handles.append(loop.call_after((r['timeout'] or 60.0) + 5.0, done.set_result_if_pending, None))
    await done
    for handle in handles:
        handle.cancel()
    task = box.pop()
    if task.is_pending():
        return None
    outcome = outcome_of(task)
    if outcome[0] == 'raise':
        exception = outcome[1]
        if isinstance(exception, Violation):
            return ('raise', 'Violation', str(exception))
        details = ''.join(traceback.format_exception(exception))[-2500:]
        if isinstance(exception, (BodyError, TimeoutError)):
            return ('raise', type(exception).__name__, details)
        return ('raise', 'known' if isinstance(exception, (OSError, EOFError, PayloadError, ProxyError)) else 'other', details)
    return (outcome[0], '', repr(outcome[1:]))


async def one_task(w, loop, index):
    r = w.plan['requests'][index]
    if r['gap'] is not None:
        await sleep(r['gap'], loop)
    info = w.infos[index]
    info['start'] = start = w.sim.now
    after_close = w.closed_at is not None
    outcome = await outcome_within(w, loop, index, r, info)
    text = f'request {index} {r} {info}'
    now = w.sim.now
    if outcome is None:
        raise Violation('hang', text)
    w.sim.log('outcome', index, outcome[0], outcome[1])
    answered = info.get('answered')
    slack = w.slack + 0.004
    if r['timeout'] is not None and (answered is None or answered > start + r['timeout'] + slack):
        raise Violation('late', f'answered {answered} started {start}; {text}')
    if info['cancelled'] is not None and now > info['cancelled'] + slack:
        raise Violation('late-cancel', f'now {now}; {text}')
    if info.get('closed') is not None and now > info['closed'] + slack:
        raise Violation('late-close', f'now {now}; {text}')
    kind, error, details = outcome
    if (r['body'] == 'raise' and r['kind'] == 'silent' and r['cancel'] is None and (r['timeout'] is None or r['timeout'] > 0.4)
            and r['size'] < 6000 and w.closed_at is None and error != 'BodyError'):
        raise Violation('body-error', f'{outcome} {text}')
    if kind == 'raise':
        if error == 'Violation':
            raise Violation('body', details)
        if error == 'BodyError':
            if r['body'] != 'raise':
                raise Violation('error', f'{details} {text}')
        elif error == 'TimeoutError':
            if now < start + (r['timeout'] or 60.0) - 0.001:
                raise Violation('early', f'{now} {text}')
        elif error == 'other':
            raise Violation('error-kind', f'{details} {text}')
        elif (r['kind'] in ('ok', 'proxy-ok', 'dns-slow', 'late-read', 'body-stall', 'silent', 'slow-head', 'blackhole', 'no-read', 'proxy-silent')
              and w.closed_at is None and info.get('closed') is None and r['body'] != 'raise'):
            raise Violation('error', f'{details} {text}')
    elif kind == 'cancelled':
        if info['cancelled'] is None and w.closed_at is None:
            raise Violation('cancelled', f'{details} {text}')
    elif after_close or r['kind'] not in ('ok', 'proxy-ok', 'dns-slow', 'late-read', 'body-stall', 'slow-head', 'no-read', 'body-cut', 'rst', 'fin', 'proxy-slow',
                           'endless-head'):
        raise Violation('accepted', text)
    returned = kind == 'return'
    # nothing of it runs or stays open
    await sleep(0.002, loop)
    gc.collect()
    await sleep(2 * w.delay_max + 0.01 + w.slack, loop)
    if not info['finished']:
        left = sockets_of(w, index)
        if left:
            raise Violation('socket-left', f'{[(e.name, e.state) for e in left]}; {text}')
    if info['streams'] and not (returned and info['finished']):
        raise Violation('body-left', f'the request body is not closed; {text}')


async def program(loop, w):
    plan = w.plan
    w.client = client = HTTPClient(loop)
    tasks = [Task(loop, one_task(w, loop, index)) for index in range(len(plan['requests']))]

    def close():
        w.closed_at = w.sim.now
        client.close()

    handle = None
    if plan['close_at'] is not None:
        handle = loop.call_after(plan['close_at'], close)
    errors = []
    for task in tasks:
        try:
            await task
        except BaseException as exception:
            errors.append(exception)
    for exception in errors:
        if isinstance(exception, Violation):
            raise exception
    if errors:
        raise errors[0]
    task = tasks = None
    if w.closed_at is None:
        if handle is not None:
            handle.cancel()
        # the client is still good
        async with client.get('http://10.0.9.9:80/last') as response:
            if await response.read() != b'last':
                raise Violation('body', 'last')
        response = None
        client.close()
    await sleep(0.1 + 2 * w.delay_max, loop)
    gc.collect()
    await sleep(0.1, loop)
    left = [obj for obj in w.sim.net.fds.values() if isinstance(getattr(obj, 'peer_address', None), tuple) and not obj.callback and not obj.local]
    if left:
        raise Violation('socket-left', f'after the close of the client: {[(e.name, e.state, e.peer_address) for e in left]}')
    current = loop.current_task
    left = [obj for obj in gc.get_objects() if isinstance(obj, Task) and obj._loop is loop and obj.is_pending() and obj is not current]
    if left:
        raise Violation('task-left', f'{left!r}'[:600])
    left = [h for h in loop._scheduled if not h.cancelled and 'imeout' in repr(h.func)]
    if left:
        raise Violation('timer-left', repr(left))


def run(plan, sim):
    w = World()
    w.plan = plan
    w.sim = sim
    w.closed_at = None
    params = plan['params']
    w.delay_max = params.get('delay_max', 0.02)
    w.slack = params.get('late_max', 0.0) * 3
    w.infos = [{'cancelled': None, 'streams': 0, 'finished': False} for _ in plan['requests']]
    refused = set()
    never = set()
    table = {}
    for index, r in enumerate(plan['requests']):
        kind = r['kind']
        ip = f'10.0.0.{index + 1}'
        if kind == 'refuse':
            refused.add((ip, 8080))
        elif kind == 'blackhole':
            never.add((ip, 8080))
        elif kind == 'proxy-refused' and r['at'] < 0.3:
            refused.add((f'10.0.1.{index + 1}', 3128))
        if kind.startswith('dns') and kind != 'dns-fail':
            table[f'host{index}.example'] = [ip]

        def handler(conn, request, index=index, r=r, kind=kind):
            info = w.infos[index]
            start = r['start']
            data = H.Wire({'status': 200, 'framing': ['length', 'chunked', 'close'][index % 3], 'chunks': [100]}, request.method, body_of(r)).data
            until_close = index % 3 == 2
            if kind == 'redirect':
                conn.play(b'HTTP/1.1 302 Found\r\nLocation: /%d\r\nContent-Length: 3\r\n\r\nabc' % index, [], start)
                info['finished'] = True
            elif kind in ('silent', 'garbage', 'no-read', 'proxy-silent'):
                pass
            elif kind == 'slow-head':
                conn.play(data, [[1, 0.01]] * 200, start)
                info['finished'] = not until_close
                if until_close:
                    conn.finish('fin')
                    info['finished'] = False
            elif kind == 'half-head':
                conn.play(data[:int(16 * r['at'])], [], start)
                conn.finish('fin', r['when'])
            elif kind in ('body-stall', 'body-cut'):
                conn.play(data[:-int(1 + 500 * r['at'])], r['cuts'], start)
                if kind == 'body-cut' and not until_close:
                    conn.finish('rst' if r['size'] > 100 else 'fin', r['when'])
            elif kind == 'endless-head':
                conn.play(b'HTTP/1.1 200 OK\r\n' + b'X-Y: zzzzzzz\r\n' * 20000, [[50, 0.02]] * 150, start)
            elif kind == 'endless-interim':
                conn.play(b'HTTP/1.1 102 Processing\r\n\r\n' * 3000, [[27, 0.02]] * 150, start)
            else:
                conn.play(data, r['cuts'], start)
                if until_close:
                    conn.finish('fin')
                else:
                    info['finished'] = True

        server = H.Server(sim, ip, 8080, handler)

        def on_accept(conn, r=r, kind=kind):
            if kind == 'no-read':
                conn.end.pause_rx = True
            elif kind == 'late-read':
                conn.end.pause_rx = True
                sim.at(sim.now + r['when'], conn.end.resume_rx)
            elif kind in ('fin', 'rst'):
                conn.finish('close' if kind == 'fin' else 'rst', r['when'])
            elif kind == 'garbage':
                conn.play(b'\x00\xffgarbage\r\n\r\n', r['cuts'], r['start'])

        server.on_accept = on_accept
        if kind.startswith('proxy'):
            def proxy_handler(conn, request, index=index, r=r, kind=kind, handler=handler):
                if request.method != 'CONNECT':
                    handler(conn, request)
                elif request.target != f'10.0.0.{index + 1}:8080':
                    raise Violation('proxy-target', request.target)
                elif kind == 'proxy-silent':
                    pass
                elif kind == 'proxy-refused':
                    conn.play(b'HTTP/1.1 407 No\r\nContent-Length: 0\r\n\r\n', [], r['start'])
                elif kind == 'proxy-cut':
                    conn.play(b'HTTP/1.1 200 OK\r\n\r\n'[:int(20 * r['at'])], [], r['start'])
                    conn.finish('fin', r['when'])
                else:
                    conn.play(b'HTTP/1.1 200 OK\r\n\r\n', [[3, 0.0], [100, 0.1]] if kind == 'proxy-slow' else [], r['start'])

            H.Server(sim, f'10.0.1.{index + 1}', 3128, proxy_handler)

    H.Server(sim, '10.0.9.9', 80, lambda conn, request: conn.play(b'HTTP/1.1 200 OK\r\nContent-Length: 4\r\n\r\nlast', []))

    def connect(address):
        if tuple(address[:2]) in refused:
            return 'refuse'
        if tuple(address[:2]) in never:
            return 'never'
        return None

    sim.params['connect'] = connect
    delays = [r['delay'] for r in plan['requests'] if r['kind'].startswith('dns')]
    with H.hosts(table, lambda: delays[0] if delays else 0.0):
        run_async(sim, program, w)
