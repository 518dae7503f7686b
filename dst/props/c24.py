"""HTTP responses: parsed the same for every segmentation, or rejected."""
import gzip, json
from ..world import *
from .. import http as H
from scarletio.http_client import HTTPClient
from scarletio.web_common import PayloadError

BUDGET = {'quick': 9000, 'thorough': 250000}
RULE = ('One evaluation is one to three consecutive requests; a raw server answers each of them with a generated response (every framing, '
        'coding, header layout, interim responses) cut into segments with gaps, complete, cut off at any byte and ended or reset, or '
        'malformed in one of the listed ways; the body is read whole, as text, as json or by chunks at any speed.')
ASSUMPTIONS = ['The server is a reference peer of the simulation, the network and the clock are simulated.']
STUBS = ['server']

HEADERS = [['X-A', 'one'], ['x-b', 'two: three'], ['X-A', 'two'], ['X-Empty', ''], ['X-Long', 'y' * 300], ['X-Fold', 'first\r\n second'],
           ['X-Utf', 'é'], ['Date', 'Thu, 01 Jan 1970 00:00:00 GMT'], ['Server', 'x/1 (y)'], ['Connection', 'keep-alive'],
           ['Content-Type', 'text/plain; charset=utf-8'], ['Keep-Alive', 'timeout=5, max=10']]
MALFORMED = ['status', 'status_text', 'version', 'no_status_line', 'header_colon', 'header_name', 'length_text', 'length_negative', 'length_plus',
             'length_unicode', 'length_twice', 'length_float', 'chunk_negative', 'chunk_plus', 'chunk_hex', 'chunk_underscore', 'chunk_empty',
             'chunk_text', 'chunk_long', 'chunk_short', 'coding_unknown', 'coding_corrupt', 'coding_cut', 'coding_garbage', 'chunk_end',
             'chunk_unicode']


def gen_response(rng):
    framing = rng.choice(['length', 'length', 'chunked', 'chunked', 'close'])
    spec = {
        'version': rng.choice(['1.1', '1.1', '1.1', '1.0']) if framing != 'chunked' else '1.1',
        'status': rng.choice([200, 200, 200, 200, 201, 204, 304, 404, 500, 299, 599]),
        'reason': rng.choice(['OK', 'OK', 'Not so Good', '', 'é', None]),
        'headers': [rng.choice(HEADERS) for _ in range(rng.randint(0, 4))],
        'framing': framing,
        'coding': rng.choice([None, None, None, 'gzip', 'gzip', 'deflate', 'deflate-raw', 'gzip-multi', 'identity']),
        'size': rng.choice([0, 1, 2, 10, 100, 100, 600, 2000]) if rng.random() < 0.992 else 100000,
        'kind': rng.choice(['bytes', 'bytes', 'random', 'text']),
        'seed': rng.randint(0, 10**6), 'order': rng.randint(0, 99), 'style': rng.choice([0, 0, 0, 1, 2]),
        'chunks': [rng.choice([1, 2, 7, 16, 100, 5000]) for _ in range(rng.randint(1, 4))],
        'extension': rng.choice([None, None, ';a', ';a=b', ' ;a="x"']),
        'trailers': rng.choice([None, None, None, [['X-T', 'v']], [['X-T', 'v'], ['X-U', 'w']]]),
        'length_name': rng.choice(['Content-Length', 'content-length']),
        'coding_name': rng.choice(['Content-Encoding', 'content-encoding']),
        'chunked_value': rng.choice(['chunked', 'Chunked']),
        'upgrade': rng.random() < 0.06,
    }
    return spec


def gen(rng):
    exchanges = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        spec = gen_response(rng)
        mode = rng.choice(['good'] * 4 + ['cut'] * 2 + ['bad'])
        exchange = {'method': rng.choice(['GET'] * 5 + ['HEAD', 'POST', 'DELETE']), 'response': spec, 'mode': mode,
                    'interim': rng.choice([[]] * 6 + [[100], [103], [100, 102]]),
                    'cuts': H.gen_cuts(rng, 300 + spec['size']), 'split': rng.choice([None] * 3 + ['head', 'end']),
                    'end': rng.choice(['none', 'none', 'fin', 'rst']),
                    'end_gap': rng.choice([0.0, 0.001, 0.02]),
                    'read': rng.choice(['read', 'read', 'chunks', 'chunks', 'text', 'json', 'twice']),
                    'delay': rng.choice([None, None, 'skip', 0.0, 0.003, 0.05]),
                    'slow': rng.choice([None, None, 0.0, 0.002])}
        if mode == 'cut':
            exchange['at'] = rng.choice([rng.random(), rng.random(), rng.random(), 1.0])
            exchange['end'] = rng.choice(['fin', 'fin', 'rst', 'close'])
        if mode == 'bad':
            exchange['bad'] = rng.choice(MALFORMED)
            exchange['where'] = rng.random()
            exchange['end'] = rng.choice(['none', 'fin', 'fin'])
        if spec['size'] > 10000:
            spec['chunks'] = [5000, 20000]
            exchange['slow'] = None
            exchange['cuts'] = []
        exchanges.append(exchange)
    return {'params': swarm(rng, delay_min=[0.0, 0.001], delay_max=[0.001, 0.01], short=[0.0, 0.3], segment=[0.0, 0.5], eagain=[0.0, 0.2],
                            late=[None, 0.2], late_max=[0.002]), 'exchanges': exchanges}


def valid(plan):
    return bool(plan['exchanges']) and all(
        e['response']['status'] >= 200 and e['response']['chunks'] and all(h for h in e['response']['headers'])
        and all(i in (100, 102, 103) for i in e['interim']) for e in plan['exchanges'])


def prepare(exchange):
    """-> wire, data, expectation: 'good', 'error', 'any' (good or error)"""
    spec = dict(exchange['response'])
    if spec['upgrade']:
        spec['headers'] = [h for h in spec['headers'] if h[0] != 'Connection'] + [['Upgrade', 'h2,h2c'], ['Connection', 'Upgrade']]
    if exchange['read'] == 'json':
        spec['headers'] = [h for h in spec['headers'] if h[0] != 'Content-Type'] + [['Content-Type', 'application/json']]
        body = json.dumps({'x': list(range(spec['size'] // 4)), 'y': 'é'}).encode()
    elif exchange['read'] == 'text':
        spec['headers'] = [h for h in spec['headers'] if h[0] != 'Content-Type'] + [['Content-Type', 'text/plain; charset=UTF-8']]
        body = H.make_body(spec['seed'], spec['size'], 'text')
    else:
        body = None
    method = exchange['method']
    mode = exchange['mode']
    bad = exchange.get('bad') if mode == 'bad' else None
    if bad is not None:
        if bad.startswith('chunk_'):
            spec['framing'] = 'chunked'
            spec['version'] = '1.1'
            spec['size'] = max(spec['size'], 1)
            method = exchange['method'] = 'GET' if method == 'HEAD' else method
            spec['status'] = 200
        elif bad.startswith('length_'):
            spec['framing'] = 'length'
            method = exchange['method'] = 'GET' if method == 'HEAD' else method
            spec['status'] = 200
            spec['size'] = max(spec['size'], 2)
        elif bad.startswith('coding_'):
            spec['coding'] = 'gzip' if bad in ('coding_unknown', 'coding_garbage') else ('gzip', 'deflate')[spec['seed'] % 2]
            method = exchange['method'] = 'GET' if method == 'HEAD' else method
            spec['status'] = 200
            spec['size'] = max(spec['size'], 2)
            if bad == 'coding_unknown':
                spec['coding'] = None
                spec['headers'] = spec['headers'] + [['Content-Encoding', 'unheard-of']]
        if body is None:
            body = H.make_body(spec['seed'], spec['size'], spec['kind'])
        if bad in ('coding_corrupt', 'coding_cut', 'coding_garbage'):
            payload = bytearray(H.compress(body, spec['coding']))
            if bad == 'coding_corrupt':
                payload[-4 - (4 if spec['coding'] == 'gzip' else 0) + int(exchange['where'] * 3.99)] ^= 0x41
            elif bad == 'coding_cut':
                del payload[max(1, int(len(payload) * exchange['where'])):]
            else:
                payload = bytearray(body)
                payload[:0] = b'zz'
            name = H.CODING_HEADER[spec['coding']]
            spec['coding'] = None
            spec['headers'] = spec['headers'] + [['Content-Encoding', name]]
            body = bytes(payload)
    wire = H.Wire(spec, method, body)
    data = wire.data
    want = 'good'
    if bad is not None:
        want = 'error' if bad != 'coding_unknown' or body else 'any'
        head, rest = data[:len(wire.head)], data[len(wire.head):]
        line, _, others = head.partition(b'\r\n')
        if bad == 'status':
            data = b'HTTP/1.1 20 OK\r\n' + others + rest
        elif bad == 'status_text':
            data = b'HTTP/1.1 abc OK\r\n' + others + rest
        elif bad == 'version':
            data = b'HTTP/x.1 200 OK\r\n' + others + rest
        elif bad == 'no_status_line':
            data = b'<html>no status</html>\r\n' + others + rest
        elif bad == 'header_colon':
            data = line + b'\r\nnot a header\r\n' + others + rest
        elif bad == 'header_name':
            data = line + b'\r\n: value\r\n' + others + rest
        elif bad.startswith('length_'):
            name = spec['length_name'].encode()
            value = b'%d' % len(wire.payload)
            new = {'length_text': b'abc', 'length_negative': b'-' + value, 'length_plus': b'+' + value,
                   'length_unicode': ''.join(chr(0x660 + int(c)) for c in value.decode()).encode() if exchange['where'] < 0.5 else '\xb2'.encode(),
                   'length_twice': value + b'\r\n' + name + b': %d' % (len(wire.payload) - 1), 'length_float': value + b'.0'}[bad]
            out = []
            for h in head.split(b'\r\n'):
                if h.partition(b':')[0] == name:
                    h = name + b': ' + new
                out.append(h)
            data = b'\r\n'.join(out) + rest
        elif bad.startswith('chunk_'):
            marks = wire.chunk_marks
            mark = marks[int(exchange['where'] * (len(marks) - 1))]
            end = data.index(b'\r\n', mark)
            size = data[mark:end].partition(b';')[0].strip()
            number = int(size, 16)
            if bad == 'chunk_end':
                position = end + 2 + number
                if not number and spec['trailers']:
                    want = 'any'
                data = data[:position] + b'xy' + data[position + 2:]
            elif bad == 'chunk_long':
                data = data[:mark] + b'%x' % (number + 1) + data[end:]
            elif bad == 'chunk_short':
                data = data[:mark] + (b'%x' % (number - 1) if number > 1 else b'3') + data[end:]
            else:
                new = {'chunk_negative': b'-' + size, 'chunk_plus': b'+' + size, 'chunk_hex': b'0x' + size, 'chunk_underscore': b'0_' + size,
                       'chunk_empty': b'', 'chunk_text': b'zz', 'chunk_unicode': '\u0661'.encode()}[bad]
                data = data[:mark] + new + data[end:]
        exchange['end'] = 'fin' if exchange['end'] == 'none' and wire.until_close else exchange['end']
        if exchange['end'] == 'none':
            exchange['end'] = 'late'
    elif mode == 'cut':
        at = int(len(data) * exchange['at'])
        if at >= len(data):
            want = 'good' if exchange['end'] in ('fin', 'close') or not wire.until_close else 'error'
        else:
            data = data[:at]
            want = 'error'
            if wire.until_close and at >= len(wire.head) and exchange['end'] in ('fin', 'close'):
                if exchange['read'] in ('text', 'json'):
                    exchange['read'] = 'read'
                if spec.get('coding') in (None, 'identity'):
                    want = 'good'
                    wire.user_body = wire.payload[:at - len(wire.head)]
                elif at == len(wire.head):
                    want = 'any'
                    wire.user_body = b''
                elif spec.get('coding') == 'gzip-multi':
                    want = 'prefix'
        if exchange['end'] == 'rst' and want == 'good':
            want = 'any'
    elif wire.until_close:
        if exchange['end'] != 'rst':
            exchange['end'] = 'fin'
        else:
            want = 'error'
    elif exchange['end'] == 'rst':
        want = 'any'
    if mode != 'good' and b'\r\n\r\n' not in data[:len(wire.head)] and exchange['end'] == 'none':
        exchange['end'] = 'fin'
    return wire, data, want


async def consume(w, loop, response, exchange):
    read = exchange['read']
    if exchange['delay'] == 'skip':
        await skip_ready_cycle()
    elif exchange['delay'] is not None:
        await sleep(exchange['delay'], loop)
    if read == 'chunks':
        stream = response.payload_stream
        if stream is None:
            return None
        out = bytearray()
        async for chunk in stream:
            out += chunk
            if exchange['slow'] is not None:
                await sleep(exchange['slow'], loop)
        return bytes(out)
    if read == 'text':
        text = await response.text()
        return None if text is None else text.encode()
    if read == 'json':
        value = await response.json()
        return None if value is None else json.dumps(value).encode()
    body = await response.read()
    if read == 'twice':
        again = await response.read()
        if again != body:
            raise Violation('second-read', f'{body!r} then {again!r}')
    return body


class World:
    pass


async def program(loop, w):
    plan = w.plan
    client = HTTPClient(loop)
    try:
        for index, exchange in enumerate(plan['exchanges']):
            exchange = dict(exchange)
            wire, data, want = prepare(exchange)
            last_end, w.last_end = w.last_end, exchange['end']
            w.now = (wire, data, exchange)
            box = {}
            if last_end != 'none':
                # reuse of connections which the server may close is not looked at here
                client.close()
                client = HTTPClient(loop)

            async def one():
                headers = {}
                keyword = {}
                if exchange['method'] == 'POST':
                    keyword['data'] = b'body'
                async with client.request(exchange['method'], f'http://10.0.0.1:8080/{index}', headers, **keyword) as response:
                    if response.status == 204 or response.status == 304:
                        pass
                    box['status'] = response.status
                    box['reason'] = response.reason
                    box['headers'] = response.headers
                    box['response'] = response
                    box['body'] = await consume(w, loop, response, exchange)
                    box['done'] = True

            task = Task(loop, one())
            event = Future(loop)
            handle = loop.call_after(20.0, event.set_result_if_pending, None)
            task.add_done_callback(lambda t, event=event: event.set_result_if_pending(None))
            await event
            handle.cancel()
            text = f'exchange {index} {exchange}\nwire {data[:600]!r}'
            if task.is_pending():
                raise Violation('hang', f'the response does not end, {box.get("status")}; {text}')
            error = None
            try:
                await task
            except (OSError, EOFError, PayloadError) as exception:
                error = exception
            except Violation:
                raise
            except BaseException as exception:
                if want == 'error' and isinstance(exception, Exception) and exchange['mode'] == 'cut':
                    raise Violation('error-kind', f'{exception!r}; {text}')
                if want != 'error':
                    raise Violation('error', f'{exception!r}; {text}')
                error = exception
            w.sim.log('outcome', index, want, type(error).__name__, box.get('status'), len(box.get('body') or b''))
            if error is not None:
                if want == 'good':
                    raise Violation('rejected', f'{error!r} {error.__cause__!r}; {text}')
                continue
            if want == 'error':
                raise Violation('accepted', f'{box["status"]} {box["body"]!r} expected an error; {text}')
            if box['status'] != wire.status:
                raise Violation('status', f'{box["status"]}; {text}')
            reason = box['reason']
            if wire.reason:
                if reason != wire.reason:
                    raise Violation('reason', f'{reason!r}; {text}')
            got = box['headers']
            names = {}
            for name, value in wire.headers:
                names.setdefault(name.casefold(), []).append(value)
            for name, values in names.items():
                have = list(got.get_all(name, ()))
                # equal values of a name are stored once
                if sorted(set(have)) != sorted(set(values)):
                    raise Violation('headers', f'{name}: {have} instead of {values}; {text}')
            extra = [key for key in got.keys() if str(key).casefold() not in names]
            if extra:
                raise Violation('headers', f'unsent {extra}; {text}')
            body = box['body']
            if want == 'prefix':
                if not wire.user_body.startswith(body or b''):
                    raise Violation('body', f'{body!r}; {text}')
            elif wire.user_body is None:
                if body:
                    raise Violation('body', f'{body!r} instead of none; {text}')
            elif (body or b'') != wire.user_body:
                raise Violation('body', f'{body!r} instead of {wire.user_body!r}; {text}')
            repr(box['response'])
    finally:
        client.close()


def run(plan, sim):
    w = World()
    w.plan = plan
    w.last_end = 'none'
    w.sim = sim

    def handler(conn, request):
        wire, data, exchange = w.now
        interim = b''.join(b'HTTP/1.1 %d Interim\r\nX-I: 1\r\n\r\n' % status for status in exchange['interim'])
        data = interim + data
        cuts = list(exchange['cuts'])
        if exchange['split'] == 'head':
            cuts = [[len(interim) + len(wire.head), 0.0], [10 ** 6, 0.01]]
        elif exchange['split'] == 'end':
            cuts = [[max(1, len(data) - 1), 0.0], [1, 0.01]]
        conn.play(data, cuts)
        if exchange['end'] == 'late':
            conn.finish('fin', 3.0)
        elif exchange['end'] != 'none':
            conn.finish(exchange['end'], exchange['end_gap'])

    H.Server(sim, '10.0.0.1', 8080, handler)
    run_async(sim, program, w)
