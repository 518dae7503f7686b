"""HTTP requests are framed correctly on the wire."""
import io
import json
import os
import quopri
import shutil
import tempfile
import zlib
from base64 import b64decode
from email.parser import BytesHeaderParser
from urllib.parse import parse_qsl, quote, unquote

from ..world import *
from .. import http as H
from scarletio.core import AsyncIO, ReuAsyncIO, ReuBytesIO
from scarletio.http_client import HTTPClient
from scarletio.utils import IgnoreCaseMultiValueDictionary
from scarletio.web_common import URL, BasicAuthorization, FormData
from scarletio.web_common.exceptions import PayloadError

BUDGET = {'quick': 16000, 'thorough': 400000}
RULE = ('One evaluation is one to four requests of one client to one reference server over a connection which is reused: a method, path, query, '
        'headers and one of about twenty body kinds, with or without compression and chunking, while the server reads at any speed and pauses. '
        'A strict parser of the server reads back the request, which is compared with what was asked.')
ASSUMPTIONS = ['The server is a reference peer of the simulation. Files are real files in a scratch directory.']
STUBS = ['server']
TEXTS = ['', 'p+q', 'a', 'hello', 'x y', 'a&b=c', 'ü', '日本', 'a+b', '100%', '"q"', "it's", 'a;b', 'a/b?c#d', '\\', 'a\nb', 'e\r\nf', '=', '--x']
NAMES = ['a', 'field', 'x y', 'ü', 'a&b', 'q"q', 'back\\slash', 'a;b', "it's", 'new\r\nline']
KINDS = ['none', 'bytes', 'bytes', 'bytearray', 'memoryview', 'wide-memoryview', 'str', 'str', 'bytesio', 'stringio', 'buffered', 'file', 'text-file',
         'text-file-latin', 'raw-file', 'temp-file', 'async-io', 'reu-bytesio', 'reu-async-io', 'stream', 'stream', 'stream', 'stream', 'dict', 'list', 'form',
         'form', 'form', 'form', 'empty']
PARTS = ['str', 'str', 'bytes', 'bytes-name', 'bytesio', 'json', 'stream', 'base64', 'qp', 'typed-str', 'file', 'async-io', 'text-file']


def gen(rng):
    requests = []
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        requests.append({
            'method': rng.choice(['GET', 'POST', 'POST', 'PUT', 'PATCH', 'DELETE', 'OPTIONS', 'HEAD']),
            'path': [rng.choice(TEXTS[1:]) for _ in range(rng.choice([0, 1, 2]))],
            'query': [[rng.choice(TEXTS[1:]), rng.choice(TEXTS)] for _ in range(rng.choice([0, 0, 1, 3]))], 'query_in': rng.choice(['url', 'param', 'both']),
            'fragment': rng.random() < 0.1, 'user': rng.choice([None] * 6 + ['url', 'param']),
            'headers': [[rng.choice(['X-A', 'X-B', 'Accept', 'x-a', 'User-Agent', 'Connection-X']), rng.choice(['1', 'long ' * 50, 'ü', 'a, b', '"', 'a: b'])]
                        for _ in range(rng.choice([0, 0, 1, 3]))],
            'inject': rng.choice([None] * 40 + ['value', 'name', 'method', 'part-type']), 'fail': rng.choice([None] * 9 + [rng.randint(0, 6)]), 'host': rng.choice([None] * 8 + ['other.example:99']),
            'cookies': rng.choice([None] * 5 + ['a=1', 'a=1; b=2']), 'host_kind': rng.choice(['ip', 'ip', 'ip', 'ip6', 'name', 'NAME.']),
            'kind': rng.choice(KINDS), 'size': rng.choice([0, 1, 2, 3, 100, 1000, 65535, 65536, 65537, 131073, 200000]), 'seed': rng.randrange(1000),
            'offset': rng.choice([0, 0, 0, 1, 50, 300000]), 'change': rng.choice([None] * 4 + ['grow', 'shrink']), 'change_after': rng.choice([0.0, 0.001, 0.003, 0.01]), 'pieces': [rng.choice([0, 1, 10, 1000, 30000, 65536, 70000]) for _ in range(rng.randint(0, 6))],
            'gap': rng.choice([None, None, 0.0, 0.001]), 'coding': rng.choice([None] * 5 + ['gzip', 'deflate', 'GZIP']), 'chunked': rng.random() < 0.15,
            'type': rng.choice([None] * 4 + ['text/x-custom', 'text/plain; charset=utf-16']), 'quote': rng.random() < 0.8,
            'parts': [[rng.choice(PARTS), rng.choice(NAMES), rng.randrange(1000), rng.choice([0, 1, 100, 3001, 70000])] for _ in range(rng.randint(1, 4))],
            'shared': rng.random() < 0.2, 'api': rng.choice(['request', 'request2']),
            'pauses': [[rng.randint(0, 150000), rng.choice([0.001, 0.01, 0.1])] for _ in range(rng.choice([0, 0, 1, 3]))]})
        r = requests[-1]
        if rng.random() < 0.06:
            # A long one, and the server stops reading for long.
            r.update(kind='stream', size=500000, pieces=[rng.choice([5000, 10000, 30000])] * 100, coding=None,
                     pauses=[[rng.randint(0, 100000), 1.0]], fail=None)
    return {'params': swarm(rng, delay_min=[0.0, 0.001], delay_max=[0.001, 0.005], short=[0.0, 0.3], segment=[0.0, 0.5], eagain=[0.0, 0.2],
                            late=[None, 0.2], late_max=[0.002], cap=[65536, 65536, 6000], tick=[1e-7]), 'requests': requests}


def valid(plan):
    return bool(plan['requests']) and all(
        all(len(x) == 2 for name in ('query', 'headers', 'pauses') for x in r[name])
        and all(len(x) == 4 for x in r['parts']) and (r['parts'] or r['kind'] != 'form') for r in plan['requests'])


class World:
    pass


class Refused(Exception):
    pass


def pieces_of(r, size):
    out = []
    left = size
    for piece in r['pieces']:
        piece = min(piece, left)
        out.append(piece)
        left -= piece
    out.append(left)
    return out


async def stream_of(w, loop, r, body):
    position = 0
    for number, piece in enumerate(pieces_of(r, len(body))):
        if number == r['fail']:
            w.failed = True
            raise Refused('no more data')
        yield body[position:position + piece]
        position += piece
        w.produced += piece
        if r['coding'] is None and r['kind'] == 'stream':
            waiting = w.produced - w.consumed()
            if waiting > w.bound + 2 * max(pieces_of(r, len(body))):
                raise Violation('back-pressure', f'{waiting} bytes are waiting; {r}')
        if r['gap'] is not None:
            await sleep(r['gap'], loop)


def text_of(seed, size):
    return (f'{seed:04} line ü\n' * (size // 13 + 1))[:size]


def file_of(w, data):
    w.files += 1
    path = f'f{w.files}.bin'
    with open(path, 'wb') as file:
        file.write(data)
    return path


def change(w, r, path, offset, size):
    """The file becomes longer or shorter while it is sent."""
    def apply():
        if r['change'] == 'grow':
            with open(path, 'ab') as file:
                file.write(b'more' * 30000)
        elif offset < size:
            w.shrunk = True
            os.truncate(path, offset + (size - offset) // 2)
    if r['change'] is not None:
        w.changes.append(apply)


async def data_of(w, loop, r):
    """-> data, what the server has to get: None | bytes | ('form', pairs) | ('multipart', parts), content type"""
    kind = r['kind']
    body = H.make_body(r['seed'], r['size'])
    offset = r['offset']
    binary = 'application/octet-stream'
    if kind == 'none':
        return None, None, None
    if kind == 'empty':
        return [b'', '', {}, FormData(), bytearray()][r['seed'] % 5], None, None
    if kind in ('bytes', 'bytearray', 'memoryview'):
        if not body:
            return b'', None, None
        return {'bytes': bytes, 'bytearray': bytearray, 'memoryview': memoryview}[kind](body), body, binary
    if kind == 'wide-memoryview':
        body = body[:len(body) // 4 * 4]
        return (memoryview(body).cast('I'), body, binary) if body else (b'', None, None)
    if kind in ('str', 'stringio'):
        text = text_of(r['seed'], r['size'] // 2)
        charset = 'utf-16' if r['type'] is not None and 'charset' in r['type'] and False else 'utf-8'
        if kind == 'stringio':
            stream = io.StringIO(text)
            stream.seek(min(offset, len(text)))
            return stream, text[min(offset, len(text)):].encode(charset), 'text/plain; charset=utf-8'
        return (text, text.encode(charset), 'text/plain; charset=utf-8') if text else ('', None, None)
    if kind == 'bytesio':
        stream = io.BytesIO(body)
        stream.seek(offset)
        return stream, body[offset:], binary
    if kind == 'buffered':
        stream = io.BufferedReader(io.BytesIO(body))
        stream.seek(offset)
        return stream, body[offset:], binary
    if kind in ('file', 'raw-file'):
        path = file_of(w, body)
        stream = open(path, 'rb', 0 if kind == 'raw-file' else -1)
        stream.seek(offset)
        change(w, r, path, offset, len(body))
        return stream, body[offset:], binary
    if kind == 'temp-file':
        stream = tempfile.TemporaryFile(dir=w.directory)
        stream.write(body)
        stream.seek(offset)
        return stream, body[offset:], binary
    if kind == 'text-file':
        text = text_of(r['seed'], r['size'] // 2)
        return open(file_of(w, text.replace('\n', '\r\n').encode()), 'r', encoding='utf-8'), text.encode(), 'text/plain; charset=utf-8'
    if kind == 'text-file-latin':
        text = text_of(r['seed'], r['size'] // 2)
        return open(file_of(w, text.encode('latin-1')), 'r', encoding='latin-1'), text.encode(), 'text/plain; charset=utf-8'
    if kind == 'async-io':
        stream = await AsyncIO(file_of(w, body), 'rb')
        await stream.seek(offset)
        return stream, body[offset:], binary
    if kind == 'reu-bytesio':
        stream = w.reusable.get(kind)
        if stream is None:
            stream = w.reusable[kind] = ReuBytesIO()
            stream.write(body)
            stream.seek(0)
            stream.vp_body = body
        # An empty one counts as no data.
        return stream, stream.vp_body or None, binary if stream.vp_body else None
    if kind == 'reu-async-io':
        pair = w.reusable.get(kind)
        if pair is None:
            pair = w.reusable[kind] = (await ReuAsyncIO(file_of(w, body)), body)
        return pair[0], pair[1], binary
    if kind == 'stream':
        return stream_of(w, loop, r, body), body, binary
    if kind in ('dict', 'list'):
        pairs = [(text or 'k', f'{text} {r["seed"]}') for text in TEXTS[:1 + r['size'] % 7]]
        data = dict(pairs) if kind == 'dict' else pairs
        return data, ('form', pairs), 'application/x-www-form-urlencoded'
    # form
    form = FormData(r['quote'])
    parts = []
    multipart = False
    for part, name, seed, size in r['parts']:
        body = H.make_body(seed, size)
        text = text_of(seed, size // 2)
        if part == 'str':
            form.add_field(name, text)
            parts.append((name, text.encode(), None, None))
        elif part == 'typed-str':
            form.add_field(name, text, content_type='text/x-y\r\nX-Evil: 1' if r['inject'] == 'part-type' else 'text/x-y')
            if r['inject'] == 'part-type':
                w.injected = True
            parts.append((name, text.encode(), 'text/x-y', None))
            multipart = True
        elif part in ('bytes', 'bytes-name'):
            multipart = True
            file_name = name if part == 'bytes' else NAMES[seed % len(NAMES)]
            if part == 'bytes':
                form.add_field(name, body)
            else:
                form.add_field(name, body, file_name=file_name, content_type='image/png')
            parts.append((name, body, None if part == 'bytes' else 'image/png', file_name))
        elif part == 'json':
            multipart = True
            form.add_json(name, {'a': [text[:50], size]})
            parts.append((name, ('json', {'a': [text[:50], size]}), 'application/json', None))
        elif part in ('base64', 'qp'):
            multipart = True
            form.add_field(name, body if part == 'base64' else text, transfer_encoding='base64' if part == 'base64' else 'quoted-printable')
            parts.append((name, body if part == 'base64' else text.encode(), None, None))
        else:
            multipart = True
            file_name = 'data.bin'
            if part == 'bytesio':
                value = io.BytesIO(body)
            elif part == 'file':
                path = file_of(w, body)
                value = open(path, 'rb')
                change(w, r, path, 0, len(body))
            elif part == 'async-io':
                value = await AsyncIO(file_of(w, body), 'rb')
            elif part == 'text-file':
                value = open(file_of(w, text.replace('\n', '\r\n').encode()), 'r', encoding='utf-8')
                body = text.encode()
            else:
                value = stream_of(w, loop, {**r, 'kind': 'part'}, body)
            if seed % 2:
                form.add_field(name, value, file_name=file_name)
            else:
                form.add_field(name, value)
                file_name = False       # any
            parts.append((name, body, None, file_name))
    if not multipart:
        return form, ('form', [(name, body.decode()) for name, body, _, _ in parts]), 'application/x-www-form-urlencoded'
    return form, ('multipart', parts), 'multipart/form-data'


def parse_disposition(value):
    """-> type, parameters"""
    kind, _, rest = value.partition(';')
    out = {}
    position = 0
    while True:
        rest = rest.lstrip(' ')
        if not rest:
            return kind, out
        key, eq, rest = rest.partition('=')
        if not eq:
            raise ValueError(value)
        if rest.startswith('"'):
            text = []
            position = 1
            while rest[position] != '"':
                if rest[position] == '\\':
                    position += 1
                text.append(rest[position])
                position += 1
            rest = rest[position + 1:]
            parsed = ''.join(text)
        else:
            parsed, semi, rest = rest.partition(';')
            rest = semi + rest
        if key.endswith('*'):
            charset, _, parsed = parsed.split("'", 2)
            parsed = unquote(parsed, charset, 'strict')
            key = key[:-1]
        if key in out:
            raise ValueError(value)
        out[key] = parsed
        rest = rest.lstrip(' ')
        if rest and not rest.startswith(';'):
            raise ValueError(value)
        rest = rest[1:]


def parse_multipart(body, boundary):
    """Strict. -> list of headers, data"""
    delimiter = b'--' + boundary
    if not body.startswith(delimiter + b'\r\n'):
        raise ValueError(f'start {body[:100]!r}')
    sections = (b'\r\n' + body).split(b'\r\n' + delimiter)
    if sections[0] or sections[-1] != b'--\r\n':
        raise ValueError(f'end {sections[-1][:100]!r}')
    out = []
    for section in sections[1:-1]:
        if not section.startswith(b'\r\n'):
            raise ValueError(f'section {section[:50]!r}')
        head, sep, data = section[2:].partition(b'\r\n\r\n')
        if not sep:
            raise ValueError(f'head {section[:50]!r}')
        headers = []
        for line in head.split(b'\r\n'):
            name, sep, value = line.partition(b':')
            if not sep or not name or any(c not in H.TOKEN for c in name) or b'\n' in value or b'\r' in value:
                raise ValueError(f'header {line!r}')
            headers.append((name.decode().lower(), value.strip().decode()))
        if len(set(n for n, _ in headers)) != len(headers):
            raise ValueError(f'duplicated headers {headers}')
        out.append((dict(headers), data))
    return out


def clean(text):
    """Line breaks and quotes cannot be in a file name or name of a part without an escape; how they are escaped is up to the client."""
    return text.replace('%0D', '\r').replace('%0A', '\n').replace('%22', '"')


def check_body(w, r, request, expected, content_type):
    text = f'{r} headers {request.headers}'
    body = request.body
    coding = H.get(request.headers, 'content-encoding')
    if expected is None:
        if body or coding or request.chunked or H.get(request.headers, 'content-type'):
            raise Violation('body', f'unexpected body or headers of it {body[:100]!r}; {text}')
        return
    if r['coding'] is not None:
        if coding != [r['coding']]:
            raise Violation('coding', text)
        try:
            decoder = zlib.decompressobj(31 if r['coding'].lower() == 'gzip' else 15)
            body = decoder.decompress(body) + decoder.flush()
        except zlib.error as exception:
            raise Violation('coding', f'{exception!r} {body[:50]!r} {text}')
        if not decoder.eof or decoder.unused_data:
            raise Violation('coding', f'not complete {text}')
    elif coding:
        raise Violation('coding', text)
    types = H.get(request.headers, 'content-type')
    if len(types) != 1:
        raise Violation('content-type', text)
    if isinstance(expected, bytes):
        if r['type'] is not None:
            content_type = r['type']
        if types != [content_type] and not (content_type == 'application/octet-stream' and r['type'] is None and '/' in types[0]):
            raise Violation('content-type', text)
        if r['kind'] == 'raw-file' and r['change'] is not None:
            # It is read till its end, wherever that is by then.
            size = min(len(body), len(expected))
            if body[:size] != expected[:size] or (size < len(expected) and not w.shrunk) or size < len(expected) // 2:
                raise Violation('body', text)
        elif body != expected:
            index = next((i for i, (a, b) in enumerate(zip(body, expected)) if a != b), min(len(body), len(expected)))
            raise Violation('body', f'got {len(body)} expected {len(expected)} bytes, differ at {index}: {body[index:index + 50]!r} '
                                    f'{expected[index:index + 50]!r}; {text}')
        return
    if r['type'] is not None:
        return
    if expected[0] == 'form':
        if types != [content_type]:
            raise Violation('content-type', text)
        got = parse_qsl(body.decode('ascii'), keep_blank_values=True, strict_parsing=bool(body))
        if got != expected[1]:
            raise Violation('form', f'{got} {expected[1]} {text}')
        return
    kind, _, boundary = types[0].partition('; boundary=')
    if kind != content_type or not boundary:
        raise Violation('content-type', text)
    try:
        parts = parse_multipart(body, boundary.strip('"').encode())
        if len(parts) != len(expected[1]):
            raise ValueError(f'{len(parts)} parts')
        for (headers, data), (name, value, part_type, file_name) in zip(parts, expected[1]):
            kind, parameters = parse_disposition(headers.get('content-disposition', ''))
            if kind != 'form-data' or not set(parameters) <= {'name', 'filename'}:
                raise ValueError(f'disposition {headers}')
            if clean(parameters.get('name', '')) != clean(name):
                raise ValueError(f'name {headers} {name!r}')
            if file_name is not False:
                got_name = parameters.get('filename')
                if (got_name is None) != (file_name is None) or (got_name is not None and clean(got_name) != clean(file_name)):
                    raise ValueError(f'file name {headers} {file_name!r}')
            encoding = headers.get('content-transfer-encoding')
            if encoding == 'base64':
                data = b64decode(data, validate=True)
            elif encoding == 'quoted-printable':
                data = quopri.decodestring(data)
            if 'content-length' in headers and int(headers['content-length']) != len(data):
                raise ValueError(f'length {headers} {len(data)}')
            if part_type is not None and headers.get('content-type') != part_type:
                raise ValueError(f'type {headers}')
            if 'content-type' not in headers:
                raise ValueError(f'type {headers}')
            if isinstance(value, tuple):
                if json.loads(data) != value[1]:
                    raise ValueError(f'json {data[:100]!r}')
            elif data != value:
                raise ValueError(f'data {len(data)} {len(value)} {data[:50]!r} {value[:50]!r} {headers}')
    except ValueError as exception:
        raise Violation('multipart', f'{exception} {text}')


async def one(loop, w, r, number):
    w.injected = r['inject'] in ('value', 'name', 'method')
    w.failed = w.shrunk = False
    w.changes = []
    headers = IgnoreCaseMultiValueDictionary()
    for name, value in r['headers']:
        headers[name] = value
    given = list(r['headers'])
    if r['inject'] == 'value':
        headers['X-Inject'] = 'a\r\nX-Evil: 1'
    elif r['inject'] == 'name':
        headers['X-Inject\r\nX-Evil'] = 'a'
    if r['host'] is not None:
        headers['Host'] = r['host']
    if r['cookies'] is not None:
        headers['Cookie'] = r['cookies']
    if r['coding'] is not None:
        headers['Content-Encoding'] = r['coding']
    if r['chunked']:
        headers['Transfer-Encoding'] = 'chunked'
    data, expected, content_type = await data_of(w, loop, r)
    if r['type'] is not None and not (isinstance(expected, tuple)):
        headers['Content-Type'] = r['type']
    before = [(str(k), v) for k, v in headers.items()]
    host, shown = {'ip': ('10.0.0.1', '10.0.0.1:8080'), 'ip6': ('[fd00::1]', '[fd00::1]:8080'), 'name': ('host.example', 'host.example:8080'),
                   'NAME.': ('HOST.Example.', 'host.example:8080')}[r['host_kind']]
    path = ''.join('/' + quote(text, safe='+') for text in r['path'])
    url = 'http://' + ('us%20er:pa%40ss@' if r['user'] == 'url' else '') + host + ':8080' + path
    query = [tuple(pair) for pair in r['query']]
    in_url = query if r['query_in'] == 'url' else query[:1] if r['query_in'] == 'both' else []
    if in_url:
        url += '?' + '&'.join(quote(k, safe='') + '=' + quote(v, safe='') for k, v in in_url)
    if r['fragment']:
        url += '#fragment'
    parameter = query[len(in_url):]
    keyword = {}
    if parameter:
        as_dict = dict(parameter)
        if list(as_dict.items()) != parameter:
            parameter = list(as_dict.items())
        keyword['query'] = as_dict
    all_query = in_url + parameter
    if data is not None:
        keyword['data'] = data
    api = w.client.request if r['api'] == 'request' and r['user'] != 'param' else w.client.request2
    if r['user'] == 'param':
        keyword['authorization'] = BasicAuthorization('us er', 'pa@ss')
    count = len(w.server.requests)
    w.current = r
    w.produced = 0
    w.base = sum(conn.received for conn in w.conns)
    w.pauses = [list(pause) for pause in r['pauses']]
    text = f'request {number} {r}'
    try:
        async with api(r['method'] + (' / HTTP/1.1\r\nX-Evil: 1\r\n\r\n' if r['inject'] == 'method' else ''), URL(url, True), headers, **keyword) as response:
            got = await response.read()
            if response.status != 200 or (got or b'') != (b'' if r['method'] == 'HEAD' else b'ok'):
                raise Violation('response', f'{response.status} {got!r} {text}')
    except (Refused, PayloadError) as exception:
        if isinstance(exception, PayloadError):
            w.failed = w.shrunk
        # The failed body cannot look like a complete one.
        await sleep(0.5, loop)
        if not w.failed or len(w.server.requests) != count or w.server.bad:
            raise Violation('failed-body', text)
        for conn in w.conns:
            if conn.is_open() and not conn.parser.idle():
                raise Violation('failed-body', f'the connection stays open; {text}')
        w.conns[:] = [conn for conn in w.conns if conn.is_open()]
        w.base = 0
        return
    except ValueError:
        if not w.injected:
            raise
        if len(w.server.requests) != count or w.server.bad:
            raise Violation('injection', text)
        return
    if w.failed:
        raise Violation('failed-body', f'no error; {text}')
    if w.injected:
        raise Violation('injection', f'{w.server.requests[-1].headers} {text}')
    if len(w.server.requests) != count + 1:
        raise Violation('requests', f'{len(w.server.requests) - count} {text}')
    request = w.server.requests[-1]
    if request.method != r['method']:
        raise Violation('method', f'{request.method} {text}')
    target_path, _, target_query = request.target.partition('?')
    if [unquote(p) for p in target_path.split('/')] != [''] + (r['path'] or ['']):
        raise Violation('path', f'{request.target} {text}')
    got_query = parse_qsl(target_query, keep_blank_values=True)
    if sorted(set(got_query)) != sorted(set(all_query)):
        raise Violation('query', f'{request.target} {got_query} {text}')
    if [h.lower() for h in H.get(request.headers, 'host')] != [r['host'] if r['host'] is not None else shown]:
        raise Violation('host', f'{request.headers} {text}')
    wanted = {}
    for name, value in given:
        wanted.setdefault(name.lower(), []).append(value)
    for name, values in wanted.items():
        got_values = H.get(request.headers, name)
        if sorted(set(v.strip() for v in values)) != sorted(set(got_values)):
            raise Violation('headers', f'{name} {values} {got_values} {text}')
    if H.get(request.headers, 'cookie') != ([] if r['cookies'] is None else [r['cookies']]):
        raise Violation('cookies', f'{request.headers} {text}')
    authorization = H.get(request.headers, 'authorization')
    if authorization != ([] if r['user'] is None else ['Basic dXMgZXI6cGFAc3M=']):
        raise Violation('authorization', f'{authorization} {text}')
    known = {'host', 'accept', 'accept-encoding', 'content-length', 'content-type', 'content-encoding', 'transfer-encoding', 'cookie', 'authorization',
             *wanted}
    more = [name for name, _ in request.headers if name.lower() not in known]
    if more:
        raise Violation('headers', f'more: {more} {text}')
    check_body(w, r, request, expected, content_type)
    after = [(str(k), v) for k, v in headers.items()]
    if before != after:
        raise Violation('headers-changed', f'{before} {after} {text}')


async def program(loop, w):
    w.client = HTTPClient(loop)
    for number, r in enumerate(w.plan['requests']):
        waiter = Task(loop, one(loop, w, r, number))
        watch = loop.call_after(60.0, waiter.cancel)
        try:
            await waiter
        except CancelledError:
            raise Violation('hang', f'{number} {r}')
        watch.cancel()
        if w.server.bad:
            raise Violation('bad-request', f'{w.server.bad[0][1]} {number} {r}')
    for conn in w.conns:
        if not conn.parser.idle() or conn.bad:
            raise Violation('left-over', f'{conn.parser.state} {bytes(conn.parser.buffer)[:200]!r} {w.plan["requests"]}')
    for value in w.reusable.values():
        (value[0] if isinstance(value, tuple) else value).real_close()
    w.client.close()


def run(plan, sim):
    w = World()
    w.plan = plan
    w.sim = sim
    w.files = 0
    w.changes = []
    w.produced = 0
    w.base = 0
    w.reusable = {}
    w.conns = []
    w.pauses = []
    w.current = None
    cap = plan['params'].get('cap', 65536)
    w.bound = 2 * cap + 2 * 65536 + 4096
    w.consumed = lambda: sum(conn.received for conn in w.conns) - w.base
    w.directory = tempfile.mkdtemp(prefix='vp-c27-')
    # The names of the files are sent; they have to be the same in every run.
    before = os.getcwd()
    os.chdir(w.directory)

    def handler(conn, request):
        conn.play(b'HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\n' + (b'' if request.method == 'HEAD' else b'ok'), [])

    def apply(changes):
        for function in changes:
            function()

    def on_head(conn, request):
        if w.changes:
            sim.at(sim.now + w.current['change_after'], apply, w.changes)
            w.changes = []

    def on_data(conn, data):
        consumed = w.consumed()
        if w.pauses and consumed >= w.pauses[0][0]:
            _, duration = w.pauses.pop(0)
            conn.end.pause_rx = True
            sim.at(sim.now + duration, conn.end.resume_rx)

    servers = [H.Server(sim, '10.0.0.1', 8080, handler, on_data=on_data, on_head=on_head), H.Server(sim, 'fd00::1', 8080, handler, on_data=on_data, on_head=on_head)]
    servers[1].requests = servers[0].requests
    servers[1].bad = servers[0].bad
    for server in servers:
        server.on_accept = w.conns.append
    w.server = servers[0]
    try:
        with H.hosts({'host.example': ['10.0.0.1'], 'HOST.Example.': ['10.0.0.1'], 'host.example.': ['10.0.0.1']}):
            run_async(sim, program, w)
    finally:
        w.client = None
        os.chdir(before)
        shutil.rmtree(w.directory)
