"""HTTP/1 reference peer: strict request parser, response encoder and raw servers on the simulated network."""
import gzip, random, zlib, contextlib
from . import seams

seams.install()

from scarletio.core.event_loop import event_loop as event_loop_module

WORDS = [b'lorem ', b'ipsum ', b'dolor ', b'{"a": [1, 2]} ', b'\r\n', b'0\r\n\r\n', b'\x00\xff', b'sit amet ']


def make_body(seed, size, kind='bytes'):
    rng = random.Random(f'body{seed}')
    if kind == 'random':
        return rng.randbytes(size)
    if kind == 'text':
        return ''.join(rng.choice('abcdé x\n') for _ in range(size)).encode()
    out = bytearray()
    while len(out) < size:
        out += rng.choice(WORDS)
    return bytes(out[:size])


def compress(data, coding, cut=None):
    if coding in ('gzip', 'x-gzip'):
        return gzip.compress(data, mtime=0)
    if coding == 'gzip-multi':
        half = len(data) // 2
        return gzip.compress(data[:half], mtime=0) + gzip.compress(data[half:], mtime=0)
    if coding == 'deflate':
        return zlib.compress(data)
    if coding == 'deflate-raw':
        c = zlib.compressobj(wbits=-zlib.MAX_WBITS)
        return c.compress(data) + c.flush()
    return data


CODING_HEADER = {'gzip': 'gzip', 'gzip-multi': 'gzip', 'deflate': 'deflate', 'deflate-raw': 'deflate', 'identity': 'identity'}


def reads_body(method, status):
    return method != 'HEAD' and status not in (204, 304) and not 100 <= status < 200


class Wire:
    """An encoded response."""
    def __init__(self, spec, method, body=None):
        self.spec = spec
        status = spec['status']
        self.status = status
        self.reason = spec.get('reason')
        line = f'HTTP/{spec.get("version", "1.1")} {status}'
        if self.reason is not None:
            line += f' {self.reason}'
        headers = [list(h) for h in spec.get('headers', [])]
        if body is None:
            body = make_body(spec.get('seed', 0), spec['size'], spec.get('kind', 'bytes'))
        self.body = body
        has_body = reads_body(method, status)
        coding = spec.get('coding')
        payload = compress(body, coding)
        if coding:
            headers.append([spec.get('coding_name', 'Content-Encoding'), CODING_HEADER[coding]])
        framing = spec['framing']
        announce = status not in (204,) and not 100 <= status < 200
        if framing == 'length' and announce:
            headers.append([spec.get('length_name', 'Content-Length'), str(len(payload))])
        elif framing == 'chunked' and announce:
            headers.append(['Transfer-Encoding', spec.get('chunked_value', 'chunked')])
        random.Random(f'order{spec.get("order", 0)}').shuffle(headers)
        self.headers = [(name, ' '.join(p.strip(' \t') for p in value.split('\r\n'))) for name, value in headers]
        style = spec.get('style', 0)
        lines = [line]
        for name, value in headers:
            lines.append(f'{name}:{" " if style != 1 else ""}{value}{"  " if style == 2 else ""}')
        self.head = ('\r\n'.join(lines) + '\r\n\r\n').encode('utf-8', 'surrogateescape')
        self.payload = payload
        self.data = self.head
        self.chunk_marks = []
        if has_body:
            if framing == 'chunked':
                out = bytearray(self.head)
                sizes = list(spec.get('chunks') or [len(payload)])
                position = 0
                index = 0
                while position < len(payload):
                    size = min(max(1, sizes[index % len(sizes)]), len(payload) - position)
                    index += 1
                    self.chunk_marks.append(len(out))
                    text = format(size, 'X' if style == 1 else 'x')
                    if style == 2:
                        text = '00' + text
                    out += text.encode() + (spec.get('extension') or '').encode() + b'\r\n'
                    out += payload[position:position + size] + b'\r\n'
                    position += size
                self.chunk_marks.append(len(out))
                out += b'0' + (spec.get('extension') or '').encode() + b'\r\n'
                for name, value in spec.get('trailers') or ():
                    out += f'{name}: {value}\r\n'.encode()
                out += b'\r\n'
                self.data = bytes(out)
            else:
                self.data = self.head + payload
        self.has_body = has_body
        self.until_close = has_body and framing == 'close'
        # the user sees no body at all where none can be
        self.user_body = body if has_body else None


class BadRequest(Exception):
    pass


class Request:
    pass


TOKEN = frozenset(b"!#$%&'*+-.^_`|~0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz")


def parse_head(head):
    lines = head.split(b'\r\n')
    parts = lines[0].split(b' ')
    if len(parts) != 3:
        raise BadRequest(f'request line {lines[0]!r}')
    method, target, version = parts
    if not method or not all(c in TOKEN for c in method):
        raise BadRequest(f'method {method!r}')
    if not target or any(c <= 32 or c >= 127 for c in target) or b'#' in target:
        raise BadRequest(f'target {target!r}')
    if version != b'HTTP/1.1':
        raise BadRequest(f'version {version!r}')
    headers = []
    for line in lines[1:]:
        name, sep, value = line.partition(b':')
        if not sep or not name or not all(c in TOKEN for c in name):
            raise BadRequest(f'header line {line!r}')
        if b'\r' in value or b'\n' in value or b'\0' in value:
            raise BadRequest(f'header value {value!r}')
        headers.append((name.decode(), value.strip(b' \t').decode('utf-8', 'surrogateescape')))
    request = Request()
    request.method = method.decode()
    request.target = target.decode()
    request.headers = headers
    return request


def get(headers, name):
    return [v for n, v in headers if n.lower() == name.lower()]


class RequestParser:
    """Incremental, strict."""
    def __init__(self):
        self.buffer = bytearray()
        self.request = None
        self.body = None
        self.state = 'head'
        self.need = 0
        self.raw_until = None

    def feed(self, data):
        """-> list of complete requests; raises BadRequest"""
        self.buffer += data
        out = []
        while True:
            if self.state == 'head':
                index = self.buffer.find(b'\r\n\r\n')
                if index == -1:
                    break
                head = bytes(self.buffer[:index])
                del self.buffer[:index + 4]
                self.request = request = parse_head(head)
                self.body = bytearray()
                self.chunks = []
                lengths = get(request.headers, 'content-length')
                codings = get(request.headers, 'transfer-encoding')
                if lengths and codings:
                    raise BadRequest(f'content length with transfer encoding {request.headers}')
                request.chunked = bool(codings)
                request.length = None
                if codings:
                    if codings != ['chunked']:
                        raise BadRequest(f'transfer encoding {codings}')
                    self.state = 'size'
                elif lengths:
                    if len(lengths) > 1 or not lengths[0].isascii() or not lengths[0].isdigit():
                        raise BadRequest(f'content length {lengths}')
                    request.length = self.need = int(lengths[0])
                    self.state = 'body'
                else:
                    self.state = 'done'
            elif self.state == 'body':
                if len(self.buffer) < self.need:
                    break
                self.body += self.buffer[:self.need]
                del self.buffer[:self.need]
                self.state = 'done'
            elif self.state == 'size':
                index = self.buffer.find(b'\r\n')
                if index == -1:
                    break
                line = bytes(self.buffer[:index])
                del self.buffer[:index + 2]
                if not line or not all(c in b'0123456789abcdefABCDEF' for c in line):
                    raise BadRequest(f'chunk size {line!r}')
                self.need = int(line, 16)
                self.state = 'data' if self.need else 'last'
            elif self.state == 'data':
                if len(self.buffer) < self.need + 2:
                    break
                self.body += self.buffer[:self.need]
                if self.buffer[self.need:self.need + 2] != b'\r\n':
                    raise BadRequest('chunk end')
                del self.buffer[:self.need + 2]
                self.chunks.append(self.need)
                self.state = 'size'
            elif self.state == 'last':
                if len(self.buffer) < 2:
                    break
                if self.buffer[:2] != b'\r\n':
                    raise BadRequest('last chunk')
                del self.buffer[:2]
                self.state = 'done'
            if self.state == 'done':
                request = self.request
                request.body = bytes(self.body)
                self.request = None
                self.state = 'head'
                out.append(request)
        return out

    def idle(self):
        return self.state == 'head' and not self.buffer


class Conn:
    """A connection as its server sees it."""
    def __init__(self, server, end, index):
        self.server = server
        self.sim = server.sim
        self.end = end
        self.index = index
        self.parser = RequestParser()
        self.requests = []
        self.bad = None
        self.received = 0
        self.eof = self.reset = False
        self.closed_at = None
        self.raw = bytearray()
        self.next_at = 0.0
        self.head_seen = None
        self.over = False           # upgraded / no further parsing
        end.callback = self.on

    def on(self, end, kind, data):
        sim = self.sim
        if kind == 'data':
            self.received += len(data)
            if self.over:
                self.server.on_raw(self, data)
                return
            self.raw += data
            if self.server.on_data is not None:
                self.server.on_data(self, data)
            try:
                requests = self.parser.feed(data)
            except BadRequest as exception:
                if self.bad is None:
                    self.bad = exception
                    self.server.bad.append((self, exception))
                return
            current = self.parser.request
            if current is not None and current is not self.head_seen and self.server.on_head is not None:
                self.head_seen = current
                self.server.on_head(self, current)
            for request in requests:
                request.conn = self
                request.number = len(self.requests)
                request.at = sim.now
                self.requests.append(request)
                self.server.requests.append(request)
                sim.log('request', request.method, request.target, len(request.body))
                self.server.handler(self, request)
        elif kind == 'eof':
            self.eof = True
            if self.closed_at is None:
                self.closed_at = sim.now
            self.server.on_end(self)
        else:
            self.reset = True
            if self.closed_at is None:
                self.closed_at = sim.now

    def play(self, data, cuts, start=0.0):
        """Sends data in pieces: cuts is a list of [size, gap]. -> time of the last one"""
        sim = self.sim
        when = max(sim.now + start, self.next_at)
        position = 0
        for size, gap in cuts:
            if position >= len(data):
                break
            when += gap
            sim.at(when, self.end.raw_send, data[position:position + max(1, size)])
            position += max(1, size)
        if position < len(data):
            sim.at(when, self.end.raw_send, data[position:])
        self.next_at = when
        return when

    def finish(self, how, gap=0.0):
        when = max(self.next_at, self.sim.now) + gap
        if how == 'fin':
            self.sim.at(when, self.end.raw_fin)
        elif how == 'close':
            self.sim.at(when, self.end.raw_close)
        elif how == 'rst':
            self.sim.at(when, self.end.raw_rst)
        self.next_at = when
        return when

    def is_open(self):
        return not (self.eof or self.reset)


class Server:
    """A raw http server: `handler(conn, request)` answers."""
    def __init__(self, sim, ip, port, handler, on_data=None, on_head=None):
        self.sim = sim
        self.ip = ip
        self.port = port
        self.handler = handler
        self.on_data = on_data
        self.on_head = on_head      # of requests whose body did not arrive yet
        self.conns = []
        self.requests = []
        self.bad = []
        sim.net.listeners[(ip, port)] = self.accept

    def accept(self, end):
        conn = Conn(self, end, len(self.conns))
        self.conns.append(conn)
        self.sim.log('accept', self.ip, self.port)
        self.on_accept(conn)

    def on_accept(self, conn):
        pass

    def on_raw(self, conn, data):
        pass

    def on_end(self, conn):
        """The client closed its side: so does the server."""
        conn.end.raw_close()


def gen_cuts(rng, total, gaps=(0.0, 0.0, 0.001, 0.004)):
    style = rng.choice([(1, 3), (1, 20), (1, 100), (50, 400), None, None])
    if style is None:
        return []
    out = []
    left = min(total, 120 if style[1] <= 3 else total)
    while left > 0 and len(out) < 150:
        size = rng.randint(*style)
        out.append([size, rng.choice(gaps)])
        left -= size
    return out


@contextlib.contextmanager
def hosts(table, delay=None):
    """Replaces the resolver: table is {host name: [ip, ...]}."""
    import socket
    from scarletio import sleep
    real = event_loop_module.get_address_info_async

    async def fake(event_loop, host_name, port, socket_family=0, socket_type=0, socket_protocol=0, socket_flags=0, **kw):
        if host_name in table:
            if delay is not None:
                await sleep(delay(), event_loop)
            out = []
            for ip in table[host_name]:
                family = socket.AF_INET6 if ':' in ip else socket.AF_INET
                if socket_family and socket_family != family:
                    continue
                out.append((family, socket.SOCK_STREAM, 6, '', (ip, port) if family == socket.AF_INET else (ip, port, 0, 0)))
            if not out:
                raise OSError(-2, 'Name or service not known')
            return out
        return await real(event_loop, host_name, port, socket_family, socket_type, socket_protocol, socket_flags, **kw)

    event_loop_module.get_address_info_async = fake
    try:
        yield
    finally:
        event_loop_module.get_address_info_async = real
