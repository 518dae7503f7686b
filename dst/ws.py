"""Websocket reference codec and peers on the simulated network (written from RFC 6455, independent of the code under test)."""
import base64, hashlib, random, struct
from .http import parse_head, get, BadRequest

GUID = b'258EAFA5-E914-47DA-95CA-C5AB0DC85B11'
CONT, TEXT, BINARY, CLOSE, PING, PONG = 0, 1, 2, 8, 9, 10
ALPHABET = ['a', 'b', 'é', '€', '😀', ' ', '\x00', '\r\n', '0']


def accept_key(key):
    return base64.b64encode(hashlib.sha1(key.encode() + GUID).digest()).decode()


def make_text(seed, size):
    """`size` bytes of utf-8 at most."""
    rng = random.Random(f'text{seed}')
    out = []
    total = 0
    if size > 4000:
        unit = ''.join(rng.choice(ALPHABET) for _ in range(50))
        out.append(unit * (size // len(unit.encode())))
        total = len(out[0].encode())
    while total < size:
        c = rng.choice(ALPHABET)
        n = len(c.encode())
        if total + n > size:
            c, n = 'x', 1
        out.append(c)
        total += n
    return ''.join(out)


def make_binary(seed, size):
    rng = random.Random(f'bin{seed}')
    if size > 4000:
        unit = rng.randbytes(997)
        return (unit * (size // 997 + 1))[:size]
    return rng.randbytes(size)


def mask_bytes(mask, data):
    n = len(data)
    if not n:
        return b''
    pad = (mask * (n // 4 + 1))[:n]
    return (int.from_bytes(data, 'big') ^ int.from_bytes(pad, 'big')).to_bytes(n, 'big')


def encode_frame(op, data, fin=True, rsv=0, mask=None, form=None, length=None):
    data = bytes(data)
    if length is None:
        length = len(data)
    out = bytearray([(0x80 if fin else 0) | (rsv << 4) | op])
    bit = 0x80 if mask is not None else 0
    if form is None:
        form = 0 if length < 126 else 2 if length < 65536 else 8
    if form == 0:
        out.append(bit | length)
    elif form == 2:
        out.append(bit | 126)
        out += struct.pack('>H', length)
    else:
        out.append(bit | 127)
        out += struct.pack('>Q', length)
    if mask is not None:
        out += mask
        data = mask_bytes(mask, data)
    return bytes(out) + data


class BadFrame(Exception):
    pass


def valid_code(code):
    return code in (1000, 1001, 1002, 1003, 1007, 1008, 1009, 1010, 1011, 1012, 1013, 1014) or 3000 <= code < 5000


class FrameParser:
    """Strict: what the code under test sends has to be what the protocol allows."""
    def __init__(self, masked):
        self.masked = masked
        self.buffer = bytearray()
        self.parts = None
        self.kind = None
        self.closed = None          # (code, reason)
        self.transform = None       # of the payload of data frames

    def feed(self, data):
        """-> list of (op, data), data frames as whole messages"""
        self.buffer += data
        out = []
        while True:
            b = self.buffer
            if len(b) < 2:
                break
            fin, rsv, op = b[0] >> 7, (b[0] >> 4) & 7, b[0] & 15
            if rsv:
                raise BadFrame(f'reserved bits {rsv}')
            if bool(b[1] >> 7) is not self.masked:
                raise BadFrame(f'masked={b[1] >> 7}')
            length = b[1] & 127
            at = 2
            if length == 126:
                if len(b) < 4:
                    break
                length, = struct.unpack('>H', b[2:4])
                at = 4
                if length < 126:
                    raise BadFrame('length not minimal')
            elif length == 127:
                if len(b) < 10:
                    break
                length, = struct.unpack('>Q', b[2:10])
                at = 10
                if length < 65536 or length >> 63:
                    raise BadFrame('length not minimal')
            mask = None
            if self.masked:
                mask = bytes(b[at:at + 4])
                at += 4
            if len(b) < at + length:
                break
            data = bytes(b[at:at + length])
            del b[:at + length]
            if mask is not None:
                data = mask_bytes(mask, data)
            if self.closed is not None:
                raise BadFrame(f'frame {op} after the close frame')
            if op >= 8:
                if not fin or length > 125 or op not in (CLOSE, PING, PONG):
                    raise BadFrame(f'control frame {op} {fin} {length}')
                if op == CLOSE:
                    code, reason = 1005, ''
                    if length == 1:
                        raise BadFrame('close frame of 1 byte')
                    if length:
                        code = int.from_bytes(data[:2], 'big')
                        if not valid_code(code):
                            raise BadFrame(f'close code {code}')
                        reason = data[2:].decode('utf-8')
                    self.closed = (code, reason)
                    out.append((op, self.closed))
                else:
                    out.append((op, data))
                continue
            if op == CONT:
                if self.parts is None:
                    raise BadFrame('continuation without start')
            elif op in (TEXT, BINARY):
                if self.parts is not None:
                    raise BadFrame('new message within a message')
                self.parts = []
                self.kind = op
            else:
                raise BadFrame(f'operation {op}')
            if self.transform is not None:
                data = self.transform(data)
            self.parts.append(data)
            if fin:
                data = b''.join(self.parts)
                self.parts = None
                out.append((self.kind, data.decode('utf-8') if self.kind == TEXT else data))
        return out


class Peer:
    """A raw side. After its handshake `on_frame(peer, op, data)` is called for what arrives."""
    def __init__(self, sim, end, is_client, on_open=None, on_frame=None, auto_pong=True, auto_close=True, on_end=None):
        self.sim = sim
        self.end = end
        self.is_client = is_client
        self.parser = FrameParser(not is_client)
        self.head = bytearray()
        self.handshaken = False
        self.on_open = on_open
        self.on_frame = on_frame
        self.on_end = on_end
        self.auto_pong = auto_pong
        self.auto_close = auto_close
        self.frames = []
        self.messages = []
        self.bad = None
        self.eof = self.reset = False
        self.ended_at = None
        self.close_sent = False
        self.next_at = 0.0
        self.deferred = None
        self.rng = random.Random(f'peer{id(type(self)) * 0}')
        end.callback = self.on

    # -- input
    def on(self, end, kind, data):
        if kind == 'data':
            if not self.handshaken:
                self.head += data
                index = self.head.find(b'\r\n\r\n')
                if index == -1:
                    return
                head, rest = bytes(self.head[:index]), bytes(self.head[index + 4:])
                self.handshaken = True
                if self.on_open(self, head) is False:
                    return
                if rest:
                    self.feed(rest)
                return
            self.feed(data)
        else:
            if kind == 'eof':
                self.eof = True
            else:
                self.reset = True
            if self.ended_at is None:
                self.ended_at = self.sim.now
            if self.on_end is not None:
                self.on_end(self, kind)

    def feed(self, data):
        if self.bad is not None:
            return
        try:
            frames = self.parser.feed(data)
        except (BadFrame, UnicodeDecodeError) as exception:
            self.bad = exception
            self.sim.log('bad frame', str(exception))
            return
        for op, value in frames:
            self.frames.append((op, value))
            if op in (TEXT, BINARY):
                self.messages.append(value)
            self.sim.log('peer got', op, len(value) if not isinstance(value, tuple) else value[0])
            if op == PING and self.auto_pong:
                self.send(PONG, value)
            elif op == CLOSE and self.auto_close and not self.close_sent:
                self.send_close(*value)
            if self.on_frame is not None:
                self.on_frame(self, op, value)

    # -- output
    def send(self, op, data, **keyword):
        mask = None
        if self.is_client:
            mask = self.rng.randbytes(4)
        keyword.setdefault('mask', mask)
        data = encode_frame(op, data, **keyword)
        if self.deferred is not None:
            self.deferred += data           # not in the middle of what is being played
        else:
            self.end.raw_send(data)

    def flush(self):
        data = self.deferred
        self.deferred = None
        if data:
            self.end.raw_send(bytes(data))

    def frame(self, op, data, **keyword):
        keyword.setdefault('mask', self.rng.randbytes(4) if self.is_client else None)
        return encode_frame(op, data, **keyword)

    def send_close(self, code=1000, reason=''):
        self.close_sent = True
        data = b'' if code == 1005 else code.to_bytes(2, 'big') + reason.encode()
        self.send(CLOSE, data)

    def play(self, data, cuts, start=0.0):
        when = max(self.sim.now + start, self.next_at)
        position = 0
        self.deferred = bytearray()
        for size, gap in cuts:
            if position >= len(data):
                break
            when += gap
            self.sim.at(when, self.end.raw_send, data[position:position + max(1, size)])
            position += max(1, size)
        if position < len(data):
            self.sim.at(when, self.end.raw_send, data[position:])
        self.sim.at(when, self.flush)
        self.next_at = when
        return when


def server_response(head, extra=()):
    request = parse_head(head)
    key = get(request.headers, 'sec-websocket-key')[0]
    lines = ['HTTP/1.1 101 Switching Protocols', 'Upgrade: websocket', 'Connection: Upgrade',
             f'Sec-WebSocket-Accept: {accept_key(key)}', *extra]
    return ('\r\n'.join(lines) + '\r\n\r\n').encode(), request


def client_request(host, key, extra=(), path='/'):
    lines = [f'GET {path} HTTP/1.1', f'Host: {host}', 'Upgrade: websocket', 'Connection: Upgrade', f'Sec-WebSocket-Key: {key}',
             'Sec-WebSocket-Version: 13', *extra]
    return ('\r\n'.join(lines) + '\r\n\r\n').encode()
