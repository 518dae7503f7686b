"""Redirects are followed safely and within the limit."""
import io
import time
from email.utils import formatdate
from urllib.parse import parse_qsl, quote, unquote, urljoin, urlsplit

from ..world import *
from .. import http as H
from scarletio.core import ReuBytesIO
from scarletio.http_client import HTTPClient
from scarletio.utils import IgnoreCaseMultiValueDictionary
from scarletio.web_common import URL, BasicAuthorization, FormData, PayloadError

BUDGET = {'quick': 10000, 'thorough': 300000}
RULE = ('One evaluation is one to three requests of one client, each answered by a chain of up to six redirects over several hosts, ports and '
        'statuses with every form of Location, cookies and failing hops, with a method, body, credentials and a limit. Every request a server '
        'gets is compared with what the redirect prescribes and with which credentials and cookies may be sent there.')
ASSUMPTIONS = ['The servers are reference peers of the simulation, the network, the resolver and the clocks are simulated.',
               'A limit of 0 returns the redirect itself.']
STUBS = ['servers', 'host resolution']
HOSTS = [('a.example', 80), ('a.example', 8080), ('b.example', 80), ('sub.a.example', 80), ('10.0.0.9', 80), ('nota.example', 80)]
TABLE = {'a.example': ['10.0.0.1'], 'b.example': ['10.0.0.2'], 'sub.a.example': ['10.0.0.3'], 'nota.example': ['10.0.0.4']}
TABLE.update({name.upper(): ips for name, ips in TABLE.items()})
IPS = {**{name: ips[0] for name, ips in TABLE.items()}, '10.0.0.9': '10.0.0.9'}
PATHS = ['/', '/p', '/p/q', '/p/q/r', '/other', '/a%2Fb/c', '/a+b', '/x%20y', '/%C3%BC/%E6%97%A5', '/p;v=1', '/pq']
QUERIES = ['', '', '?a=1', '?a=1&b=%26%3D', '?a=x+y', '?a=%2B', '?u=http%3A%2F%2Fb.example%2F%3Fz%3D1', '?a=%C3%BC']


def gen(rng):
    chains = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        hops = []
        for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 6])):
            hops.append({
                'status': rng.choice([301, 302, 303, 307, 308, 301, 302, 303, 307, 308, 300, 304]),
                'form': rng.choice(['absolute'] * 6 + ['path', 'path', 'path', 'relative', 'relative', 'query', 'network', 'missing', 'scheme', 'bad', 'upper', 'fragment',
                                                       'user', 'uri']),
                'host': rng.randrange(len(HOSTS)), 'path': rng.randrange(len(PATHS)), 'query': rng.randrange(len(QUERIES)),
                'relative': rng.choice(['next', './next', '../next', 'x/y', '../../n?q=1', 'z/../n', '/p/./../n', 'n;x=1?a=b'])})
        hops.append({'status': 200, 'form': 'missing', 'host': 0, 'path': 0, 'query': 0, 'relative': ''})
        for hop in hops:
            hop.update(
                cookies=[[rng.choice([None, None, 'self', 'parent', 'other', 'dot', 'sibling']), rng.choice([None, '/', '/', '/p', '/p/q/', '/other', 'bad']),
                          rng.choice([None, None, None, 'age0', 'age1', 'age', 'past', 'future', 'bad-age', 'bad-date', 'huge-age', 'secure', 'again'])]
                         for _ in range(rng.choice([0, 0, 1, 1, 3]))],
                body=rng.choice([0, 0, 10, 5000, 100000]), framing=rng.choice(['length', 'chunked', 'close']), close=rng.random() < 0.2,
                early=rng.random() < 0.15, delay=rng.choice([0.0, 0.0, 0.01, 0.6, 2.5]), fault=rng.choice([None] * 14 + ['rst', 'close', 'cut', 'never', 'cut-body', 'stall-body']))
        chains.append({
            'host': rng.randrange(len(HOSTS)), 'path': rng.randrange(len(PATHS)), 'query': rng.randrange(len(QUERIES)),
            'method': rng.choice(['GET', 'GET', 'POST', 'POST', 'PUT', 'HEAD', 'DELETE', 'PATCH']),
            'data': rng.choice([None, None, 'bytes', 'str', 'form', 'multipart', 'bytesio', 'stream', 'iterable', 'reu', 'file-form']), 'size': rng.choice([1, 100, 5000, 100000]),
            'limit': rng.choice([None, None, 10, 10, 10, 0, 1, 2, 3, 4]), 'authorization': rng.choice([None, None, 'header', 'param', 'url']),
            'cookie': rng.random() < 0.25, 'own_host': rng.random() < 0.1, 'param_query': rng.random() < 0.2, 'api': rng.choice(['request', 'request2']),
            'history': rng.random() < 0.5, 'hops': hops})
    return {'params': swarm(rng, delay_min=[0.0, 0.001], delay_max=[0.001, 0.005], short=[0.0, 0.3], segment=[0.0, 0.5], eagain=[0.0, 0.2],
                            late=[None, 0.2], late_max=[0.002], cap=[65536, 65536, 6000], tick=[1e-7]), 'chains': chains}


def valid(plan):
    return bool(plan['chains']) and all(
        c['hops'] and c['hops'][-1]['status'] == 200 and c['size'] and all(len(k) == 3 for h in c['hops'] for k in h['cookies'])
        and all(h['status'] >= 200 for h in c['hops']) for c in plan['chains'])


class World:
    pass


class Repeatable:
    """Can be iterated any number of times."""
    def __init__(self, body):
        self.body = body

    def __aiter__(self):
        return stream_of(self.body)


async def stream_of(body):
    half = len(body) // 2
    yield body[:half]
    yield body[half:]


def origin(url):
    split = urlsplit(url)
    return split.hostname, split.port or 80


def natural_host(url):
    host, port = origin(url)
    return host if port == 80 else f'{host}:{port}'


def location_of(base, hop):
    """-> Location header's value"""
    host, port = HOSTS[hop['host'] % len(HOSTS)]
    netloc = host if port == 80 else f'{host}:{port}'
    path = PATHS[hop['path'] % len(PATHS)]
    query = QUERIES[hop['query'] % len(QUERIES)]
    form = hop['form']
    return {
        'absolute': f'http://{netloc}{path}{query}', 'upper': f'HTTP://{netloc.upper()}{path}{query}', 'path': path + query,
        'relative': hop['relative'], 'query': query or '?z=9', 'network': f'//{netloc}{path}{query}', 'missing': None, 'scheme': 'ftp://b.example/x',
        'bad': ['http://[fd00::1/', 'http://b.example:abc/', 'http:// b.example/', 'mailto:x@b.example'][hop['path'] % 4],
        'fragment': f'http://{netloc}{path}{query}#frag', 'user': f'http://new:pw@{netloc}{path}{query}', 'uri': f'http://{netloc}{path}{query}'}[form]


def default_path(path):
    index = path.rfind('/')
    return path[:index] if index > 0 else '/'


def path_match(path, cookie_path):
    return path == cookie_path or (path.startswith(cookie_path) and (cookie_path.endswith('/') or path[len(cookie_path)] == '/'))


class Cookie:
    def __init__(self, sim, name, value, setter, request_path, domain, path, kind, delay):
        self.name = name
        self.value = value
        host = setter
        is_ip = host == '10.0.0.9'
        self.host_only = domain is None
        self.accepted = not is_ip
        if domain is None:
            self.domain = host
            attribute = None
        else:
            parts = host.split('.')
            self.domain = {'self': host, 'dot': host, 'parent': '.'.join(parts[1:]) if len(parts) > 2 else host, 'other': 'zzz.example',
                           'sibling': 'b.example' if host != 'b.example' else 'a.example'}[domain]
            attribute = ('.' if domain == 'dot' else '') + self.domain
            if not (host == self.domain or host.endswith('.' + self.domain)):
                self.accepted = False
        self.path = path if path is not None and path.startswith('/') else default_path(unquote(request_path))
        self.secure = kind == 'secure'
        self.seen = False       # by the client for sure
        self.plain = domain is None and path == '/' and kind in (None, 'age', 'future', 'bad-age', 'bad-date', 'huge-age')
        # at the latest, by the clock of the simulation; the server's answer may be late
        self.expires = {'age0': -1.0, 'age1': sim.now + delay + 1.3, 'past': -1.0}.get(kind)
        text = f'{name}={value}'
        if attribute is not None:
            text += f'; Domain={attribute}'
        if path is not None:
            text += f'; Path={path if path != "bad" else "p"}'
        text += {'age0': '; Max-Age=0', 'age1': '; Max-Age=1', 'age': '; Max-Age=1000', 'past': '; Expires=' + formatdate(time.time() - 3600, usegmt=True),
                 'future': '; Expires=' + formatdate(time.time() + 3600, usegmt=True), 'bad-age': '; Max-Age=x', 'bad-date': '; Expires=Sun, 31 Feb 2027 10:00:00 GMT',
                 'huge-age': '; Max-Age=1' + '0' * 400, 'secure': '; Secure; HttpOnly'}.get(kind, '')
        self.text = text

    def allowed(self, host, path, since):
        if not self.accepted or self.secure:
            return False
        if self.expires is not None and since >= self.expires:
            return False
        if host == '10.0.0.9':
            return False
        if host != self.domain and (self.host_only or not host.endswith('.' + self.domain)):
            return False
        return path_match(unquote(path), self.path)


def data_of(c):
    """-> data, expected: None | bytes | multipart name and value, can it be sent again"""
    body = H.make_body(c['size'], c['size'])
    kind = c['data']
    if kind is None:
        return None, None, True
    if kind == 'bytes':
        return body, body, True
    if kind == 'str':
        return 'ü' * c['size'], ('ü' * c['size']).encode(), True
    if kind == 'form':
        return {'a': 'x y', 'b': '&'}, b'a=x+y&b=%26', True
    if kind == 'multipart':
        form = FormData()
        form.add_field('f', body, file_name='x.bin')
        return form, ('multipart', body), True
    if kind == 'file-form':
        form = FormData()
        form.add_field('f', io.BytesIO(body), file_name='x.bin')
        return form, ('multipart', body), False
    if kind == 'bytesio':
        return io.BytesIO(body), body, False
    if kind == 'iterable':
        return Repeatable(body), body, True
    if kind == 'reu':
        stream = ReuBytesIO()
        stream.write(body)
        stream.seek(0)
        return stream, body, True
    return stream_of(body), body, False


def check_cookies(w, request, url, hop0_host, same, c, text):
    host, _ = origin(url)
    path = urlsplit(url).path or '/'
    cookie_headers = H.get(request.headers, 'cookie')
    if len(cookie_headers) > 1:
        raise Violation('cookies', f'more headers {text}')
    got = {}
    for part in (cookie_headers[0].split(';') if cookie_headers else []):
        name, _, value = part.strip().partition('=')
        if name in got:
            raise Violation('cookies', f'duplicated {text}')
        got[name] = value
    for name, value in got.items():
        if name == 'own':
            if not c['cookie'] or host != hop0_host:
                raise Violation('cookie-leak', f'the cookie of the user is sent to {host}; {text}')
            continue
        cookie = w.cookies.get((name, value))
        if cookie is None:
            raise Violation('cookies', f'unknown {name}={value}; {text}')
        if not cookie.allowed(host, path, request.built):
            raise Violation('cookie-leak', f'{cookie.text} of {cookie.domain} is sent to {host}{path}; {text}')
    if c['cookie'] and same and 'own' not in got:
        raise Violation('cookies', f'the cookie of the user is not sent {text}')
    for cookie in w.cookies.values() if not w.upper else ():
        if cookie.seen and cookie.plain and cookie.accepted and w.latest[cookie.name] is cookie and host == cookie.domain and cookie.name not in got:
            raise Violation('cookies', f'{cookie.text} is not sent; {text}')


def check_request(w, request, k):
    c = w.chain
    url = w.urls[k]
    text = f'hop {k} of {w.urls} {request.method} {request.target} {request.headers} {c}'
    split = urlsplit(url)
    if request.method != w.methods[k]:
        raise Violation('method', f'expected {w.methods[k]}; {text}')
    target_path, _, target_query = request.target.partition('?')
    query = parse_qsl(split.query, keep_blank_values=True) + ([('more', 'x y')] if c['param_query'] and k == 0 else [])
    if [unquote(p) for p in target_path.split('/')] != [unquote(p) for p in (split.path or '/').split('/')] \
            or sorted(set(parse_qsl(target_query, keep_blank_values=True))) != sorted(set(query)):
        raise Violation('target', f'expected {url}; {text}')
    same = all(origin(u) == origin(w.urls[0]) for u in w.urls[:k + 1])
    loose = same
    same = same and not w.upper
    hosts = H.get(request.headers, 'host')
    if c['own_host']:
        hosts = [h.lower() for h in hosts]
        ok = hosts == ['own.example'] if k == 0 else hosts in ([natural_host(url)], ['own.example'] if loose else [natural_host(url)])
    else:
        ok = [h.lower() for h in hosts] == [natural_host(url)]
    if not ok:
        raise Violation('host', text)
    authorization = H.get(request.headers, 'authorization')
    allowed = []
    if c['authorization'] is not None:
        if loose or origin(url)[0] == origin(w.urls[0])[0]:
            allowed.append(['Basic dXNlcjpwdw=='])
    if any(urlsplit(u).username is not None and origin(u)[0] == origin(url)[0] for u in w.urls[:k + 1]):
        allowed.append(['Basic bmV3OnB3'])
    if split.username is None and not (same and c['authorization'] is not None) or k:
        if not (same and c['authorization'] is not None and split.username is None):
            allowed.append([])
    if authorization not in allowed:
        raise Violation('authorization', f'{authorization} not in {allowed} {text}')
    if H.get(request.headers, 'x-a') != ['1']:
        raise Violation('headers', text)
    check_cookies(w, request, url, origin(w.urls[0])[0], same, c, text)


def check_body(w, request, k):
    text = f'hop {k} of {w.urls} {request.method} {request.target} {request.headers} {w.chain}'
    expected = w.bodies[k]
    types = H.get(request.headers, 'content-type')
    if expected is None:
        if request.body or types or H.get(request.headers, 'transfer-encoding') or H.get(request.headers, 'content-length') not in ([], ['0']):
            raise Violation('body', f'unexpected; {text}')
        return
    if isinstance(expected, bytes):
        if request.body != expected or len(types) != 1:
            raise Violation('body', f'{len(request.body)} of {len(expected)}; {text}')
        return
    boundary = types[0].partition('boundary=')[2].strip('"').encode()
    if not boundary or not request.body.startswith(b'--' + boundary + b'\r\n') or not request.body.endswith(b'\r\n--' + boundary + b'--\r\n') \
            or b'\r\n\r\n' + expected[1] + b'\r\n--' not in request.body:
        raise Violation('body', f'{request.body[:100]!r} {text}')


async def one(loop, w, number, c):
    w.chain = c
    w.since = w.sim.now
    w.number = number
    w.count = 0
    w.final = None
    host, port = HOSTS[c['host'] % len(HOSTS)]
    netloc = host if port == 80 else f'{host}:{port}'
    start = f'http://{netloc}{PATHS[c["path"] % len(PATHS)]}{QUERIES[c["query"] % len(QUERIES)]}'
    data, expected, again = data_of(c)
    # what has to happen
    limit = 3 if c['limit'] is None else c['limit']
    w.urls = [start]
    w.methods = [c['method']]
    w.bodies = [expected]
    w.statuses = []
    outcome = None          # 'response' | 'error' | 'any'
    left = limit
    tolerant = False
    for k, hop in enumerate(c['hops']):
        if hop['fault'] is not None:
            if hop['fault'] not in ('cut-body', 'stall-body'):
                outcome = 'error'
                break
            tolerant = True     # the body of a redirect is not read
        if hop['status'] not in (301, 302, 303, 307, 308) or not limit:
            outcome = 'response'
            break
        base = w.urls[-1]
        location = location_of(base, hop)
        if location is None:
            outcome = 'response'
            break
        left -= 1
        if left < 0 or hop['form'] in ('scheme', 'bad'):
            outcome = 'error'
            break
        target = urljoin(base, location)
        split = urlsplit(target)
        target = split._replace(scheme=split.scheme.lower(), netloc=split.netloc if '@' in split.netloc else split.netloc.lower()).geturl()
        method, body = w.methods[-1], w.bodies[-1]
        if (hop['status'] == 303 and method != 'HEAD') or (hop['status'] in (301, 302) and method == 'POST'):
            method = 'GET'
            body = None
        if body is not None and not again:
            outcome = 'error'
            break
        w.statuses.append(hop['status'])
        w.urls.append(target)
        w.methods.append(method)
        w.bodies.append(body)
    text = f'outcome {outcome} urls {w.urls} {w.methods} {c}'
    headers = IgnoreCaseMultiValueDictionary()
    headers['X-A'] = '1'
    keyword = {}
    url = start
    api = w.client.request if c['api'] == 'request' and c['authorization'] != 'param' else w.client.request2
    if c['authorization'] == 'header':
        headers['Authorization'] = 'Basic dXNlcjpwdw=='
    elif c['authorization'] == 'param':
        keyword['authorization'] = BasicAuthorization('user', 'pw')
    elif c['authorization'] == 'url':
        url = url.replace('://', '://user:pw@')
    if c['cookie']:
        headers['Cookie'] = 'own=1'
    if c['own_host']:
        headers['Host'] = 'own.example'
    if c['param_query']:
        keyword['query'] = {'more': 'x y'}
    if data is not None:
        keyword['data'] = data
    if c['limit'] is not None:
        keyword['redirects'] = c['limit']
    before = [(str(k), v) for k, v in headers.items()]
    try:
        async with api(c['method'], URL(url, True), headers, **keyword) as response:
            w.sim.log('response', response.status)
            w.see()
            w.kept.append(response)
            if outcome == 'error':
                raise Violation('outcome', f'a response {response.status}; {text}')
            hop = c['hops'][len(w.urls) - 1]
            if response.status != hop['status'] or w.count != len(w.urls):
                raise Violation('outcome', f'{response.status} after {w.count} requests; {text}')
            history = [r.status for r in response.history]
            if history != w.statuses:
                raise Violation('history', f'{history} {w.statuses}; {text}')
            if response.method != w.methods[-1]:
                raise Violation('response-method', f'{response.method} {text}')
            if str(response.url.host).lower() != origin(w.urls[-1])[0]:
                raise Violation('response-url', f'{response.url} {text}')
            if hop['fault'] == 'stall-body':
                response.close()
                return
            if hop['fault'] is not None:
                try:
                    body = await response.read()
                except (ConnectionError, PayloadError, OSError):
                    return
                if w.final is None:
                    return
                raise Violation('outcome', f'a complete response {response.status}; {text}')
            body = await response.read()
            if (body or b'') != w.final:
                raise Violation('response-body', f'{text}')
    except Violation:
        raise
    except CancelledError:
        raise
    except (ConnectionError, PayloadError, ValueError, OSError) as exception:
        w.sim.log('error', type(exception).__name__)
        w.kept.append(exception)
        if w.violation is not None:
            raise w.violation
        if outcome == 'response' and not tolerant:
            early = any(h['early'] for h in c['hops'][:len(w.urls)]) and c['data'] is not None
            if not early:
                raise Violation('outcome', f'{exception!r} {text}')
    if w.count > len(w.urls):
        raise Violation('requests', f'{w.count} {text}')
    if before != [(str(k), v) for k, v in headers.items()]:
        raise Violation('headers-changed', f'{before} {headers} {text}')


async def program(loop, w):
    sim = w.sim
    w.client = HTTPClient(loop)
    for number, c in enumerate(w.plan['chains']):
        waiter = Task(loop, one(loop, w, number, c))
        watch = loop.call_after(200.0, waiter.cancel)
        try:
            await waiter
        except CancelledError:
            raise Violation('hang', f'{number} {c}')
        watch.cancel()
        if w.violation is not None:
            raise w.violation
        for server in w.servers:
            for conn, exception in server.bad:
                raise Violation('bad-request', f'{exception} {number} {c}')
    # Everything the chains used is let go: what is left are pooled connections, which time out.
    await sleep(60.0, loop)
    left = [obj for obj in sim.net.fds.values() if isinstance(getattr(obj, 'peer_address', None), tuple) and not obj.callback and not obj.local]
    if left:
        raise Violation('leak', f'{[obj.peer_address for obj in left]} {w.plan["chains"]}')
    w.kept.clear()
    w.client.close()


def run(plan, sim):
    w = World()
    w.plan = plan
    w.sim = sim
    w.violation = None
    w.servers = []
    w.cookies = {}
    w.latest = {}
    w.kept = []             # neither of them may keep a connection
    w.upper = any(hop['form'] == 'upper' for c in plan['chains'] for hop in c['hops'])
    w.count = 0

    def answer(conn, request):
        k = request.hop
        c = w.chain
        hop = c['hops'][min(k, len(c['hops']) - 1)]
        url = w.urls[min(k, len(w.urls) - 1)]
        fault = hop['fault']
        if fault in ('rst', 'close'):
            conn.finish(fault, hop['delay'])
            return
        if fault == 'never':
            return
        head = f'HTTP/1.1 {hop["status"]} X\r\n'
        location = location_of(url, hop)
        if location is not None:
            head += ('URI' if hop['form'] == 'uri' else 'Location') + f': {location}\r\n'
        host = origin(url)[0]
        for index, (domain, path, kind) in enumerate(hop['cookies']):
            name = 'again' if kind == 'again' and domain is None else f'c{w.number}x{k}x{index}'
            cookie = Cookie(sim, name, f'v{w.number}x{k}x{index}', host, urlsplit(url).path or '/', domain, '/' if name == 'again' else path, kind, hop['delay'])
            if name == 'again':
                # one name for every host
                cookie.plain = False
            w.cookies[(cookie.name, cookie.value)] = cookie
            w.latest[cookie.name] = cookie
            head += f'Set-Cookie: {cookie.text}\r\n'
        body = H.make_body(k + 1, hop['body'])
        close = hop['close'] or hop['framing'] == 'close' or fault is not None
        if hop['status'] == 304:
            body = b''
            payload = b''
        elif hop['framing'] == 'length':
            head += f'Content-Length: {len(body)}\r\n'
            payload = body
        elif hop['framing'] == 'chunked':
            head += 'Transfer-Encoding: chunked\r\n'
            payload = (f'{len(body):x}\r\n'.encode() + body + b'\r\n' if body else b'') + b'0\r\n\r\n'
        else:
            payload = body
        if close:
            head += 'Connection: close\r\n'
        if request.method == 'HEAD':
            body = payload = b''
        w.final = body
        out = head.encode() + b'\r\n'
        if fault == 'cut':
            out = out[:len(out) * 2 // 3]
        elif fault in ('cut-body', 'stall-body'):
            if hop['framing'] == 'close' or not payload:
                w.final = None
            out += payload[:len(payload) // 2]
        else:
            out += payload
        conn.play(out, [], hop['delay'])
        w.since = sim.now + hop['delay']
        if close and fault != 'stall-body':
            conn.finish('fin' if fault is None else 'close')

    def see():
        for cookie in w.cookies.values():
            if cookie.value.startswith(f'v{w.number}x'):
                cookie.seen = True
    w.see = see

    def on_head(conn, request):
        if getattr(request, 'hop', None) is not None:
            return
        request.hop = w.count
        if w.count:
            see()
        w.count += 1
        # at the earliest
        request.built = w.since
        request.answered = False
        if w.violation is None:
            try:
                if request.hop >= len(w.urls):
                    raise Violation('requests', f'hop {request.hop} {request.method} {request.target} of {w.urls} {w.chain}')
                server = conn.server
                expected = w.urls[request.hop]
                host, port = origin(expected)
                if (server.ip, server.port) != (IPS[host], port):
                    raise Violation('server', f'{server.ip}:{server.port} expected {expected} {w.chain}')
                check_request(w, request, request.hop)
            except Violation as violation:
                w.violation = violation
        hop = w.chain['hops'][min(request.hop, len(w.chain['hops']) - 1)]
        if hop['early'] and w.violation is None:
            request.answered = True
            answer(conn, request)

    def handler(conn, request):
        on_head(conn, request)
        if w.violation is not None:
            conn.end.raw_rst()
            return
        try:
            if not request.answered:
                check_body(w, request, request.hop)
                answer(conn, request)
        except Violation as violation:
            w.violation = violation
            conn.end.raw_rst()

    for host, port in HOSTS:
        w.servers.append(H.Server(sim, IPS[host], port, handler, on_head=on_head))
    try:
        with H.hosts(TABLE):
            run_async(sim, program, w)
    finally:
        w.client = None
        w.kept.clear()
