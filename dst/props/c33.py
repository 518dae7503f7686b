"""Streamed archives and resources."""
from ..world import *
from .. import http as H
from .c29 import until
from scarletio.http_client import HTTPClient
from scarletio.streaming import ResourceStreamFunction, ZipStreamFile, create_zip_stream_resource, stream_zip
from datetime import datetime, timezone
import gc
import io
import re
import struct
import zipfile
import zlib

BUDGET = {'quick': 40000, 'thorough': 300000}
RULE = ('One evaluation is a zip archive resource of up to eight files (names colliding in every way, any sizes, chunkings, chunk types, pauses, compression, nested archives, single use or reusable '
        'sources) which is streamed by one to three consumers at once: read directly at any speed, uploaded over simulated http (also redirected, so streamed again), left, closed or cancelled at '
        'any point, while a source may fail or be cancelled at any chunk. Archives are read back by an own strict parser and by the zipfile module.')
ASSUMPTIONS = ['The zipfile module and zlib of Python tell what an archive contains.', 'A single use source is streamed once.']
STUBS = ['server']
NAMES = ['a', 'b', 'a (1)', 'a (2)', 'a (1) (2)', 'a (0)', 'a (01)', 'a.txt', 'a (1).txt', 'dir/a.txt', 'dir/a (1).txt', 'dir/a.txt', 'other/a.txt', 'é', 'é (1)', 'x.tar.gz', 'x (1).tar.gz', '.b', ' (1).b',
         'a\nb', 'a\nb (1)', '(1)', 'a (1', 'd (1).e/f', 'n.zip', 'a (1) (1)', 'a (1) (1) (1)', 'a(1)', 'y' * 300]


class Broken(Exception):
    pass


def gen(rng):
    single = rng.random() < 0.15
    pool = NAMES if rng.random() < 0.5 else rng.choice([['a', 'a (1)', 'a (1) (2)', 'a (2)', 'a (1) (1)'], ['a.txt', 'a (1).txt', 'b'], ['a\nb', 'a\nb (1)', 'a (0)', 'a (01)', 'a'], ['a', 'b', 'é', 'x.tar.gz']])
    files = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 8])):
        files.append(gen_file(rng, pool))
    if files and rng.random() < 0.35:
        file = rng.choice(files)
        file['fail'] = [rng.randint(0, len(file['chunks'])), rng.choice(['error', 'error', 'cancel', 'os'])]
    consumers = []
    for _ in range(1 if single else rng.choice([1, 1, 2, 3])):
        how = rng.choice(['read', 'read', 'http', 'http', 'redirect', 'break', 'close', 'cancel', 'cancel-http'])
        if single and how == 'redirect':
            how = 'http'
        consumers.append({'at': rng.choice([0.0, 0.0, 0.001, 0.01]), 'how': how, 'slow': rng.choice([None, None, 0.0, 0.001]), 'after': rng.randint(0, 30), 'when': rng.choice([0.0, 0.001, 0.005, 0.02]) * rng.random()})
    return {'params': swarm(rng, delay_max=[0.001], segment=[0.0, 0.4], short=[0.0, 0.3], eagain=[0.0, 0.2], cap=[65536, 300], tick=[1e-7]),
            'files': files, 'consumers': consumers, 'single': single, 'dedupe': rng.random() < 0.85, 'instance': rng.random() < 0.1}


def gen_file(rng, pool):
    return {'name': rng.choice(pool), 'seed': rng.randint(0, 999), 'chunks': [[rng.choice([0, 1, 2, 10, 100, 1000, 5000]), rng.choice([None, None, 0.0, 0.001])] for _ in range(rng.choice([0, 1, 1, 2, 5]))],
            'compression': rng.choice([0, 8]), 'type': rng.choice(['bytes', 'bytes', 'bytearray', 'memoryview']), 'fail': None, 'text': rng.random() < 0.5, 'nested': rng.random() < 0.08,
            'date': [rng.randint(1980, 2107), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59)]}


def valid(plan):
    return bool(plan['consumers']) and all(
        file['date'] and len(file['date']) == 6 and 1980 <= file['date'][0] <= 2107 and 1 <= file['date'][1] <= 12 and 1 <= file['date'][2] <= 28 and file['compression'] in (0, 8)
        and all(len(chunk) == 2 for chunk in file['chunks']) and (file['fail'] is None or len(file['fail']) == 2 and file['fail'][1]) for file in plan['files']) and (
        not plan['single'] or len(plan['consumers']) == 1)


SCENARIOS = [
    {'params': {}, 'files': [], 'consumers': [{'at': 0.0, 'how': 'read', 'slow': None, 'after': 0, 'when': 0.0}], 'single': False, 'dedupe': False, 'instance': False, 'many': 65534},
    {'params': {}, 'files': [], 'consumers': [{'at': 0.0, 'how': 'read', 'slow': None, 'after': 0, 'when': 0.0}], 'single': False, 'dedupe': False, 'instance': False, 'many': 65536},
]


class World:
    pass


def content_chunks(file):
    out = []
    for number, (size, gap) in enumerate(file['chunks']):
        body = H.make_body(file['seed'] + number, size)
        if file['text']:
            body = (b'text ' * (size // 5 + 1))[:size]
        out.append((body, gap))
    return out


def expected_content(file):
    return b''.join(body for body, gap in content_chunks(file))


def make_source(w, loop, file):
    async def source():
        w.started += 1
        w.open += 1
        try:
            fail = file['fail']
            for number, (body, gap) in enumerate(content_chunks(file)):
                if gap is not None:
                    await sleep(gap, loop)
                if fail is not None and fail[0] == number:
                    raise make_failure(w, fail[1])
                if file['type'] == 'bytearray':
                    body = bytearray(body)
                elif file['type'] == 'memoryview':
                    body = memoryview(body)
                yield body
            if fail is not None and fail[0] >= len(file['chunks']):
                raise make_failure(w, fail[1])
        finally:
            w.open -= 1
    return source


def make_failure(w, how):
    w.sim.fault('source_' + how)
    exception = {'error': Broken('broken'), 'cancel': CancelledError(), 'os': OSError(5, 'Input/output error')}[how]
    w.failures.append(exception)
    return exception


def make_files(w, loop):
    out = []
    for file in w.plan['files']:
        source = make_source(w, loop, file)
        if file['nested']:
            # an archive within the archive
            inner = source() if w.plan['single'] else ResourceStreamFunction(source)()
            files = [ZipStreamFile('inner', inner, modified_at=datetime(2000, 1, 1, tzinfo=timezone.utc))]
            value = stream_zip(files) if w.plan['single'] else create_zip_stream_resource(files)
        elif w.plan['single']:
            value = source()
        else:
            value = ResourceStreamFunction(source)()
        out.append(ZipStreamFile(file['name'], value, compression_method=file['compression'], modified_at=datetime(*file['date'], tzinfo=timezone.utc)))
    return out


async def nothing():
    return
    yield


def parse(data, files, complete):
    """Strict: local entries back to back, the central directory and the end records right after them. `files` are those which are expected. Returns the names or None if it is cut."""
    at = 0
    entries = []
    for file in files:
        head = data[at:at + 30]
        if len(head) < 30:
            return None
        signature, version, flags, method, mtime, mdate, crc, csize, usize, nlen, elen = struct.unpack('<4sHHHHHLLLHH', head)
        if signature != b'PK\x03\x04':
            raise Bad(f'no local header at {at}: {head!r}')
        if method != file['compression'] or not flags & 8 or elen:
            raise Bad(f'local header {head!r}')
        name = data[at + 30:at + 30 + nlen]
        start = at
        at += 30 + nlen
        want = None if file['nested'] else expected_content(file)
        if method == 8:
            decompressor = zlib.decompressobj(-15)
            body = decompressor.decompress(data[at:])
            if not decompressor.eof:
                return None
            used = len(data) - at - len(decompressor.unused_data)
        else:
            if want is None:
                # its end record tells where it ends
                index = data.find(b'PK\x05\x06', at)
                if index == -1 or len(data) < index + 22:
                    return None
                used = index + 22 - at
            else:
                used = len(want)
            if len(data) < at + used:
                return None
            body = data[at:at + used]
        if want is not None and body != want:
            raise Bad(f'content of {name!r} differs ({len(body)}, {len(want)} bytes)')
        if want is None:
            check_nested(body, file)
        at += used
        descriptor = data[at:at + 24]
        if len(descriptor) < 24:
            return None
        if struct.unpack('<4sLQQ', descriptor) != (b'PK\x07\x08', zlib.crc32(body), used, len(body)):
            raise Bad(f'descriptor of {name!r}: {descriptor!r}')
        at += 24
        entries.append((name, start, zlib.crc32(body), used, len(body), flags, method, mtime, mdate))
    directory = at
    for name, start, crc, used, size, flags, method, mtime, mdate in entries:
        head = data[at:at + 46]
        if len(head) < 46:
            return None
        if struct.unpack('<4sHHHHHHLLLHHHHHLL', head)[3:] != (flags, method, mtime, mdate, crc, 0xffffffff, 0xffffffff, len(name), 28, 0, 0, 0, 0, 0xffffffff):
            raise Bad(f'directory entry of {name!r}: {head!r}')
        at += 46
        extra = data[at + len(name):at + len(name) + 28]
        if len(extra) < 28:
            return None
        if data[at:at + len(name)] != name or struct.unpack('<HHQQQ', extra) != (1, 24, size, used, start):
            raise Bad(f'directory entry of {name!r}: {extra!r}')
        at += len(name) + 28
    end = data[at:]
    if len(end) < 98:
        return None
    record = struct.unpack('<4sQHHIIQQQQ', end[:56])
    if record[0] != b'PK\x06\x06' or record[1] != 44 or record[4:] != (0, 0, len(entries), len(entries), at - directory, directory):
        raise Bad(f'end record {record}')
    if struct.unpack('<4sLQL', end[56:76]) != (b'PK\x06\x07', 0, at, 1):
        raise Bad(f'locator {end[56:76]!r}')
    count = min(len(entries), 0xffff)
    if struct.unpack('<4sHHHHLLH', end[76:98]) != (b'PK\x05\x06', 0, 0, count, count, 0xffffffff, 0xffffffff, 0):
        raise Bad(f'last record {end[76:]!r}')
    if len(end) > 98:
        raise Bad('data after the end')
    return [entry[0] for entry in entries]


class Bad(Exception):
    pass


def check_nested(body, file):
    inner = zipfile.ZipFile(io.BytesIO(body))
    if inner.namelist() != ['inner'] or inner.read('inner') != expected_content(file):
        raise Bad('nested archive differs')


def check_archive(w, data, where):
    files = w.plan['files']
    try:
        names = parse(data, files, True)
        if names is None:
            w.fail('truncated', f'{where}: the stream ended, the archive is cut at {len(data)}')
            return
        archive = zipfile.ZipFile(io.BytesIO(data))
        bad = archive.testzip()
        if bad is not None:
            raise Bad(f'crc of {bad!r}')
    except (Bad, zipfile.BadZipFile, zlib.error) as exception:
        w.fail('archive', f'{where}: {exception!r}')
        return
    infos = archive.infolist()
    if len(infos) != len(files):
        w.fail('archive', f'{where}: {len(infos)} files')
        return
    for info, file in zip(infos, files):
        year, month, day, hour, minute, second = file['date']
        if info.date_time != (year, month, day, hour, minute, second // 2 * 2):
            w.fail('date', f'{where}: {info.date_time}')
        if info.file_size != sum(chunk[0] for chunk in file['chunks']) and not file['nested']:
            w.fail('size', f'{where}: {info.file_size}')
    got = [info.filename for info in infos]
    given = [file['name'] for file in files]
    if not w.plan['dedupe']:
        if got != given:
            w.fail('names', f'{where}: {got}')
        return
    if len(set(got)) != len(got):
        w.fail('names-collide', f'{where}: {got} for {given}')
    plain = not any('(' in name for name in given)
    for index, (name, wanted) in enumerate(zip(got, given)):
        if name == wanted:
            continue
        if plain and wanted not in given[:index]:
            w.fail('renamed', f'{where}: {name!r} for {wanted!r}')
        directory, separator, last = wanted.rpartition('/')
        if not name.startswith(directory + separator):
            w.fail('renamed', f'{where}: {name!r} for {wanted!r}')
        if '.' in last and '(' not in last and not re.fullmatch(re.escape(directory + separator + last.split('.', 1)[0]) + r' \(\d+\)\.' + re.escape(last.split('.', 1)[1]), name):
            w.fail('renamed', f'{where}: {name!r} for {wanted!r}')


def check_cut(w, data, where):
    """A stream which did not end."""
    try:
        names = parse(data, w.plan['files'], False)
    except Exception as exception:
        w.fail('archive', f'{where}: {exception!r}')
        return
    if names is not None:
        w.fail('looks-complete', f'{where}: {len(data)} bytes')


async def consume(w, loop, number, spec, resource, info):
    how = spec['how']
    if spec['at']:
        await sleep(spec['at'], loop)
    if how in ('http', 'redirect', 'cancel-http'):
        info['request'] = True
        target = f'http://10.0.0.1/{"redirect" if how == "redirect" else "take"}/{number}'
        async with w.client.put(target, data=resource) as response:
            info['status'] = response.status
            await response.read()
        info['done'] = True
        return
    data = info['data']
    iterator = resource.__aiter__() if not w.plan['single'] else resource
    count = 0
    async for chunk in iterator:
        data += chunk
        count += 1
        if spec['slow'] is not None:
            await sleep(spec['slow'], loop)
        if how in ('break', 'close') and count > spec['after']:
            if how == 'close':
                await iterator.aclose()
            return
    info['done'] = True


async def guarded(w, loop, number, spec, resource, info):
    try:
        await consume(w, loop, number, spec, resource, info)
    except CancelledError as exception:
        info['exception'] = exception
        if info['cancelled']:
            raise
    except Exception as exception:
        info['exception'] = exception
    finally:
        info['ended'] = True


async def main(loop, w):
    plan = w.plan
    sim = w.sim
    w.client = HTTPClient(loop)
    if plan.get('many'):
        files = [ZipStreamFile(f'{index}', ResourceStreamFunction(nothing)(), modified_at=datetime(2000, 1, 1)) for index in range(plan['many'])]
        data = bytearray()
        async for chunk in create_zip_stream_resource(files, name_deduplicator=None):
            data += chunk
        names = zipfile.ZipFile(io.BytesIO(bytes(data))).namelist()
        if names != [f'{index}' for index in range(plan['many'])]:
            w.fail('archive', f'{len(names)} of {plan["many"]} files')
        w.check()
        return
    files = make_files(w, loop)
    keywords = {} if plan['dedupe'] else {'name_deduplicator': None}
    resource = stream_zip(files, **keywords) if plan['single'] else create_zip_stream_resource(files, **keywords)
    infos = []
    tasks = []
    for number, spec in enumerate(plan['consumers']):
        info = {'data': bytearray(), 'done': False, 'exception': None, 'ended': False, 'cancelled': False, 'status': None, 'request': False, 'spec': spec}
        infos.append(info)
        task = Task(loop, guarded(w, loop, number, spec, resource, info))
        tasks.append(task)
        if spec['how'] in ('cancel', 'cancel-http'):
            def cancel(task=task, info=info):
                if not info['ended']:
                    info['cancelled'] = True
                    task.cancel()
            loop.call_after(spec['at'] + spec['when'], cancel)
    if not await until(loop, lambda: all(task.is_done() for task in tasks), 50.0, 0.01):
        w.fail('hang', f'{[(info["spec"]["how"], info["ended"]) for info in infos]}')
        w.check()
    del files, resource, tasks, task
    cancel = None
    await sleep(0.5, loop)
    failing = any(file['fail'] is not None for file in plan['files'])
    complete = None
    for number, info in enumerate(infos):
        spec = info['spec']
        how = spec['how']
        where = f'consumer {number} {how}'
        exception = info['exception']
        if info['request']:
            bodies = [body for target, body in w.bodies if target.endswith(f'/{number}')]
            if failing:
                if bodies:
                    w.fail('looks-complete', f'{where}: the server got a whole request')
                if info['done']:
                    w.fail('no-error', f'{where}: the request succeeded')
                elif not info['cancelled'] and not any(in_chain(exception, failure) for failure in w.failures):
                    w.fail('error', f'{where}: {exception!r}, failures {w.failures}')
            else:
                if not info['cancelled'] and not info['done']:
                    w.fail('error', f'{where}: {exception!r}')
                for body in bodies:
                    check_archive(w, body, where)
                    if complete is not None and body != complete:
                        w.fail('differs', where)
                    complete = body
                if info['done'] and len(bodies) != (2 if how == 'redirect' else 1):
                    w.fail('bodies', f'{where}: {len(bodies)} bodies')
            w.check()
            continue
        data = bytes(info['data'])
        if info['done']:
            if failing:
                w.fail('no-error', f'{where}: the stream ended')
            else:
                check_archive(w, data, where)
                if complete is not None and data != complete:
                    w.fail('differs', where)
                complete = data
        else:
            if exception is not None and not info['cancelled']:
                if not any(exception is failure for failure in w.failures):
                    w.fail('error', f'{where}: {exception!r}')
            elif exception is None and how not in ('break', 'close'):
                w.fail('ended', f'{where}: {info}')
            if failing or (exception is not None and not info['cancelled']):
                check_cut(w, data, where)
        w.check()
    infos = info = exception = None
    w.failures = None
    if w.open:
        await sleep(0.1, loop)
        if w.open:
            gc.collect()
            await sleep(0.5, loop)
            if w.open:
                w.fail('source-open', f'{w.open} sources were not closed')
    w.check()
    w.client.close()


def in_chain(exception, failure):
    seen = 0
    while exception is not None and seen < 20:
        if exception is failure:
            return True
        exception = exception.__cause__ or exception.__context__
        seen += 1
    return False


def run(plan, sim):
    w = World()
    w.plan = plan
    w.sim = sim
    w.problems = []
    w.open = 0
    w.started = 0
    w.failures = []
    w.bodies = []
    w.fail = lambda kind, text: w.problems.append((kind, text))

    def check():
        if w.problems:
            kind, text = w.problems[0]
            raise Violation(kind, f'{text} {plan}')
    w.check = check

    def handler(conn, request):
        w.bodies.append((request.target, bytes(request.body)))
        if request.target.startswith('/redirect/'):
            conn.play(b'HTTP/1.1 307 Temporary Redirect\r\nLocation: /take/%b\r\nContent-Length: 0\r\n\r\n' % request.target.rpartition('/')[2].encode(), [])
        else:
            conn.play(b'HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n', [])
    w.server = H.Server(sim, '10.0.0.1', 80, handler)
    run_async(sim, main, w)
    no_errors(sim)
