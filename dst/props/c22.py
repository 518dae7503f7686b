"""Subprocesses."""
import errno
import subprocess
from subprocess import TimeoutExpired

from ..world import *
from .c29 import until
from .c19 import wait_gap

import scarletio.core.subprocess.subprocess as subprocess_module
from dst import net as net_module


def open_descriptor(file, mode='r', **kwargs):
    """The builtin, for simulated descriptors too."""
    if net_module._fake(file):
        net = net_module.S.SIM.net
        obj = net.fds[file]
        result = net_module.PipeFile.__new__(net_module.PipeFile)
        result._net = net
        result._sim = net.sim
        result._k = obj
        result._fd = result.name = file
        result.mode = mode
        return result
    return open(file, mode, **kwargs)


subprocess_module.open = open_descriptor

BUDGET = {'quick': 20000, 'thorough': 400000}
RULE = ('One evaluation is the life of a simulated child process (a script of reading, echoing, writing to either output, closing streams, sleeping and '
        'exiting, over pipes of random capacity) whose parent communicates with it or reads, feeds, waits, signals, kills, cancels and closes at random times.')
ASSUMPTIONS = ['A parent which feeds the child closes its input in the end, and reads both outputs at the same time.',
               'A process which closes the process, kills it or closes its outputs gives up the rest of the output.']
STUBS = ['subprocess.Popen (a scripted child over simulated pipes)']

SIZES = [0, 1, 100, 5000, 65536, 70000, 200000, 400000]


def gen(rng):
    cap = rng.choice([64, 1000, 4096, 65536, 65536])
    pair_cap = rng.choice([100, 4096, 65536, 200000])

    def size():
        return min(rng.choice(SIZES), min(cap, pair_cap) * 20)
    ops = []
    for _ in range(rng.choice([0, 1, 2, 3, 5, 8])):
        kind = rng.choice(['out', 'out', 'err', 'err', 'in', 'cat', 'sleep', 'close-out', 'close-err', 'close-in', 'in'])
        ops.append([kind, size() if kind != 'sleep' else rng.choice([1, 10, 100])])
    if rng.random() < 0.5:
        ops.append([rng.choice(['drain', 'cat']), rng.choice([100, 4096, 65536])])
        if rng.random() < 0.4:
            ops.append([rng.choice(['out', 'err', 'sleep', 'close-out']), rng.choice([1, 50, 3000])])
    mode = rng.choice(['communicate', 'communicate', 'manual', 'manual', 'manual'])
    plan = {
        'params': swarm(rng, pipe_cap=[cap], pair_cap=[pair_cap], late=[None, 0.2], late_max=[0.002], short=[0.0, 0.4],
                        eagain=[0.0, 0.2], spawn_fail=[None] * 9 + [1.0], preempt=[0.0, 0.02]),
        'ops': ops, 'code': rng.choice([0, 0, 1, 3, 255]), 'linger': rng.choice([0.0, 0.0, 0.001, 0.01]), 'early': rng.choice([0, 0, 1, 3]), 'sigpipe': rng.choice([True, True, False]),
        'ignore': rng.choice([False, False, True]), 'speed': rng.choice([0.0, 0.001, 0.005]),
        'stdin': rng.random() < 0.7, 'stdout': rng.random() < 0.8, 'stderr': rng.choice(['pipe', 'pipe', 'none', 'stdout']),
        'shell': rng.random() < 0.3, 'mode': mode,
        'feed': [size() for _ in range(rng.choice([0, 1, 1, 2, 4]))], 'drain': rng.random() < 0.7, 'eof': rng.choice(['close', 'eof']),
        'timeout': rng.choice([None, None, None, 0.005, 0.05, 1.0]),
        'read': rng.choice(['all', 'once']), 'read_delay': rng.choice([0.0, 0.0, 0.001, 0.05]),
        'waiters': [{'at': rng.choice([0.0, 0.001, 0.01, 0.1, 1.0]), 'timeout': rng.choice([None, None, 0.001, 0.02, 0.2, 2.0]),
                     'cancel': rng.choice([None, None, None, 0.005, 0.1])} for _ in range(rng.choice([0, 1, 2, 3]))],
        'events': [[rng.choice([0.001, 0.01, 0.03, 0.1, 0.5]) + rng.random() * 0.01,
                    rng.choice(['kill', 'terminate', 'signal', 'close', 'close-in', 'close-out', 'close-err', 'cancel'])]
                   for _ in range(rng.choice([0, 0, 0, 1, 1, 2]))],
        'drainers': rng.choice([0, 0, 1, 3]),
    }
    plan['params']['tick'] = 1e-7
    plan['params']['delay_max'] = rng.choice([0.0, 0.001, 0.005])
    return plan


def valid(plan):
    return plan['params'].get('pipe_cap', 1) > 0 and plan['params'].get('pair_cap', 1) > 0 and all(
        len(op) == 2 and (op[0] not in ('cat', 'drain') or op[1] > 0) for op in plan['ops']) and all(len(e) == 2 for e in plan['events'])


def pattern(stream, size):
    block = b''.join(b'%s%06d' % (stream, index) for index in range(size // 7 + 1))
    return block[:size]


class Child:
    """A sequential program which blocks on its streams."""

    def __init__(self, w, process):
        self.w = w
        self.sim = w.sim
        self.process = process
        self.ops = [list(op) for op in w.plan['ops']]
        self.stdin = process.child_stdin
        self.stdout = process.child_stdout
        self.stderr = process.child_stderr
        self.written = {1: 0, 2: 0}
        self.content = {1: bytearray(), 2: bytearray()}
        self.received = bytearray()
        self.eof = False
        self.pending = b''
        self.pending_to = 1
        self.dying = False
        self.exit_code = None
        self.ended_at = None
        self.wait = 0.0
        self.scheduled = False
        process.child_signal = self.signal
        self.pattern = {1: pattern(b'o', 0), 2: pattern(b'e', 0)}
        if w.plan['early']:
            # it runs before its creator goes on
            for _ in range(w.plan['early']):
                self.step()
        else:
            self.next(0.0)

    def next(self, delay):
        if self.scheduled:
            return
        self.scheduled = True
        self.sim.after(delay + self.w.plan['speed'] * self.w.rng.random(), self.run)

    def signal(self, number):
        if self.dying:
            return
        if number == 15 and self.w.plan['ignore']:
            return
        self.sim.fault('child_killed')
        self.sim.after(0.0001, self.die, -number)

    def die(self, code):
        if self.dying:
            return
        self.dying = True
        self.exit_code = code
        self.sim.log('dies', code)
        for end in (self.stdin, self.stdout, self.stderr):
            if end is not None:
                end.on_close()
        self.sim.after(self.w.plan['linger'], self.end)

    def end(self):
        self.ended_at = self.sim.now
        self.process.child_exit(self.exit_code)

    def write(self, target, data):
        """-> count, or None when blocked"""
        end = self.stdout if target == 1 else self.stderr
        if end is None or end.closed:
            return len(data)
        try:
            n = end.write(data[:65536])
        except BlockingIOError:
            return None
        except OSError as exception:
            if exception.errno == errno.EPIPE and self.w.plan['sigpipe']:
                self.sim.fault('sigpipe')
                self.die(-13)
            return len(data)
        self.content[1 if end is self.stdout else 2] += data[:n]
        return n

    def read(self, n):
        if self.stdin is None or self.stdin.closed:
            return b''
        try:
            return self.stdin.end.recv(n)
        except BlockingIOError:
            return None
        except OSError:
            return b''

    def run(self):
        self.scheduled = False
        self.step()

    def step(self):
        if self.dying:
            return
        for _ in range(20):
            if self.pending:
                n = self.write(self.pending_to, self.pending)
                if self.dying:
                    return
                if n is None:
                    self.block()
                    return
                self.wait = 0.0
                self.pending = self.pending[n:]
                continue
            if not self.ops:
                self.die(self.w.plan['code'])
                return
            op = self.ops[0]
            kind, size = op
            if kind == 'sleep':
                self.ops.pop(0)
                self.next(size / 1000)
                return
            if kind in ('out', 'err'):
                self.ops.pop(0)
                target = 1 if kind == 'out' else 2
                start = self.written[target]
                self.written[target] += size
                self.pending = pattern(b'o' if target == 1 else b'e', start + size)[start:]
                self.pending_to = target
                continue
            if kind.startswith('close'):
                self.ops.pop(0)
                end = {'close-out': self.stdout, 'close-err': self.stderr, 'close-in': self.stdin}[kind]
                shared = self.stdout is self.stderr and kind != 'close-in'
                if end is not None and not shared:
                    end.on_close()
                continue
            # in / drain / cat
            data = self.read(min(size, 65536) if kind == 'in' else max(size, 500))
            if kind == 'in' and not size:  # nothing to read
                data = b''
            if data is None:
                self.block()
                return
            self.wait = 0.0
            if not data:
                if kind != 'in' or size:
                    self.eof = True
                self.ops.pop(0)
                continue
            self.received += data
            if kind == 'in':
                op[1] -= len(data)
            elif kind == 'cat':
                self.pending = data
                self.pending_to = 1
        self.next(0.0)

    def block(self):
        if self.scheduled:
            return
        self.scheduled = True
        self.wait = min(0.002, self.wait * 2 + 0.0002)
        self.sim.after(self.wait, self.run)


class World:
    pass


async def feeder(w, loop, process):
    plan = w.plan
    try:
        for size in plan['feed']:
            data = pattern(b'i', w.fed + size)[w.fed:]
            process.stdin.write(data)
            w.fed += size
            if plan['drain']:
                await process.stdin.drain()
                end = w.child.stdin.end
                unsent = w.fed - len(w.child.received) - end.peer.inflight
                if unsent > 65536 and not process.stdin.is_closing() and not end.closed:
                    raise Violation('drain-early', f'{unsent} bytes are not sent {plan}')
    except (BrokenPipeError, ConnectionResetError):
        w.sim.fault('feed_broken')
    if plan['eof'] == 'close':
        process.stdin.close()
    else:
        process.stdin.write_eof()


async def drainer(w, loop, process):
    try:
        await process.stdin.drain()
    except (BrokenPipeError, ConnectionResetError):
        pass
    w.drained += 1


async def reader(w, loop, stream, number):
    plan = w.plan
    if plan['read'] == 'all':
        await sleep(plan['read_delay'], loop)
        w.got[number] = await stream.read()
        return
    data = w.got[number] = bytearray()
    while True:
        await sleep(plan['read_delay'] if len(data) < 300000 else 0.0, loop)
        chunk = await stream.read_once()
        if not chunk:
            return
        data += chunk


async def waiter(w, loop, process, record):
    record['begin'] = w.sim.now
    try:
        record['code'] = await process.wait(record['timeout'])
    except TimeoutExpired:
        record['timed_out'] = True
    record['end'] = w.sim.now


async def main(loop, w):
    plan = w.plan
    sim = w.sim
    net = sim.net
    before = set(net.fds)
    PIPE = subprocess.PIPE
    kwargs = {
        'stdin': PIPE if plan['stdin'] else None,
        'stdout': PIPE if plan['stdout'] else None,
        'stderr': {'pipe': PIPE, 'none': subprocess.DEVNULL, 'stdout': subprocess.STDOUT}[plan['stderr']],
    }
    try:
        if plan['shell']:
            process = await loop.subprocess_shell('child', **kwargs)
        else:
            process = await loop.subprocess_exec('child', 'parameter', **kwargs)
    except FileNotFoundError:
        if not plan['params'].get('spawn_fail'):
            raise
        await sleep(0.01, loop)
        left = [fd for fd in net.fds if fd not in before]
        if left:
            raise Violation('leak', f'failed spawn {[net.fds[fd].name for fd in left]} {plan}')
        return
    child = w.child
    base = sim.now
    err_pipe = plan['stderr'] == 'pipe'
    if (process.stdin is None) != (not plan['stdin']) or (process.stdout is None) != (not plan['stdout']) or (process.stderr is None) != (not err_pipe):
        raise Violation('streams', f'{process!r} {plan}')
    if process.process_id != w.popen.pid:
        raise Violation('pid', f'{process.process_id}')
    gaveup = {}       # what the user did -> when
    task = None
    readers = {}
    feed_task = None
    if plan['mode'] == 'communicate':
        data = pattern(b'i', sum(plan['feed'])) if plan['stdin'] else None
        w.fed = 0 if data is None else len(data)
        task = loop.create_task(process.communicate(data, plan['timeout']))
        task.add_done_callback(lambda _: setattr(w, 'communicated_at', sim.now))
    else:
        if plan['stdin']:
            feed_task = loop.create_task(feeder(w, loop, process))
            for _ in range(plan['drainers']):
                loop.create_task(drainer(w, loop, process))
        if plan['stdout']:
            readers[1] = loop.create_task(reader(w, loop, process.stdout, 1))
        if err_pipe:
            readers[2] = loop.create_task(reader(w, loop, process.stderr, 2))
    records = []

    async def wait_later(record):
        await sleep(record['at'], loop)
        record['task'] = inner = loop.create_task(waiter(w, loop, process, record))
        if record['cancel'] is not None:
            loop.call_after(record['cancel'], inner.cancel)
    for p in plan['waiters']:
        record = dict(p)
        record.update(task=None, code=None, timed_out=False, begin=None, end=None)
        record['outer'] = loop.create_task(wait_later(record))
        records.append(record)

    async def act(at, kind):
        await sleep(at, loop)
        if child.dying and child.ended_at is None:
            sim.fault('act_while_dying')
        sim.fault('act_' + kind)
        sim.log('act', kind)
        if kind in ('kill', 'close'):
            gaveup.setdefault('all', sim.now)
            gaveup.setdefault('in', sim.now)
            w.kill = True
            if kind == 'kill':
                await process.kill()
            else:
                process.close()
        elif kind in ('terminate', 'signal'):
            w.signals.add(15 if kind == 'terminate' else 2)
            try:
                if kind == 'terminate':
                    process.terminate()
                else:
                    process.send_signal(2)
            except ProcessLookupError:
                if child.ended_at is None:
                    raise Violation('process-lookup', f'{plan}')
        elif kind == 'close-in':
            gaveup.setdefault('in', sim.now)
            if process.stdin is not None:
                process.stdin.close()
        elif kind in ('close-out', 'close-err'):
            number = 1 if kind == 'close-out' else 2
            stream = process.stdout if number == 1 else process.stderr
            gaveup.setdefault(number, sim.now)
            if stream is not None:
                stream.close_transport()
        elif kind == 'cancel' and task is not None:
            gaveup.setdefault('communicate', sim.now)
            task.cancel()
    actions = [loop.create_task(act(at, kind)) for at, kind in plan['events']]
    done = lambda: child.ended_at is not None
    if not await until(loop, done, 30.0, 0.01):
        if plan['mode'] == 'communicate' and (plan['timeout'] is not None or 'communicate' in gaveup) or gaveup:
            # nobody feeds or reads it any more
            gaveup.setdefault('all', sim.now)
            w.kill = True
            process.close()
            if not await until(loop, done, 1.0, 0.01):
                raise Violation('not-killed', f'{plan}')
        else:
            raise Violation('deadlock', f'child has {child.ops} received {len(child.received)} wrote {child.written} {plan}')
    for action in actions:
        await action
    if plan['mode'] == 'communicate' and (plan['timeout'] is not None or 'communicate' in gaveup):
        # nobody reads any more
        await sleep(max(0.0, base + (plan['timeout'] or 0.0) + 0.1 - sim.now), loop)
        outcome = outcome_of(task)
        if outcome[0] == 'return':
            pass
        elif outcome[0] == 'pending':
            raise Violation('communicate-hangs', f'{plan}')
        else:
            gaveup.setdefault('all', sim.now)
            w.kill = True
            process.close()
    slack = 0.1 + plan['read_delay'] * 200
    await until(loop, lambda: process.poll() is not None, slack, 0.01)
    code = child.exit_code
    # nobody but the user kills
    for number in w.popen.signals:
        if not (number in w.signals or number == 9 and w.kill):
            raise Violation('signal', f'{number} was sent to the child {plan}')
    if process.poll() != code:
        raise Violation('exit-code', f'{process.poll()} instead of {code} {plan}')
    for record in records:
        await record['outer']
    await sleep(0.05, loop)
    for record in records:
        outcome = outcome_of(record['task'])
        if outcome[0] == 'cancelled' and record['cancel'] is not None:
            sim.fault('wait_cancelled')
            continue
        if outcome[0] == 'pending':
            raise Violation('wait-hangs', f'{record} {plan}')
        if outcome[0] != 'return':
            raise Violation('wait-failed', f'{outcome!r} {plan}')
        if record['timed_out']:
            sim.fault('wait_timed_out')
            if abs(record['end'] - record['begin'] - record['timeout']) > 0.01 + w.slack:
                raise Violation('wait-timeout', f'{record} {plan}')
        elif record['code'] != code:
            raise Violation('wait-code', f'{record} {code} {plan}')
        elif record['end'] < child.ended_at:
            raise Violation('wait-early', f'{record} {plan}')
    expected = {1: bytes(child.content[1]), 2: bytes(child.content[2])}
    if task is not None:
        if not await until(loop, lambda: not task.is_pending(), 0.1, 0.01):
            raise Violation('communicate-hangs', f'{plan}')
        outcome = outcome_of(task)
        if plan['timeout'] is not None and w.communicated_at > base + plan['timeout'] + 0.01 + w.slack:
            raise Violation('communicate-timeout', f'after {w.communicated_at - base} {outcome!r:.200} {plan}')
        if outcome[0] == 'raise' and isinstance(outcome[1], TimeoutExpired) and plan['timeout'] is not None:
            sim.fault('communicate_timeout')
            if outcome[1].timeout != plan['timeout'] or w.communicated_at < base + plan['timeout'] - 0.001:
                raise Violation('communicate-timeout', f'after {w.communicated_at - base} {outcome!r} {plan}')
        elif outcome[0] == 'cancelled' and 'communicate' in gaveup:
            pass
        elif outcome[0] == 'return':
            out, err = outcome[1]
            if (out is None) != (not plan['stdout']) or (err is None) != (not err_pipe):
                raise Violation('communicate', f'{out is None} {err is None} {plan}')
            w.got[1] = out
            w.got[2] = err
        elif gaveup:
            sim.fault('communicate_broken')
        else:
            raise Violation('communicate-failed', f'{outcome!r} {plan}')
    else:
        for number, inner in readers.items():
            if not await until(loop, lambda: not inner.is_pending(), slack, 0.01):
                raise Violation('reader-hangs', f'{number} {plan}')
            outcome = outcome_of(inner)
            if outcome[0] != 'return' and not gaveup:
                raise Violation('reader', f'{outcome!r} {plan}')
        if feed_task is not None:
            if not await until(loop, lambda: not feed_task.is_pending(), 0.1, 0.01):
                raise Violation('feeder-hangs', f'{plan}')
            outcome = outcome_of(feed_task)
            if outcome[0] != 'return':
                raise Violation('feeder', f'{outcome!r} {plan}')
            if w.drained != plan['drainers']:
                raise Violation('drain-hangs', f'{w.drained} {plan}')
    for number in (1, 2):
        got = w.got.get(number)
        if got is None:
            continue
        got = bytes(got)
        if 'all' in gaveup or number in gaveup:
            if not expected[number].startswith(got):
                raise Violation('output-mixed', f'{number}: {len(got)} of {len(expected[number])} {plan}')
        elif got != expected[number]:
            raise Violation('output', f'{number}: {len(got)} of {len(expected[number])} {plan}')
    fed = pattern(b'i', w.fed)
    received = bytes(child.received)
    if not fed.startswith(received):
        raise Violation('input-mixed', f'{len(received)} of {len(fed)} {plan}')
    if child.eof and received != fed and not gaveup and not (task is not None and outcome_of(task)[0] != 'return') and not child.stdin_closed_early:
        raise Violation('input', f'{len(received)} of {len(fed)} {plan}')
    if not process.is_closing() and False:
        raise Violation('not-closed', '')
    await sleep(0.05, loop)
    left = [fd for fd in net.fds if fd not in before]
    if left:
        raise Violation('leak', f'{[net.fds[fd].name for fd in left]} {plan}')
    # later calls
    if await process.wait() != code:
        raise Violation('exit-code', 'later')
    process.close()
    await process.kill()


def run(plan, sim):
    w = World()
    w.plan = plan
    w.sim = sim
    w.rng = sim.net.rng
    w.fed = 0
    w.got = {}
    w.signals = set()
    w.kill = False
    w.drained = 0
    w.slack = 0.005 if plan['params'].get('late') else 0.001

    def child(popen):
        w.popen = popen
        w.child = Child(w, popen)
        w.child.stdin_closed_early = any(op[0] == 'close-in' for op in plan['ops'])
    sim.params['child'] = child
    run_async(sim, main, w, check_errors=False)
    no_errors(sim)
