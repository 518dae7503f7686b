"""The asyncio emulation, compared with the asyncio of Python."""
import heapq
import sys
import types
import warnings
import asyncio as REFERENCE
import asyncio.base_events, asyncio.taskgroups, asyncio.timeouts, asyncio.runners, asyncio.locks, asyncio.queues, asyncio.staggered

_real = {name: sys.modules.pop(name) for name in list(sys.modules) if name in ('asyncio', '_asyncio') or name.startswith('asyncio.')}
for _name, _module in _real.items():
    # relative imports done later must find the modules of Python
    sys.modules['reference_' + _name.lstrip('_') if _name != '_asyncio' else 'reference_asyncio_c'] = _module
    if _name != '_asyncio':
        _module.__package__ = 'reference_asyncio'
        _module.__spec__ = None
from ..world import *
from .c29 import until
with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    import scarletio.ext.asyncio
    EMULATION = sys.modules['scarletio.ext.asyncio.asyncio']

BUDGET = {'quick': 70000, 'thorough': 500000}
RULE = ('One evaluation is a program of one to six tasks over locks, semaphores, events, conditions, barriers, queues, futures, gather, wait, wait_for, as_completed, shield, timeout and task cancellation, '
        'with failures, deadlines and cancellations at generated instants. It runs once on the asyncio of Python over a virtual clock and once on the emulation in the simulator, and each task '
        'must see the same results and exceptions at the same instants. Programs in which two tasks act at (almost) the same instant on the reference are not compared.')
ASSUMPTIONS = ['The asyncio module of the running Python is the documented behaviour.', 'Actions of different tasks are at least 50 ms apart; what happens at the same instant is not compared.']
STUBS = []
HORIZON = 600.0
GAP = 0.05


class Boom(Exception):
    pass


# generation

def gap(rng, low=0.06, high=30.0):
    return round(rng.uniform(low, high), 3)


def gen_child(rng, depth=0):
    kind = rng.choice(['sleep', 'sleep', 'sleep', 'raise', 'raise', 'cancel', 'future', 'actor-future'] if depth == 0 else ['sleep', 'raise'])
    return {'kind': kind, 'for': rng.choice([gap(rng), gap(rng), 0]), 'slot': rng.randint(0, 2), 'value': rng.randint(0, 99), 'wrap': rng.random() < 0.3}


KINDS = ['lock', 'lock', 'lock', 'sem', 'sem', 'sem', 'bounded', 'set', 'clear', 'wait-event', 'wait-event', 'cond-wait', 'cond-wait', 'cond-notify', 'cond-notify', 'cond-all', 'cond-for', 'bump',
                       'barrier', 'barrier', 'barrier-abort', 'barrier-reset', 'put', 'put', 'get', 'get', 'put-now', 'get-now', 'gather', 'gather', 'gather', 'wait', 'wait', 'wait', 'wait-for', 'wait-for', 'wait-for', 'completed', 'completed',
                       'shield', 'timeout', 'timeout', 'timeout', 'fut-set', 'fut-raise', 'fut-cancel', 'fut-wait', 'cancel', 'cancel', 'sleep', 'join', 'burst', 'burst', 'burst']
GROUPS = [['lock', 'cancel', 'burst', 'timeout'], ['sem', 'sem', 'cancel', 'burst', 'timeout'], ['bounded', 'bounded', 'cancel', 'burst'], ['set', 'clear', 'wait-event', 'wait-event', 'cancel', 'burst'], ['cond-wait', 'cond-wait', 'cond-notify', 'cond-all', 'cond-for', 'bump', 'cancel', 'burst', 'timeout'],
          ['barrier', 'barrier', 'barrier', 'barrier-abort', 'barrier-reset', 'cancel', 'burst'], ['put', 'get', 'put', 'get', 'put-now', 'get-now', 'cancel', 'burst', 'timeout'], ['gather', 'fut-set', 'fut-raise', 'fut-cancel', 'cancel', 'burst'], ['wait', 'fut-set', 'fut-raise', 'fut-cancel', 'cancel', 'burst'], ['wait-for', 'completed', 'fut-set', 'fut-raise', 'cancel', 'burst'], ['timeout', 'timeout', 'cancel', 'burst', 'wait-for', 'sleep', 'shield']]


def gen_op(rng, kinds, depth=0):
    kind = rng.choice(kinds)
    if kind == 'timeout' and depth > 1:
        kind = 'sleep'
    op = {'kind': kind, 'before': gap(rng), 'slot': rng.choice([0, 0, 0, 1]), 'hold': rng.choice([gap(rng), gap(rng), 0.0])}
    if kind == 'burst':
        # several things at once
        acts = ['release', 'release', 'bounded', 'set', 'clear', 'cancel', 'cancel', 'put', 'get', 'fut-set', 'fut-raise', 'fut-cancel', 'notify', 'notify', 'all']
        acts = rng.choice([acts, [rng.choice(acts) for _ in range(2)], [rng.choice(acts), 'cancel']])
        op['acts'] = [{'kind': rng.choice(acts), 'slot': rng.choice([0, 0, 0, 1]), 'actor': rng.randint(0, 5), 'value': rng.randint(0, 99)} for _ in range(rng.choice([2, 2, 3, 4]))]
        if rng.random() < 0.3:
            # cancelled right after its turn came
            del op['acts'][2:]
            op['acts'][0]['kind'] = rng.choice(['release', 'release', 'notify', 'put', 'set'])
            op['acts'][1]['kind'] = 'cancel'
        # who gets an item put at the same instant, and which of two futures is seen first, is not compared
        single = {'bounded': 'bounded', 'put': 'item', 'get': 'item', 'fut-set': 'future', 'fut-raise': 'future', 'fut-cancel': 'future'}
        op['acts'] = [act for index, act in enumerate(op['acts']) if act['kind'] not in single or all(single.get(act['kind']) != single.get(other['kind']) for other in op['acts'][:index])]
        if any(act['kind'] == 'cancel' for act in op['acts']):
            # nor whether the cancellation passed through a task already
            op['acts'] = [act for act in op['acts'] if not act['kind'].startswith('fut-') and act['kind'] != 'bounded']
    if kind in ('cond-notify',):
        op['n'] = rng.choice([1, 1, 2, 3])
        op['times'] = rng.choice([1, 1, 2])
    if kind in ('gather', 'wait', 'completed'):
        op['children'] = [gen_child(rng) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
    if kind in ('wait-for', 'shield'):
        op['children'] = [gen_child(rng)]
    if kind == 'gather':
        op['exceptions'] = rng.random() < 0.5
    if kind == 'wait':
        op['mode'] = rng.choice(['ALL_COMPLETED', 'FIRST_COMPLETED', 'FIRST_EXCEPTION'])
    if kind in ('wait', 'wait-for', 'completed', 'timeout', 'shield'):
        op['timeout'] = rng.choice([None, gap(rng), gap(rng, 0.06, 5.0)])
        if kind in ('wait-for', 'shield') and op['children'][0]['kind'] == 'future':
            # the emulation gives the timeout to everyone who waits for the future
            op['children'][0]['kind'] = 'actor-future'
        if kind == 'wait' and op['mode'] == 'FIRST_EXCEPTION':
            # whether a cancelled task counts
            for child in op['children']:
                child['kind'] = 'raise' if child['kind'] == 'cancel' else child['kind']
        if kind == 'completed' and op['timeout'] is not None:
            # the emulation cancels what did not complete in time
            for child in op['children']:
                child['kind'] = 'sleep' if child['kind'] == 'future' else child['kind']
                child['quiet'] = True
        if kind == 'wait-for' and rng.random() < 0.1:
            op['timeout'] = 0
    if kind in ('fut-set', 'fut-raise', 'fut-cancel', 'fut-wait'):
        op['slot'] = rng.choice([0, 0, 1, 2])
    if kind == 'timeout':
        op['ops'] = [gen_op(rng, kinds, depth + 1) for _ in range(rng.choice([1, 1, 2]))]
        op['at'] = rng.random() < 0.3
        op['reschedule'] = rng.choice([None, None, None, gap(rng), 'never'])
    if kind in ('cancel', 'join'):
        op['actor'] = rng.randint(0, 5)
    if kind in ('put', 'put-now', 'get', 'get-now'):
        op['value'] = rng.randint(0, 99)
        op['slot'] = op['slot'] and rng.randint(1, 2)
    return op


def gen(rng):
    for _ in range(8):
        plan = gen_plan(rng)
        if comparable(run_reference(plan).actions):
            break
    plan['entry'] = rng.choice([None] * 8 + ['factory', 'complete', 'run'])
    return plan


def gen_queue(rng):
    """Several wait for the same thing, and some of them are cancelled just when their turn comes."""
    kind, act = rng.choice([('sem', 'release'), ('sem', 'release'), ('bounded', 'bounded'), ('cond-wait', 'notify'), ('get', 'put'), ('wait-event', 'set'), ('fut-wait', 'fut-set'), ('lock', 'cancel')])
    count = rng.choice([2, 3, 4])
    actors = [[{'kind': kind, 'before': round(index * 3 + rng.choice([0.1001, 1.001]), 3) + 0.003, 'slot': 0, 'hold': gap(rng), 'value': index}] + [gen_op(rng, [kind]) for _ in range(rng.choice([0, 0, 1]))] for index in range(count)]
    acts = [{'kind': act, 'slot': 0, 'actor': 0, 'value': 7}, {'kind': 'cancel', 'slot': 0, 'actor': rng.randint(0, count - 1), 'value': 0}]
    if act in ('release', 'notify') and rng.random() < 0.4:
        acts.append({'kind': act, 'slot': 0, 'actor': 0, 'value': 8})
    if act.startswith('fut-') or act == 'bounded':
        del acts[1:]
    actors.append([{'kind': 'burst', 'before': gap(rng, 15, 30), 'slot': 0, 'hold': 0.0, 'acts': acts}] + [gen_op(rng, [rng.choice([kind, 'burst', 'bump', 'put', 'set'])])])
    if kind == 'cond-wait':
        # holds the lock meanwhile
        actors.append([{'kind': 'cond-all', 'before': 14.5, 'slot': 0, 'hold': 20.0}])
        actors[-1][0]['kind'] = 'cond-notify'
        actors[-1][0].update(n=0, times=1)
    return {'params': {'tick': 1e-8, 'preempt': 0.0}, 'actors': actors, 'sizes': [rng.choice([0, 1, 2, 1, 2, -1]) for _ in range(3)], 'sems': [rng.choice([0, 0, 1]), 1], 'parties': 2}


def gen_plan(rng):
    if rng.random() < 0.15:
        return gen_queue(rng)
    kinds = rng.choice([KINDS, KINDS, rng.choice(GROUPS), rng.choice(GROUPS), rng.choice(GROUPS) + rng.choice(GROUPS)])
    return {'params': {'tick': 1e-8, 'preempt': 0.0},
            'actors': [[gen_op(rng, kinds) for _ in range(rng.choice([1, 2, 3, 4, 6]))] for _ in range(rng.choice([1, 2, 3, 3, 4, 6]))],
            'sizes': [rng.choice([0, 1, 2, 1, 2, -1]) for _ in range(3)], 'sems': [rng.choice([0, 1, 1, 2]) for _ in range(2)], 'parties': rng.choice([1, 2, 2, 3])}


def valid(plan):
    def op_ok(op):
        return 'before' in op and op['before'] >= 0.0 and 'slot' in op and all('kind' in child and 'for' in child for child in op.get('children', ())) and op.get('children', True) and all(
            op_ok(inner) for inner in op.get('ops', ())) and (op['kind'] != 'timeout' or 'ops' in op) and op.get('n', 1) >= 0 and op.get('times', 1) > 0 and (op['kind'] != 'burst' or 'acts' in op) and (op.get('timeout') is None or op['timeout'] >= 0)
    return plan['actors'] and all(op_ok(op) for ops in plan['actors'] for op in ops) and len(plan['sizes']) == 3 and len(plan['sems']) == 2 and plan['parties'] > 0


# the interpreter, used with both modules

class Machine:
    def __init__(self, aio, loop, plan, now, log=None):
        self.log = log
        self.aio = aio
        self.loop = loop
        self.plan = plan
        self.now = now
        self.base = now()
        self.events = {}
        self.actions = []
        self.tasks = []
        self.over = False
        self.ambiguous = False
        self.waiting = set()
        self.counter = [0, 0]

    def prepare(self):
        aio = self.aio
        self.locks = [aio.Lock() for _ in range(2)]
        self.sems = [aio.Semaphore(value) for value in self.plan['sems']]
        self.bounded = [aio.BoundedSemaphore(value) for value in self.plan['sems']]
        self.sets = [aio.Event() for _ in range(2)]
        self.conditions = [aio.Condition() for _ in range(2)]
        if aio is REFERENCE:
            for condition in self.conditions:
                self.watch(condition)
        self.barriers = [aio.Barrier(self.plan['parties']) for _ in range(2)]
        sizes = self.plan['sizes']
        self.queues = [aio.Queue(sizes[0]), aio.Queue(maxsize=sizes[1]), aio.LifoQueue(sizes[2])]
        self.futures = [self.loop.create_future() for _ in range(3)]

    def watch(self, condition):
        """A wait cancelled while it re-acquires the lock is not compared, unit tests require the emulation to end it at once."""
        acquire = condition.acquire

        async def watched():
            try:
                return await acquire()
            except BaseException:
                if self.aio.current_task() in self.waiting:
                    self.ambiguous = True
                raise
        condition.acquire = watched

    def record(self, who, *what):
        if not self.over:
            if self.log is not None:
                self.log('event', who, *what)
            self.events.setdefault(who, []).append((round(self.now() - self.base, 3), *what))

    def act(self, who):
        """Something happens on its own now."""
        if not self.over:
            self.actions.append((self.now() - self.base, who))

    def will(self, who, delay):
        if not self.over:
            self.actions.append((self.now() - self.base + delay, who))


def describe(machine, exception):
    aio = machine.aio
    if isinstance(exception, aio.CancelledError):
        return 'CancelledError'
    if isinstance(exception, Boom):
        return f'Boom {exception.args}'
    if isinstance(exception, aio.TimeoutError):
        return 'TimeoutError'
    for name in ('QueueEmpty', 'QueueFull', 'BrokenBarrierError', 'InvalidStateError'):
        if isinstance(exception, getattr(aio, name)):
            return name
    return type(exception).__name__


async def run_child(m, who, child):
    aio = m.aio
    try:
        m.will(who, child['for'])
        await aio.sleep(child['for'])
        m.act(who)
        if child['kind'] == 'raise':
            raise Boom(child['value'])
        if child['kind'] == 'cancel':
            raise aio.CancelledError()
    except BaseException as exception:
        if not child.get('quiet'):
            m.record(who, 'child', describe(m, exception))
        raise
    if not child.get('quiet'):
        m.record(who, 'child', child['value'])
    return child['value']


def make_child(m, who, child):
    if child['kind'] == 'future':
        return m.futures[child['slot'] % 3]
    if child['kind'] == 'actor-future':
        future = m.loop.create_future()

        def done():
            m.act(who)
            if not future.done():
                future.set_result(child['value'])
        m.loop.call_later(child['for'], done) if hasattr(m.loop, 'call_later') else m.loop.call_after(child['for'], done)
        return future
    coroutine = run_child(m, who, child)
    if child['wrap']:
        return m.aio.ensure_future(coroutine)
    return coroutine


async def run_actor(m, index):
    me = f'a{index}'
    try:
        await run_ops(m, me, me, m.plan['actors'][index])
    except m.aio.CancelledError:
        m.record(me, 'cancelled')
        raise
    m.record(me, 'end')


async def run_ops(m, me, path, ops):
    for number, op in enumerate(ops):
        m.will(me, op['before'])
        await m.aio.sleep(op['before'])
        m.act(me)
        here = f'{path}.{number}'
        try:
            result = await run_op(m, me, here, op)
        except m.aio.CancelledError:
            m.record(me, here, op['kind'], 'CancelledError')
            raise
        except Exception as exception:
            m.record(me, here, op['kind'], 'raised', describe(m, exception))
        else:
            m.record(me, here, op['kind'], 'ok', result)


async def hold(m, me, op):
    if op['hold']:
        m.will(me, op['hold'])
        await m.aio.sleep(op['hold'])
        m.act(me)


def burst_act(m, me, act):
    aio = m.aio
    kind = act['kind']
    slot = act['slot'] % 2
    try:
        if kind == 'release':
            m.sems[slot].release()
        elif kind == 'bounded':
            m.bounded[slot].release()
        elif kind == 'set':
            m.sets[slot].set()
        elif kind == 'clear':
            m.sets[slot].clear()
        elif kind == 'cancel':
            task = m.tasks[act['actor'] % len(m.tasks)]
            if task == aio.current_task() or task.done():
                return None
            task.cancel()
        elif kind == 'put':
            m.queues[act['slot'] % 3].put_nowait(act['value'])
        elif kind == 'get':
            return m.queues[act['slot'] % 3].get_nowait()
        elif kind in ('notify', 'all'):
            if not m.conditions[slot].locked():
                return 'free'
            m.conditions[slot].notify() if kind == 'notify' else m.conditions[slot].notify_all()
        else:
            future = m.futures[act['actor'] % 3]
            if future.done():
                return 'done'
            if kind == 'fut-set':
                future.set_result(act['value'])
            elif kind == 'fut-raise':
                future.set_exception(Boom(act['value']))
            else:
                future.cancel()
    except Exception as exception:
        return describe(m, exception)
    return None


async def run_op(m, me, here, op):
    aio = m.aio
    kind = op['kind']
    slot = op['slot']
    if kind == 'sleep':
        m.will(me, op['hold'])
        return await aio.sleep(op['hold'], 'x')
    if kind == 'lock':
        async with m.locks[slot % 2]:
            m.record(me, here, 'locked')
            await hold(m, me, op)
        return None
    if kind in ('sem', 'bounded'):
        semaphore = (m.sems if kind == 'sem' else m.bounded)[slot % 2]
        if op['before'] * 1000 % 5 < 0.5:
            repr(semaphore)
            semaphore.release()
            return 'released'
        await semaphore.acquire()
        repr(semaphore)
        m.record(me, here, 'acquired')
        try:
            await hold(m, me, op)
        finally:
            semaphore.release()
        return None
    if kind == 'set':
        m.sets[slot % 2].set()
        return None
    if kind == 'clear':
        m.sets[slot % 2].clear()
        return None
    if kind == 'burst':
        return [burst_act(m, me, act) for act in op['acts']]
    if kind == 'wait-event':
        await m.sets[slot % 2].wait()
        return m.sets[slot % 2].is_set()
    if kind == 'bump':
        async with m.conditions[slot % 2]:
            m.counter[slot % 2] += 1
            m.conditions[slot % 2].notify_all()
        return None
    if kind.startswith('cond'):
        condition = m.conditions[slot % 2]
        async with condition:
            m.record(me, here, 'locked')
            if kind in ('cond-wait', 'cond-for'):
                task = aio.current_task()
                m.waiting.add(task)
                try:
                    if kind == 'cond-wait':
                        result = await condition.wait()
                    else:
                        target = m.counter[slot % 2] + 1
                        result = await condition.wait_for(lambda: m.counter[slot % 2] >= target)
                finally:
                    m.waiting.discard(task)
                m.record(me, here, 'woken')
            elif kind == 'cond-notify':
                for _ in range(op['times']):
                    result = condition.notify(op['n'])
            else:
                result = condition.notify_all()
            await hold(m, me, op)
            return (result, condition.locked())
    if kind == 'barrier':
        barrier = m.barriers[slot % 2]
        result = await barrier.wait()
        return (result, barrier.broken, barrier.parties)
    if kind == 'barrier-abort':
        return await m.barriers[slot % 2].abort()
    if kind == 'barrier-reset':
        return await m.barriers[slot % 2].reset()
    if kind == 'put':
        return await m.queues[slot % 3].put(op['value'])
    if kind == 'put-now':
        return m.queues[slot % 3].put_nowait(op['value'])
    if kind == 'get':
        return await m.queues[slot % 3].get()
    if kind == 'get-now':
        return m.queues[slot % 3].get_nowait()
    if kind == 'fut-wait':
        return await m.futures[slot % 3]
    if kind == 'fut-cancel':
        return bool(m.futures[slot % 3].cancel())
    if kind in ('fut-set', 'fut-raise'):
        future = m.futures[slot % 3]
        if future.done():
            return 'done'
        if kind == 'fut-set':
            future.set_result(slot)
        else:
            future.set_exception(Boom(slot))
        return None
    if kind == 'cancel':
        task = m.tasks[op['actor'] % len(m.tasks)]
        if task == aio.current_task() or task.done():
            return None
        task.cancel()
        return None
    if kind == 'join':
        # only looks at it, without being chained to it
        task = m.tasks[op['actor'] % len(m.tasks)]
        done, pending = await aio.wait([task], timeout=op['hold'] or None) if task is not m.tasks[int(me[1:])] else ((), ())
        m.act(me)
        return (len(done), len(pending), task.done())
    if kind == 'timeout':
        delay = op['timeout']
        if delay is not None:
            m.will(f'{me}!', delay)
        context = aio.timeout_at(None if delay is None else m.now() + delay) if op['at'] else aio.timeout(delay)
        try:
            async with context as timeout:
                if op['reschedule'] == 'never':
                    timeout.reschedule(None)
                elif op['reschedule'] is not None:
                    m.will(f'{me}!', op['reschedule'])
                    timeout.reschedule(m.now() + op['reschedule'])
                await run_ops(m, me, here, op['ops'])
        except aio.CancelledError:
            if context.expired():
                # cancelled from outside too after it expired, which the emulation does not count
                m.ambiguous = True
            raise
        finally:
            m.record(me, here, 'expired', context.expired())
        return None
    children = []
    names = {}
    for number, child in enumerate(op['children']):
        name = f'{here}.c{number}'
        value = make_child(m, name, child)
        if kind == 'gather' and any(value is child for child in children):
            # the emulation removes duplicates intentionally
            continue
        children.append(value)
    if kind == 'gather':
        results = await aio.gather(*children, return_exceptions=op['exceptions'])
        return [describe(m, result) if isinstance(result, BaseException) else result for result in results]
    if op['timeout'] is not None:
        m.will(f'{me}!', op['timeout'])
    if kind == 'wait':
        children = [aio.ensure_future(child) for child in children]
        done, pending = await aio.wait(children, timeout=op['timeout'], return_when=getattr(aio, op['mode']))
        result = (sorted(index for index, child in enumerate(children) if child in done), sorted(index for index, child in enumerate(children) if child in pending))
        await hold(m, me, op)
        later = (sorted(index for index, child in enumerate(children) if child in done), sorted(index for index, child in enumerate(children) if child in pending))
        if later != result:
            return ('changed', result, later)
        for child in done:
            if not child.cancelled():
                child.exception()
        return result
    if kind == 'wait-for':
        return await aio.wait_for(children[0], op['timeout'])
    if kind == 'shield':
        inner = aio.ensure_future(children[0])
        try:
            return await aio.wait_for(aio.shield(inner), op['timeout'])
        finally:
            m.record(me, here, 'inner', inner.done())
    if kind == 'completed':
        results = []
        if sum(m.aio.isfuture(child) and child.done() for child in children) > 1:
            # which of them comes first is arbitrary
            m.ambiguous = True
        for waiter in aio.as_completed(children, timeout=op['timeout']):
            try:
                result = await waiter
            except Exception as exception:
                result = describe(m, exception)
            m.record(me, here, 'completed', result)
            results.append(result)
        return results
    raise RuntimeError(kind)


async def run_program(m):
    m.prepare()
    for index in range(len(m.plan['actors'])):
        m.tasks.append(m.aio.create_task(run_actor(m, index)))
    await m.aio.sleep(HORIZON)
    m.over = True
    left = [index for index, task in enumerate(m.tasks) if not task.done()]
    for task in m.tasks:
        if not task.done():
            task.cancel()
    for future in m.futures:
        future.cancel()
    await m.aio.sleep(0.1)
    await m.aio.sleep(5.0)
    return left, [index for index, task in enumerate(m.tasks) if not task.done()]


class VirtualSelector:
    def __init__(self, loop):
        self.loop = loop

    def select(self, timeout):
        if timeout is None:
            raise RuntimeError('the reference would wait forever')
        if timeout > 0:
            self.loop.virtual += timeout
        return []


class VirtualLoop(REFERENCE.base_events.BaseEventLoop):
    def __init__(self):
        super().__init__()
        self.virtual = 1000.0
        self._clock_resolution = 1e-9
        self._selector = VirtualSelector(self)
        self.set_exception_handler(lambda loop, context: None)

    def time(self):
        return self.virtual

    def _process_events(self, events):
        pass

    def _write_to_self(self):
        pass

    def close(self):
        self._closed = True
        self._ready.clear()
        self._scheduled.clear()


def run_reference(plan):
    """Runs in a thread of its own in the real world, without anything of the simulation."""
    loop = VirtualLoop()
    machine = Machine(REFERENCE, loop, plan, loop.time)
    try:
        machine.left = loop.run_until_complete(run_program(machine))
    finally:
        loop.close()
    return machine


def comparable(actions):
    actions = sorted(action for action in actions if action[0] <= HORIZON + GAP)
    if actions and actions[-1][0] > HORIZON - GAP:
        return False
    for (t0, who0), (t1, who1) in zip(actions, actions[1:]):
        if t1 - t0 < GAP and not (t1 - t0 < 1e-6 and who0 == who1):
            return False
    return True


def run(plan, sim):
    reference = run_reference(plan)
    if reference.ambiguous or not comparable(reference.actions):
        sim.probe('not_comparable')
        sim.probe(f'not_comparable_{len(plan["actors"])}')
        return
    box = []
    sim.probe(f'compared_{len(plan["actors"])}')

    async def main(loop):
        machine = Machine(EMULATION, loop, plan, lambda: sim.now, sim.log)
        box.append(machine)
        machine.left = await run_program(machine)

    entry = plan.get('entry')
    if entry is None:
        run_async(sim, main, check_errors=False)
    else:
        async def entered():
            loop = EMULATION.get_running_loop()
            await main(loop)
            return 'result'
        if entry == 'factory':
            loops = []

            def factory():
                loops.append(new_loop(sim))
                return loops[0]
            result = EMULATION.run(entered(), loop_factory=factory)
            if not loops or box[0].loop is not loops[0]:
                raise Violation('factory', f'run() did not use the loop of its factory {plan}')
        elif entry == 'complete':
            loop = new_loop(sim)
            result = loop.run_until_complete(entered())
            stop_loop(sim, loop)
        else:
            result = EMULATION.run(entered())
        if result != 'result':
            raise Violation('run-result', f'{entry}: {result!r} {plan}')
    no_errors(sim, allow=(Boom, TimeoutError))
    machine = box[0]
    for who in sorted({*reference.events, *machine.events}):
        expected = reference.events.get(who, [])
        got = machine.events.get(who, [])
        for index in range(max(len(expected), len(got))):
            a = expected[index] if index < len(expected) else None
            b = got[index] if index < len(got) else None
            if a is None or b is None or a[1:] != b[1:] or abs(a[0] - b[0]) > GAP / 2:
                kind = (a or b)[2] if len(a or b) > 2 else 'end'
                raise Violation(f'differs-{op_kind(plan, (a or b))}', f'{who}: asyncio {a}, emulation {b}; before {expected[max(0, index - 3):index]} {plan}')
    if reference.left != machine.left:
        raise Violation('left', f'tasks left: asyncio {reference.left}, emulation {machine.left} {plan}')


def op_kind(plan, event):
    for item in event[1:3]:
        if isinstance(item, str) and item.startswith('a') and '.' in item:
            ops = plan['actors'][int(item.split('.')[0][1:])]
            kind = None
            for part in item.split('.')[1:]:
                if part.startswith('c'):
                    break
                if int(part) >= len(ops):
                    break
                kind = ops[int(part)]['kind']
                ops = ops[int(part)].get('ops', [])
            return kind
    return 'end'
