"""Asynchronous generators."""
import threading, time, weakref
from ..world import *

STUBS = ('the set of live generators of a loop keeps insertion order instead of the order of memory addresses',)
BUDGET = {'quick': 12000, 'thorough': 200000}
RULE = ('One evaluation is up to five asynchronous generators on one or two loops, iterated to a drawn point, then finished, '
        'closed, dropped on their loop or an other thread, failed, cancelled, or left for the shutdown.')

ENDS = ('finish', 'aclose', 'drop', 'drop', 'drop_thread', 'break', 'fail', 'cancel', 'shutdown', 'shutdown', 'abandon_task')


def gen(rng):
    generators = []
    for _ in range(rng.randint(1, 5)):
        generators.append({'steps': rng.randint(0, 4), 'end': rng.choice(ENDS), 'wait': rng.choice([None, 0.0, 0.01, 0.02]),
                           'cleanup': rng.choice(['plain', 'sleep', 'sleep', 'future', 'fail', 'sleep_fail', 'many', 'inner']),
                           'at': rng.choice([0.0, 0.0, 0.01, 0.02]), 'loop': rng.choice([0, 0, 1])})
    return {'params': swarm(rng, preempt=[None, None, 40], late=[None, 0.2], late_max=[0.005]),
            'generators': generators, 'shutdown_at': rng.choice([0.05, 0.1, 0.02])}


class OrderedWeakSet:
    """Replaces the `WeakSet` of a loop, whose order depends on memory addresses."""
    def __init__(self):
        self.refs = {}

    def add(self, x):
        self.refs[id(x)] = weakref.ref(x)

    def discard(self, x):
        self.refs.pop(id(x), None)

    def clear(self):
        self.refs.clear()

    def __iter__(self):
        for r in list(self.refs.values()):
            x = r()
            if x is not None:
                yield x

    def __len__(self):
        return sum(1 for _ in self)


class State:
    def __init__(self, index, spec):
        self.index = index
        self.spec = spec
        self.started = 0
        self.cleanup_started = 0
        self.cleanup_ended = 0
        self.wrong_thread = None
        self.yielded = 0
        self.generator = None
        self.exhausted = False
        self.inner_cleaned = 0


async def inner_generator(s):
    try:
        yield 1
        yield 2
    finally:
        await sleep(0.01)
        s.inner_cleaned += 1


async def generator_function(sim, loop, s):
    s.started += 1
    spec = s.spec
    inner = None
    try:
        if spec['cleanup'] == 'inner':
            inner = inner_generator(s)
            await inner.__anext__()
        for i in range(spec['steps'] + 3):
            if spec['wait'] is not None:
                await sleep(spec['wait'], loop)
            s.yielded += 1
            yield i
            if spec['end'] == 'fail' and i + 1 == spec['steps']:
                raise Marker(('body', s.index))
    finally:
        s.cleanup_started += 1
        sim.log('cleanup', s.index, threading.current_thread().name)
        if threading.current_thread() is not loop:
            s.wrong_thread = repr(threading.current_thread())
        kind = spec['cleanup']
        if kind in ('sleep', 'sleep_fail'):
            await sleep(0.01, loop)
        elif kind == 'future':
            future = Future(loop)
            loop.call_soon(future.set_result, None)
            await future
        elif kind == 'many':
            for _ in range(3):
                await skip_ready_cycle()
        # `inner` gets dropped with our frame
        s.cleanup_ended += 1
        if threading.current_thread() is not loop:
            s.wrong_thread = repr(threading.current_thread())
        if kind in ('fail', 'sleep_fail'):
            raise Marker(('cleanup', s.index))


async def use(sim, loop, s):
    spec = s.spec
    if spec['at']:
        await sleep(spec['at'], loop)
    generator = generator_function(sim, loop, s)
    end = spec['end']
    if end == 'break':
        n = 0
        async for _ in generator:
            n += 1
            if n >= spec['steps']:
                break
        del generator
        return
    if end == 'finish' or end == 'fail':
        try:
            async for _ in generator:
                pass
        except Marker:
            pass
        s.exhausted = True
        return
    if end == 'cancel':
        async def iterate(generator):
            async for _ in generator:
                await sleep(0.01, loop)
        task = Task(loop, iterate(generator))
        del generator
        await sleep(0.015, loop)
        task.cancel()
        sim.fault('cancel')
        try:
            await task
        except (CancelledError, Marker):
            pass
        return
    for _ in range(spec['steps']):
        try:
            await generator.__anext__()
        except StopAsyncIteration:
            break
    if end == 'aclose':
        try:
            await generator.aclose()
        except Marker:
            pass
        if s.started and not (s.cleanup_ended == 1):
            raise Violation('not-closed', f'aclose of {s.index} returned')
        return
    if end in ('shutdown', 'drop_thread'):
        s.generator = generator
    if end == 'abandon_task':
        # a task keeps it, then the task is dropped together with it
        async def hold(generator):
            await sleep(0.01, loop)
        Task(loop, hold(generator))
    del generator


async def group(sim, loop, states):
    tasks = [Task(loop, use(sim, loop, s)) for s in states]
    for task in tasks:
        await task


async def shutdown(sim, loop, states):
    await loop.shutdown_async_generators()
    for s in states:
        if s.spec['end'] == 'shutdown' and s.started and s.cleanup_ended != 1:
            raise Violation('not-closed', f'generator {s.index} {s.spec} is not closed after the shutdown: started '
                                          f'{s.cleanup_started} ended {s.cleanup_ended}')


def run(plan, sim):
    import sys
    unraisable = []
    old_hook = sys.unraisablehook
    sys.unraisablehook = lambda u: unraisable.append(repr(u.exc_value))
    try:
        loops = [new_loop(sim, 'a'), new_loop(sim, 'b')]
        for loop in loops:
            loop._async_generators = OrderedWeakSet()
        states = [State(i, g) for i, g in enumerate(plan['generators'])]
        of = [[s for s in states if s.spec['loop'] == i] for i in (0, 1)]
        boxes = [start_on(sim, loops[i], group, sim, loops[i], of[i]) for i in (0, 1) if of[i]]
        for box in boxes:
            box.event.wait()
            finish(sim, box)
        droppers = []
        for s in states:
            if s.spec['end'] == 'drop_thread':
                def drop(s=s):
                    sim.fault('drop_on_thread')
                    s.generator = None
                droppers.append(threading.Thread(target=drop))
        for thread in droppers:
            thread.start()
        for thread in droppers:
            thread.join()
        time.sleep(plan['shutdown_at'])
        for s in states:
            if s.spec['end'] in ('drop_thread', 'drop', 'break') and s.started and plan['shutdown_at'] >= 0.05 and not s.cleanup_ended:
                raise Violation('not-closed', f'dropped generator {s.index} {s.spec} was not closed before the shutdown')
        boxes = [start_on(sim, loops[i], shutdown, sim, loops[i], of[i]) for i in (0, 1) if of[i]]
        for box in boxes:
            box.event.wait()
            finish(sim, box)
        time.sleep(0.1)
        if unraisable:
            raise Violation('unraisable', unraisable[0])
        for s in states:
            sim.log('state', s.index, s.started, s.cleanup_started, s.cleanup_ended)
            if s.wrong_thread:
                raise Violation('wrong-thread', f'cleanup of {s.index} {s.spec} ran on {s.wrong_thread}')
            if s.started and s.cleanup_ended != 1:
                raise Violation('not-closed', f'generator {s.index} {s.spec}: cleanup started {s.cleanup_started}, ended '
                                              f'{s.cleanup_ended} times')
            if s.started and s.spec['cleanup'] == 'inner' and s.inner_cleaned != 1:
                # after the shutdown new generators are not followed, but these were started before
                raise Violation('not-closed', f'inner generator of {s.index} {s.spec}')
        for loop in loops:
            stop_loop(sim, loop)
        reported = {e.tag for e, _ in sim.errors if isinstance(e, Marker)}
        for s in states:
            if s.started and s.spec['cleanup'] in ('fail', 'sleep_fail') and s.spec['end'] in (
                    'drop', 'drop_thread', 'shutdown', 'abandon_task') and ('cleanup', s.index) not in reported:
                if s.yielded:
                    raise Violation('error-lost', f'failure of the cleanup of {s.index} {s.spec}')
        no_errors(sim, allow=(Marker, CancelledError))
    finally:
        sys.unraisablehook = old_hook
