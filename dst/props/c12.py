"""Handing work to a loop from other threads."""
import threading, time
from ..world import *

BUDGET = {'quick': 12000, 'thorough': 300000}
RULE = ('One evaluation is one to four threads (and optionally an other loop) handing callbacks, coroutines and futures to a '
        'loop which is idle, polling timers or busy; threads are preempted between source lines of the library.')

KINDS = ('soon', 'soon', 'lazy', 'task', 'run', 'run', 'ensure', 'future', 'future_wait', 'run_future', 'foreign')


def gen(rng):
    def op():
        return {'kind': rng.choice(KINDS), 'gap': rng.choice([None, None, None, 0.0, 0.001, 0.01]),
                'work': rng.choice([None, None, 'skip', 0.0, 0.01, 0.02]),
                'how': rng.choice(['return', 'return', 'return', 'raise', 'cancel']),
                'timeout': rng.choice([None, None, None, 0.0, 0.005, 0.015, 0.05])}
    return {'params': swarm(rng, preempt=[None, 60, 20, 8], late=[None, None, 0.2], late_max=[0.003], stall=[None, None, 0.1, 0.4], stall_max=[0.02]),
            'threads': [[op() for _ in range(rng.randint(1, 6))] for _ in range(rng.randint(1, 4))],
            'other_loop': rng.random() < 0.3,
            'background': rng.choice([None, None, 'timer', 'busy', 'ready'])}


class Op:
    def __init__(self, thread, index, spec):
        self.thread = thread
        self.index = index
        self.spec = spec
        self.tag = (thread, index)
        self.runs = 0
        self.ran_at = None
        self.given_at = None
        self.answer = None
        self.answered_at = None
        self.exception = Marker(self.tag)
        self.cancelled = 0
        self.finished = False
        self.handle = 0


class World:
    pass


async def coroutine(w, op):
    ran(w, op)
    work = op.spec['work']
    try:
        if work == 'skip':
            await skip_ready_cycle()
        elif work is not None:
            await sleep(work)
    except CancelledError:
        op.cancelled += 1
        raise
    op.finished = True
    if op.spec['how'] == 'raise':
        raise op.exception
    if op.spec['how'] == 'cancel':
        raise CancelledError
    return op.tag


class Awaitable:
    def __init__(self, w, op):
        self.w = w
        self.op = op

    def __await__(self):
        return (yield from coroutine(self.w, self.op).__await__())


def ran(w, op):
    w.order.append(op)
    op.runs += 1
    op.ran_at = w.sim.now
    w.sim.log('ran', op.tag)
    if threading.current_thread() is not w.loop:
        w.bad = Violation('wrong-thread', f'{op.tag} ran on {threading.current_thread()!r}')


def callback(w, op):
    ran(w, op)
    op.finished = True


def caller(w, thread, ops):
    sim = w.sim
    loop = w.loop
    for op in ops:
        spec = op.spec
        if spec['gap'] is not None:
            time.sleep(spec['gap'])
        kind = spec['kind']
        op.given_at = sim.now
        if kind == 'soon':
            handle = loop.call_soon_thread_safe(callback, w, op)
            if handle is None:
                raise Violation('refused', f'{op.tag}')
        elif kind == 'lazy':
            handle = loop.call_soon_thread_safe_lazy(callback, w, op)
            if handle is None:
                raise Violation('refused', f'{op.tag}')
        elif kind in ('task', 'ensure', 'future_wait'):
            if kind == 'ensure':
                future = loop.ensure_future_thread_safe(Awaitable(w, op))
            else:
                future = loop.create_task_thread_safe(coroutine(w, op))
            if kind == 'future_wait':
                answer(w, op, future.sync_wrap().wait, spec['timeout'], True)
        elif kind == 'run':
            answer(w, op, loop.run, coroutine(w, op), spec['timeout'])
        elif kind in ('run_future', 'foreign'):
            # a future of the loop (or of the other loop) which is completed in a while
            owner = loop if kind == 'run_future' or w.other is None else w.other
            future = Future(owner)

            def complete(op=op, future=future):
                op.runs += 1
                op.ran_at = sim.now
                if op.spec['how'] == 'return':
                    op.finished = bool(future.set_result_if_pending(op.tag))
                elif op.spec['how'] == 'raise':
                    op.finished = bool(future.set_exception_if_pending(op.exception))
                else:
                    op.finished = True
                    future.cancel()
            delay = spec['work'] if isinstance(spec['work'], float) else 0.0
            owner.call_soon_thread_safe(owner.call_after, delay, complete)
            answer(w, op, loop.run, future, spec['timeout'])
        elif kind == 'future':
            # set by this thread, waited by a task there
            future = Future(loop)
            task = loop.create_task_thread_safe(waiter(w, op, future))
            wrapper = future.sync_wrap()
            if spec['work'] is not None and spec['work'] != 'skip':
                time.sleep(spec['work'])
            op.set_at = sim.now
            if spec['how'] == 'return':
                wrapper.set_result(op.tag)
            elif spec['how'] == 'raise':
                wrapper.set_exception(op.exception)
            else:
                wrapper.cancel()
            answer(w, op, task.sync_wrap().wait, None, False)


async def waiter(w, op, future):
    ran(w, op)
    try:
        result = await future
    finally:
        op.finished = True
        op.woken_at = w.sim.now
    return result


def answer(w, op, function, *args):
    try:
        op.answer = ('return', function(*args))
    except CancelledError as e:
        op.answer = ('cancelled',)
    except TimeoutError:
        op.answer = ('timeout',)
    except Marker as e:
        op.answer = ('raise', e)
    op.answered_at = w.sim.now
    w.sim.log('answer', op.tag, op.answer[0])


async def background(w, kind):
    while not w.stopping:
        if kind == 'timer':
            await sleep(0.004, w.loop)
        elif kind == 'busy':
            burn(w.sim, 0.003)
            await sleep(0.002, w.loop)
        else:
            for _ in range(5):
                await skip_ready_cycle()
            await sleep(0.0017, w.loop)


def run(plan, sim):
    w = World()
    w.sim = sim
    w.loop = loop = new_loop(sim)
    w.other = new_loop(sim, 'other') if plan['other_loop'] else None
    w.order = []
    w.bad = None
    w.stopping = False
    if plan['background']:
        w.background = loop.create_task_thread_safe(background(w, plan['background']))
    all_ops = []
    threads = []
    errors = []

    def body(i, ops):
        try:
            caller(w, i, ops)
        except BaseException as e:
            errors.append(e)

    for i, specs in enumerate(plan['threads']):
        ops = [Op(i, j, spec) for j, spec in enumerate(specs)]
        all_ops.append(ops)
        threads.append(threading.Thread(target=body, args=(i, ops)))
    for thread in threads:
        thread.start()
    for thread in threads:
        thread.join()
    time.sleep(0.1 + (2.0 if plan['params'].get('stall') else 0.0))
    w.stopping = True
    time.sleep(0.02)
    if errors:
        if isinstance(errors[0], (Violation, HarnessError, S.SimStop)):
            raise errors[0]
        raise unexpected(errors[0], ''.join(traceback.format_exception(errors[0])))
    if w.bad:
        raise w.bad
    slack = 0.012 + 4 * (plan['params'].get('late_max') or 0.0)
    slack += sim.faults['stalled_thread'] * sim.stall_max
    for ops in all_ops:
        for op in ops:
            spec = op.spec
            timed = spec['timeout'] if spec['kind'] in ('run', 'future_wait', 'run_future', 'foreign') else None
            if op.runs != 1:
                # might have timed out before its first step
                if not (op.runs == 0 and op.answer == ('timeout',)):
                    raise Violation('not-once', f'{op.tag} {spec} ran {op.runs} times')
            elif spec['kind'] not in ('run_future', 'foreign') and op.ran_at - op.given_at > slack:
                raise Violation('late-run', f'{op.tag} {spec} given at {op.given_at}, ran at {op.ran_at}')
            if not op.finished and not op.answer == ('timeout',):
                raise Violation('not-finished', f'{op.tag} {spec}')
            if op.answer is None:
                if spec['kind'] in ('run', 'future_wait', 'future', 'run_future', 'foreign'):
                    raise Violation('no-answer', f'{op.tag} {spec}')
                continue
            want = {'return': ('return', op.tag), 'raise': ('raise', op.exception), 'cancel': ('cancelled',)}[spec['how']]
            if op.answer == ('timeout',):
                if timed is None or op.answered_at < op.given_at + timed - 1e-6:
                    raise Violation('early-timeout', f'{op.tag} {spec}')
                work = spec['work'] if isinstance(spec['work'], float) else 0.0
                if work + slack < timed:
                    raise Violation('answer-lost', f'{op.tag} {spec} timed out')
                if op.answered_at > op.given_at + timed + slack:
                    raise Violation('late-timeout', f'{op.tag} {spec}')
                if not op.finished and spec['kind'] == 'run' and op.runs and not op.cancelled and spec['work'] != 'skip':
                    raise Violation('not-cancelled', f'{op.tag} {spec} goes on after the timeout')
            elif op.answer != want:
                raise Violation('wrong-answer', f'{op.tag} {spec}: {op.answer}')
            elif op.answered_at - op.given_at > 2 * slack + (spec['work'] if isinstance(spec['work'], float) else 0.0):
                raise Violation('late-answer', f'{op.tag} {spec}: given {op.given_at}, answered {op.answered_at}')
        # in the order handed over
        sequence = [op.index for op in w.order if op.thread == ops[0].thread]
        if sequence != sorted(sequence):
            raise Violation('reordered', f'thread {ops[0].thread}: {sequence}')
    stop_loop(sim, loop)
    if w.other is not None:
        stop_loop(sim, w.other)
    no_errors(sim, allow=(Marker, CancelledError))


def valid(plan):
    return all(plan['threads'])
