"""Executors: workers, claims, cancellation, shutdown; the thread queue."""
import threading, time
from ..world import *
from scarletio.core import SyncQueue, SyncWait, Executor

BUDGET = {'quick': 12000, 'thorough': 300000}
RULE = ('One evaluation is up to ten calls handed to the executors of a loop (shared or claimed workers), with cancellations '
        'before, during and after the call and with release / cancellation of all the executors, or up to four threads '
        'producing into and consuming from a thread queue; threads are preempted at every point where the interpreter may '
        'switch.')


def gen(rng):
    params = swarm(rng, preempt=[None, 60, 20, 8], stall=[None, None, 0.1, 0.4], stall_max=[0.005], late=[None, None, 0.2],
                   late_max=[0.003])
    if rng.random() < 0.35:
        consumers = [[{'kind': rng.choice(['get', 'get', 'no_wait', 'repr']), 'gap': rng.choice([None, None, 0.0, 0.005])}
                      for _ in range(rng.randint(1, 5))] for _ in range(rng.randint(1, 3))]
        producers = [[rng.choice([None, None, 0.0, 0.004]) for _ in range(rng.randint(0, 5))]
                     for _ in range(rng.randint(1, 2))]
        return {'params': params, 'mode': 'queue', 'consumers': consumers, 'producers': producers,
                'initial': rng.choice([0, 0, 1, 3]), 'cancel_at': rng.choice([0.0, 0.003, 0.02, 0.05])}

    def call():
        return {'work': rng.choice([None, None, 0.0, 0.004, 0.02, 0.2]),
                'how': rng.choice(['return', 'return', 'raise', 'stop', 'base']),
                'cancel': rng.choice([None, None, None, 'now', 0.0, 0.002, 0.01, 0.05, 'task', 'after'])}

    def actor():
        if rng.random() < 0.6:
            return {'kind': 'shared', 'gap': rng.choice([None, None, 0.003, 0.05]), 'calls': [call() for _ in range(rng.randint(1, 4))],
                    'wait': rng.random() < 0.7}
        return {'kind': 'claim', 'gap': rng.choice([None, None, 0.003, 0.05]), 'calls': [call() for _ in range(rng.randint(0, 4))],
                'release': rng.choice(['with', 'early', 'del', 'end', 0.003, 0.03]), 'wait': rng.random() < 0.5}
    return {'params': params, 'mode': 'executor', 'actors': [actor() for _ in range(rng.randint(1, 4))],
            'end': rng.choice(['idle', 'idle', 'stop', 'release', 'cancel']), 'end_at': rng.choice([0.001, 0.01, 0.05, 0.4]),
            'thread_fail': rng.choice([0, 0, 0, 0.2, 0.6])}


class Call:
    def __init__(self, tag, spec):
        self.tag = tag
        self.spec = spec
        self.given = None
        self.started = None
        self.ended = None
        self.runs = 0
        self.thread = None
        self.future = None
        self.cancelled_at = None
        self.exception = {'raise': Marker(tag), 'stop': StopIteration(tag), 'base': BaseMarker(tag)}.get(spec['how'])
        self.outcome = None
        self.claim = None


class BaseMarker(BaseException):
    pass


class World:
    pass


def function(w, call):
    def func():
        call.runs += 1
        call.started = w.sim.now
        call.thread = threading.current_thread()
        w.workers.add(call.thread)
        w.sim.log('start', call.tag)
        key = id(call.thread)
        if w.busy.get(key):
            w.bad = Violation('not-serial', f'{call.tag}')
        w.busy[key] = True
        try:
            work = call.spec['work']
            if work is not None:
                time.sleep(work)
        finally:
            w.busy[key] = False
            call.ended = w.sim.now
            w.sim.log('end', call.tag)
        if call.exception is not None:
            raise call.exception
        return call
    return func


def mark_cancelled(w, call):
    if call.future.is_pending():
        call.cancelled_at = w.sim.now
        call.future.cancel()


async def wait_call(w, call):
    try:
        await call.future
    except CancelledError:
        pass
    except (Marker, BaseMarker, RuntimeError):
        pass


async def later_cancel(w, call, delay):
    await sleep(delay)
    mark_cancelled(w, call)


async def actor(w, index, spec):
    loop = w.loop
    if spec['gap'] is not None:
        await sleep(spec['gap'])
    claim = None
    if spec['kind'] == 'claim':
        try:
            claim = loop.claim_executor()
        except RuntimeError:
            if not w.thread_fails:
                raise
            w.failed_starts += 1
            return
    calls = []
    side = []
    for j, call_spec in enumerate(spec['calls']):
        if claim is not None and (claim.executor is None or w.end_time is not None):
            # a claim is of no use after the executors of the loop were ended
            break
        call = Call((index, j), call_spec)
        call.claim = claim and index
        call.given = w.sim.now
        func = function(w, call)
        if claim is None:
            try:
                call.future = loop.run_in_executor(func)
            except RuntimeError:
                if not w.thread_fails:
                    raise
                w.failed_starts += 1
                continue
        else:
            call.future = claim.execute(func)
        w.calls.append(call)
        calls.append(call)
        cancel = call_spec['cancel']
        if cancel == 'now':
            mark_cancelled(w, call)
        elif isinstance(cancel, float):
            side.append(Task(loop, later_cancel(w, call, cancel)))
        if spec['wait']:
            waiter = Task(loop, wait_call(w, call))
            if cancel == 'task':
                await skip_ready_cycle()
                if call.future.is_pending():
                    call.cancelled_at = w.sim.now
                waiter.cancel()
            await waiter
            if cancel == 'after':
                call.future.cancel()
        if claim is not None and isinstance(spec['release'], float):
            loop.call_after(spec['release'], claim.release)
    if claim is not None:
        release = spec['release']
        if release == 'with':
            with claim:
                pass
            claim.release()
        elif release == 'early':
            claim.release()
            try:
                claim.execute(lambda: None)
            except RuntimeError:
                pass
            else:
                raise Violation('released-claim', 'a released claim accepted a call')
        elif release == 'del':
            claim = None
        else:
            for call in calls:
                await wait_call(w, call)
            claim.release()
    for call in calls:
        await wait_call(w, call)
    for task in side:
        await task
    claim = None


def run(plan, sim):
    if plan['mode'] == 'queue':
        return run_queue(plan, sim)
    w = World()
    w.sim = sim
    w.loop = loop = new_loop(sim)
    w.calls = []
    w.workers = set()
    w.busy = {}
    w.bad = None
    w.thread_fails = plan['thread_fail']
    w.failed_starts = 0
    end = plan['end']
    boxes = []

    async def main():
        if plan['thread_fail']:
            sim.params['thread_fail'] = plan['thread_fail']
        tasks = [Task(loop, actor(w, i, spec)) for i, spec in enumerate(plan['actors'])]
        if end in ('release', 'cancel'):
            await sleep(plan['end_at'])
            w.pending_at_end = [call for call in w.calls if call.started is None]
            w.end_time = sim.now
            if end == 'release':
                loop.release_executors()
            else:
                loop.cancel_executors()
        for task in tasks:
            await task

    w.end_time = None
    box = start_on(sim, loop, main)
    if end == 'stop':
        time.sleep(plan['end_at'])
        w.end_time = sim.now
        w.calls_before_stop = list(w.calls)
        loop.stop()
        loop.join()
    else:
        box.event.wait()
        finish(sim, box)
    total = sum((c.spec['work'] or 0.0) for c in w.calls)
    time.sleep(total + 0.5 + (1.0 if plan['params'].get('stall') else 0.0))
    if w.bad is not None:
        raise w.bad
    slack = 0.012 + 4 * (plan['params'].get('late_max') or 0.0) + sim.faults['stalled_thread'] * sim.stall_max
    check(w, plan, slack)
    for thread in w.workers:
        if threading.current_thread() is thread or thread is loop:
            raise Violation('wrong-thread', 'a call ran on the loop')
    if end == 'stop':
        gone(w, slack)
    else:
        # every worker is given back and the idle ones go away
        def counts():
            return loop.get_used_executor_count(), loop.get_free_executor_count()
        used, free = counts()
        if used:
            raise Violation('worker-kept', f'{used} workers are used after every call ended')
        workers = len(w.calls) + len(plan['actors'])
        time.sleep(2.0 * (workers + 1) + 2.0)
        used, free = counts()
        if used or free:
            raise Violation('worker-kept', f'{used} used, {free} free workers after a long idle time')
        gone(w, slack)
        stop_loop(sim, loop)
    no_errors(sim, allow=(Marker, BaseMarker, CancelledError, RuntimeError))


def gone(w, slack):
    for thread in w.workers:
        if thread.is_alive():
            raise Violation('worker-alive', f'{thread!r} is alive after the executors ended')


def check(w, plan, slack):
    stopped = plan['end'] == 'stop'
    cancel_all = plan['end'] == 'cancel'
    last = {}
    for call in w.calls:
        future = call.future
        spec = call.spec
        if call.runs > 1:
            raise Violation('ran-twice', f'{call.tag} {spec} ran {call.runs} times')
        ended = w.end_time is not None and w.end_time <= call.given + slack + 0.3
        outcome = outcome_of(future)
        previous = last.get(call.claim) if call.claim is not None else None
        if call.claim is not None and call.runs:
            if previous is not None and previous.runs:
                if previous.started > call.started or previous.thread is not call.thread:
                    raise Violation('claim-order', f'{previous.tag} and {call.tag} out of order or on different workers')
        if call.runs and not (previous is not None and call.claim is not None):
            # a fresh or idle worker takes it at once
            if call.started > call.given + slack:
                raise Violation('call-delayed', f'{call.tag} given at {call.given}, started at {call.started}')
        if call.runs and call.claim is not None and previous is not None:
            ready = max([call.given] + [c.ended for c in w.calls if c.claim == call.claim and c.runs and c.started < call.started
                                        and c.ended is not None])
            if call.started > ready + slack:
                raise Violation('call-delayed', f'{call.tag} could start at {ready}, started at {call.started}')
        if call.claim is not None:
            last[call.claim] = call if call.runs else last.get(call.claim)
        if call.runs and call.cancelled_at is not None and call.cancelled_at + slack < call.started:
            raise Violation('ran-cancelled', f'{call.tag} cancelled at {call.cancelled_at}, started at {call.started}')
        if call.runs and cancel_all and call.given <= w.end_time and w.end_time + slack < call.started:
            raise Violation('ran-cancelled', f'{call.tag} started at {call.started}, executors cancelled at {w.end_time}')
        if not call.runs:
            if call.cancelled_at is not None:
                pass
            elif cancel_all and w.end_time is not None and w.end_time >= call.given and outcome == ('cancelled',):
                pass
            elif stopped:
                if w.end_time > call.given + slack and call.claim is None:
                    raise Violation('call-lost', f'{call.tag} {spec} never ran; given at {call.given}')
            else:
                raise Violation('call-lost', f'{call.tag} {spec} never ran; {outcome}')
        if stopped:
            if call.runs and call.ended is not None and call.ended + slack < w.end_time and outcome == ('pending',):
                raise Violation('outcome-lost', f'{call.tag} {spec} ended at {call.ended}')
            continue
        if outcome[0] == 'pending':
            raise Violation('outcome-lost', f'{call.tag} {spec} runs {call.runs}')
        if outcome[0] == 'cancelled':
            if call.cancelled_at is None and not (cancel_all and not call.runs):
                raise Violation('cancelled-itself', f'{call.tag} {spec}')
            continue
        if not call.runs:
            raise Violation('made-up', f'{call.tag} {outcome}')
        how = spec['how']
        if how == 'return':
            good = outcome == ('return', call)
        elif how == 'stop':
            good = outcome[0] == 'raise' and type(outcome[1]) is RuntimeError and outcome[1].__cause__ is call.exception
        else:
            good = outcome[0] == 'raise' and outcome[1] is call.exception
        if not good:
            raise Violation('wrong-outcome', f'{call.tag} {spec}: {outcome}')


def run_queue(plan, sim):
    initial = [('i', i) for i in range(plan['initial'])]
    queue = SyncQueue(initial) if initial else SyncQueue()
    put = list(initial)
    got = []
    cancelled = []
    errors = []
    producers = []
    state = {'cancelled': False, 'put_order': {}, }

    def guard(function, *args):
        try:
            function(*args)
        except BaseException as e:
            errors.append(e)

    def producer(i, gaps):
        for j, gap in enumerate(gaps):
            if gap is not None:
                time.sleep(gap)
            put.append((i, j))
            queue.set_result((i, j))

    def consumer(i, ops):
        for op in ops:
            if op['gap'] is not None:
                time.sleep(op['gap'])
            if op['kind'] == 'repr':
                repr(queue)
                len(queue)
                bool(queue)
                copied = queue.copy()
                try:
                    copied.get_result_no_wait()
                except (IndexError, CancelledError):
                    pass
                continue
            try:
                if op['kind'] == 'get':
                    item = queue.get_result()
                else:
                    item = queue.get_result_no_wait()
            except CancelledError:
                if not state['cancelled']:
                    raise Violation('queue-cancelled', 'cancelled before it was')
                cancelled.append(i)
                return
            except IndexError:
                if op['kind'] == 'get':
                    raise
                continue
            sim.log('got', i, item)
            got.append((i, item))

    consumers = [threading.Thread(target=guard, args=(consumer, i, ops)) for i, ops in enumerate(plan['consumers'])]
    producers = [threading.Thread(target=guard, args=(producer, i, gaps)) for i, gaps in enumerate(plan['producers'])]
    for thread in consumers + producers:
        thread.start()
    for thread in producers:
        thread.join()
    time.sleep(plan['cancel_at'])
    state['cancelled'] = True
    queue.cancel()
    for thread in consumers:
        thread.join()
    if errors:
        if isinstance(errors[0], (Violation, HarnessError, S.SimStop)):
            raise errors[0]
        raise unexpected(errors[0], ''.join(traceback.format_exception(errors[0])))
    rest = []
    while True:
        try:
            rest.append(queue.get_result_no_wait())
        except CancelledError:
            break
        if len(rest) > len(put):
            break
    everything = [item for _, item in got] + rest
    if sorted(everything, key=repr) != sorted(put, key=repr):
        raise Violation('queue-content', f'put {put}, got {got}, left {rest}')
    for i in range(len(plan['consumers'])):
        mine = [item for j, item in got if j == i]
        for source in ['i'] + list(range(len(plan['producers']))):
            order = [item[1] for item in mine if item[0] == source]
            if order != sorted(order):
                raise Violation('queue-order', f'consumer {i}: {mine}')
    for source in ['i'] + list(range(len(plan['producers']))):
        order = [item[1] for item in rest if item[0] == source]
        if order != sorted(order):
            raise Violation('queue-order', f'rest: {rest}')
    no_errors(sim)


def valid(plan):
    if plan['mode'] == 'queue':
        return bool(plan['consumers']) and bool(plan['producers'])
    return bool(plan['actors'])
