"""Timeouts."""
from ..world import *
from scarletio import repeat_timeout
from scarletio.core.time import LOOP_TIME
from scarletio.web_common.helpers import Timeout
import threading

BUDGET = {'quick': 24000, 'thorough': 400000}
RULE = ('One evaluation is one seeded program of futures / tasks / blocks under (nested) timeouts with completions and '
        'cancellations around the deadlines.')

EPS = 2e-9


def gen(rng):
    grid = rng.choice([0.1, 0.01, 1.0])
    cases = []
    for _ in range(rng.randint(1, 4)):
        kind = rng.choice(['future', 'task', 'block', 'repeat', 'thread', 'async_wrap', 'nested'])
        case = {'kind': kind, 'timeout': rng.choice([0.0, 1, 1, 2, 3]) * grid,
                'at': rng.choice([None, 0, 1, 1, 2, 2, 3, 4]), 'how': rng.choice(['result', 'result', 'raise', 'cancel']),
                'cancel_at': rng.choice([None, None, None, 1, 2, 3]), 'before': rng.random() < 0.5,
                'second': rng.choice([None, None, 1, 2]), 'propagate': rng.random() < 0.4,
                'swallow': rng.random() < 0.2, 'linger': rng.random() < 0.5}
        if kind == 'repeat':
            case['durations'] = [rng.choice([0, 1, 2, 3]) * grid * rng.choice([1.0, 0.9, 0.5]) for _ in range(rng.randint(1, 5))]
            case['timeout'] = rng.choice([1, 2]) * grid
        if case['at'] is not None:
            case['at'] = case['at'] * grid
        if case['cancel_at'] is not None:
            case['cancel_at'] *= grid
        if case['second'] is not None:
            case['second'] *= grid
        cases.append(case)
    return {'params': swarm(rng, late=[None, None, 0.3], late_max=[0.5 * grid], tick=[None, None, 1e-6],
                            preempt=[None, None, None, 40]),
            'grid': grid, 'cases': cases, 'burn': rng.choice([None, None, 0.5, 1.5])}


class Case:
    def __init__(self, sim, loop, plan, spec, index, slack):
        self.sim = sim
        self.loop = loop
        self.spec = spec
        self.index = index
        self.slack = slack
        self.events = {}

    def bad(self, kind, detail):
        raise Violation(kind, f'case {self.index} {self.spec}: {detail}; events {self.events}')

    def cancel(self, task):
        self.events.setdefault('cancelled', LOOP_TIME())
        task.cancel()

    async def lingering(self, body):
        """The task goes on after its block was left, which must not act on it anymore."""
        try:
            return await body()
        finally:
            if 'cancelled' not in self.events and self.spec.get('linger'):
                self.events['left'] = LOOP_TIME()
                try:
                    await sleep(self.spec['timeout'] * 3 + 0.01, self.loop)
                except CancelledError:
                    if 'cancelled' not in self.events:
                        self.bad('stray-cancel', 'cancelled after the block was left')
                self.sim.probe('lingered')

    def complete(self, future, how):
        self.events.setdefault('completed', LOOP_TIME())
        if how == 'result':
            done = future.set_result_if_pending(self.index)
        elif how == 'raise':
            done = future.set_exception_if_pending(Marker(self.index))
        else:
            done = future.cancel()
        self.events['completion_accepted'] = bool(done)
        self.sim.log('complete', self.index, how, bool(done))

    def verdict(self, got, deadline, done_at, extra_cancel=None):
        self.sim.log('verdict', self.index, self.spec['kind'], got[0], round(done_at - deadline, 6))
        """`got` outcome compared with what the instants allow."""
        spec = self.spec
        accepted = self.events.get('completion_accepted')
        if got[0] == 'timeout':
            if done_at < deadline - EPS:
                self.bad('early-timeout', f'timed out at {done_at}, deadline {deadline}')
            if accepted and self.events['completed'] < deadline - self.slack - EPS:
                self.bad('result-destroyed', f'completed before the deadline {deadline}, but timed out')
            self.sim.probe('timed_out')
        else:
            if done_at > deadline + self.slack + 1e-6 and not (accepted and self.events['completed'] <= done_at):
                self.bad('late', f'{got} at {done_at}, deadline {deadline}')
            if accepted:
                want = {'result': 'return', 'raise': 'raise', 'cancel': 'cancelled'}[spec['how']]
                if got[0] != want and extra_cancel is None:
                    self.bad('wrong-outcome', f'{got} instead of {want}')
                if got[0] == 'return' and got[1] != self.index:
                    self.bad('wrong-outcome', f'{got}')
            self.sim.probe('completed')


async def get(awaitable):
    try:
        return ('return', await awaitable)
    except TimeoutError:
        return ('timeout',)
    except CancelledError:
        return ('cancelled',)
    except Marker as exception:
        return ('raise', exception)


async def run_case(case):
    loop = case.loop
    spec = case.spec
    sim = case.sim
    timeout = spec['timeout']
    future = Future(loop)
    start = LOOP_TIME()
    deadline = start + timeout
    if spec['before'] and spec['at'] is not None:
        loop.call_after(spec['at'], case.complete, future, spec['how'])
    kind = spec['kind']

    def later():
        if not spec['before'] and spec['at'] is not None:
            loop.call_after(spec['at'], case.complete, future, spec['how'])

    if kind == 'future':
        future.apply_timeout(timeout)
        if spec['second'] is not None:
            future.apply_timeout(spec['second'])
            deadline = min(deadline, LOOP_TIME() + spec['second'])
        later()
        got = await get(future)
        case.verdict(got, deadline, LOOP_TIME())
        state = outcome_of(future)
        await sleep(timeout + 0.5, loop)
        if outcome_of(future) != state:
            case.bad('changed-later', f'{state} -> {outcome_of(future)}')
    elif kind in ('task', 'nested'):
        info = {}

        async def body():
            try:
                result = await future
                info['left'] = LOOP_TIME()
                return result
            finally:
                info['left'] = LOOP_TIME()
        task = Task(loop, body())
        if kind == 'nested':
            inner = task
            async def outer():
                return await inner
            task = Task(loop, outer())
        task.apply_timeout(timeout)
        later()
        extra = None
        if spec['cancel_at'] is not None:
            extra = spec['cancel_at']
            loop.call_after(extra, task.cancel)
        got = await get(task)
        done_at = LOOP_TIME()
        if got == ('cancelled',) and extra is not None and spec['how'] != 'cancel':
            if done_at < start + extra - EPS:
                case.bad('early-cancel', f'{done_at}')
        elif got[0] != 'timeout' and 'left' not in info and timeout > 0.0:
            case.bad('wrong-outcome', f'{got} without leaving')
        else:
            case.verdict(got, deadline, done_at, extra)
    elif kind == 'block':
        entered = LOOP_TIME()
        later()
        extra = None

        async def body():
            with Timeout(loop, timeout):
                if spec['swallow']:
                    try:
                        return await future
                    except CancelledError:
                        case.events['swallowed'] = True
                        return 'swallowed'
                return await future
        task = Task(loop, case.lingering(body))
        if spec['cancel_at'] is not None:
            extra = spec['cancel_at']
            loop.call_after(extra, case.cancel, task)
        got = await get(task)
        done_at = case.events.get('left', LOOP_TIME())
        if got == ('return', 'swallowed'):
            pass
        elif got == ('cancelled',) and extra is not None:
            pass
        else:
            case.verdict(got, entered + timeout, done_at, extra)
    elif kind == 'repeat':
        info = {'starts': [], 'i': 0}

        async def body():
            with repeat_timeout(timeout) as repeater:
                for _ in repeater:
                    i = info['i']
                    if i >= len(spec['durations']):
                        return 'end'
                    info['starts'].append(LOOP_TIME())
                    info['i'] += 1
                    await sleep(spec['durations'][i], loop)
                    info['starts'][-1] = None if False else info['starts'][-1]
                    used = LOOP_TIME() - info['starts'][-1]
                    if used > timeout + case.slack + 1e-6:
                        case.events['overrun'] = (i, used)
        task = Task(loop, case.lingering(body))
        extra = spec['cancel_at']
        if extra is not None:
            loop.call_after(extra, case.cancel, task)
        got = await get(task)
        now = case.events.get('left', LOOP_TIME())
        sim.log('repeat', case.index, got[0], len(info['starts']), round(now, 6))
        if 'overrun' in case.events and got[0] != 'timeout':
            case.bad('not-interrupted', f'{got}')
        if got[0] == 'timeout':
            used = now - info['starts'][-1]
            if used < timeout - EPS:
                case.bad('early-timeout', f'iteration {info["i"]} interrupted after {used}')
        elif got[0] == 'cancelled':
            if extra is None:
                case.bad('wrong-outcome', f'{got}')
        elif got != ('return', 'end'):
            case.bad('wrong-outcome', f'{got}')
    elif kind == 'async_wrap':
        later()
        got = await get(future.async_wrap(loop).wait(timeout, spec['propagate']))
        done_at = LOOP_TIME()
        case.verdict(got, deadline, done_at)
        if got[0] == 'timeout' and not spec['propagate'] and 'completed' not in case.events:
            if not future.is_pending():
                case.bad('source-changed', f'{future!r} after a timed out wait without propagation')
        if got[0] == 'timeout' and spec['propagate'] and not future.is_done():
            case.bad('not-propagated', f'{future!r}')
    elif kind == 'thread':
        later()
        box = {}
        event = SimEvent()

        def other():
            try:
                box['got'] = ('return', future.sync_wrap().wait(timeout, spec['propagate']))
            except TimeoutError:
                box['got'] = ('timeout',)
            except CancelledError:
                box['got'] = ('cancelled',)
            except Marker as exception:
                box['got'] = ('raise', exception)
            box['at'] = LOOP_TIME()
            box['event_done'].set_result_if_pending(None)
            loop.wake_up()
        box['event_done'] = Future(loop)
        box['start'] = LOOP_TIME()
        thread = threading.Thread(target=other)
        thread.start()
        await box['event_done']
        thread.join()
        got = box['got']
        case.verdict(got, box['start'] + timeout, box['at'])
        if got[0] == 'timeout' and not spec['propagate'] and 'completed' not in case.events:
            if not future.is_pending():
                case.bad('source-changed', f'{future!r} after a timed out wait without propagation')
    future.cancel()
    # nothing of it acts later
    task_now = loop.current_task
    await sleep(timeout * 2 + (spec['second'] or 0) + 0.1, loop)
    return True


async def main(loop, sim, plan):
    params = plan['params']
    slack = params.get('late_max', 0.0) * 3 if params.get('late') else 0.0
    if plan['burn']:
        slack += plan['burn'] * plan['grid'] * 2
    slack += 2.5e-3             # the selector counts in milliseconds
    cases = [Case(sim, loop, plan, spec, i, slack) for i, spec in enumerate(plan['cases'])]
    tasks = [Task(loop, run_case(case)) for case in cases]
    if plan['burn']:
        loop.call_after(plan['grid'] * 1.2, burn, sim, plan['burn'] * plan['grid'])
    for case, task in zip(cases, tasks):
        for _ in range(3000):
            if task.is_done():
                break
            await sleep(0.1, loop)
        else:
            case.bad('stuck', repr(task))
        if task.is_cancelled():
            case.bad('stray-cancel', 'cancelled after the block was left')
        task.get_result()


def run(plan, sim):
    run_async(sim, main, sim, plan, check_errors=False)
    no_errors(sim, allow=(CancelledError, TimeoutError, Marker))
