"""Shielding and wrapping of futures."""
import threading, time
from ..world import *
from scarletio import shield

BUDGET = {'quick': 16000, 'thorough': 300000}
RULE = ('One evaluation is one source (future or task) on a loop, completed at a drawn instant from its loop or an other '
        'thread, and one to five users of it on the same loop (shield), an other loop and plain threads (wrappers), '
        'with their own start, timeout and cancellation instants.')

SLACK = 0.01
KINDS = ('shield', 'shield', 'shield_direct', 'shield_direct', 'shield_done_cb', 'shield_other', 'shield_shared', 'async', 'async_await', 'async_completion',
         'sync', 'sync_completion', 'plain')


def gen(rng):
    def instant(extra=()):
        return rng.choice([0.0, 0.0, 0.01, 0.01, 0.02, 0.03, *extra])
    users = []
    for _ in range(rng.randint(1, 5)):
        users.append({'kind': rng.choice(KINDS), 'at': instant(), 'skips': rng.randint(0, 3),
                      'timeout': rng.choice([None, None, 0.0, 0.01, 0.02]), 'propagate': rng.random() < 0.25,
                      'cancel': rng.choice([None, None, None, 0.0, 0.01, 0.02, 0.03]), 'cancel_skips': rng.randint(0, 3),
                      'wrapper_cancel': rng.random() < 0.1})
    return {'params': swarm(rng, preempt=[None, None, 30, 8], late=[None, 0.2], late_max=[0.005]),
            'source': rng.choice(['future', 'future', 'task', 'stubborn']),
            'at': instant((0.04,)), 'skips': rng.randint(0, 3),
            'how': rng.choice(['result', 'result', 'raise', 'raise', 'cancel']),
            'from': rng.choice(['loop', 'loop', 'thread', 'other']), 'users': users}


class World:
    pass


async def pass_on(w, inner):
    while True:
        try:
            return await inner
        except CancelledError:
            w.received += 1
            if w.stubborn and not inner.is_done():
                inner = w.renew()
                continue
            raise


async def build(sim, a, plan, w):
    w.inner = Future(a)
    w.received = 0
    w.stubborn = plan['source'] == 'stubborn'
    # nothing else can complete it
    w.strict = not any(u['propagate'] or u['wrapper_cancel'] for u in plan['users'])

    def renew():
        # the task suppresses the cancellation, and goes on waiting
        future = Future(a)
        w.inner = future
        if w.completed_how is not None:
            apply(w, w.completed_how)
        return future
    w.renew = renew
    w.completed_how = None
    if plan['source'] == 'future':
        w.source = w.inner
    else:
        w.source = Task(a, pass_on(w, w.inner))
    w.done_at = None

    def done(_):
        w.done_at = sim.now
    w.source.add_done_callback(done)


def apply(w, how):
    w.completed_how = how
    # the wrapper is the documented way to complete from other threads
    target = w.inner.sync_wrap()
    strict = w.strict and target.is_pending() and not w.cancels
    if how == 'result':
        if strict:
            target.set_result(w.value)
        else:
            target.set_result_if_pending(w.value)
    elif how == 'raise':
        if strict:
            target.set_exception(w.exception)
        else:
            target.set_exception_if_pending(w.exception)
    else:
        if w.source is w.inner:
            w.cancels += 1
        target.cancel()


async def delayed(sim, at, skips):
    if at:
        await sleep(at)
    for _ in range(skips):
        await skip_ready_cycle()


async def user_async(sim, loop, w, spec, u):
    await delayed(sim, spec['at'], spec['skips'])
    source = w.source
    kind = spec['kind']
    u['started'] = sim.now
    if kind == 'shield_done_cb':
        # shield it from a done callback of a related future, in the cycle of the completion
        trigger = Future(loop)
        source.add_done_callback(lambda _: trigger.set_result_if_pending(None))
        try:
            await shield(trigger, loop)
        except CancelledError:
            raise
        awaitable = shield(source, loop)
    elif kind == 'shield_shared':
        if w.shared is None:
            w.shared = shield(source, loop)
        awaitable = shield(w.shared, loop)
    elif kind in ('shield', 'shield_other'):
        awaitable = shield(source, loop)
    elif kind == 'plain':
        awaitable = shield(wait_on(source), loop)
    else:
        wrapper = source.async_wrap(loop)
        if kind == 'async':
            awaitable = wrapper.wait(timeout=spec['timeout'], propagate_cancellation=spec['propagate'])
        elif kind == 'async_completion':
            if await wrapper.wait_for_completion(timeout=spec['timeout'], propagate_cancellation=spec['propagate']):
                return wrapper.get_result()
            raise TimeoutError
        else:
            awaitable = wrapper
    return await awaitable


async def wait_on(source):
    return await source


async def user_direct(sim, loop, w, spec, u):
    # the shield itself is cancelled
    await delayed(sim, spec['at'], spec['skips'])
    u['started'] = sim.now
    future = shield(w.source, loop)
    if future is w.source:
        await wait_on(future.wait_for_completion())
        u['out'] = outcome_of(future)
        u['at'] = sim.now
        return
    calls = []
    future.add_done_callback(lambda f: calls.append(outcome_of(f)))
    if spec['cancel'] is not None:
        await delayed(sim, spec['cancel'], spec['cancel_skips'])
        if future.cancel():
            sim.fault('cancel_user')
            u['cancelled'] = True
    await future.wait_for_completion()
    u['at'] = sim.now
    await delayed(sim, 0.06, 2)
    u['out'] = outcome_of(future)
    if u['cancelled'] and u['out'] != ('cancelled',):
        raise Violation('shield-outcome', f'cancelled shield became {u["out"]}')
    if calls != [u['out']]:
        raise Violation('shield-outcome', f'callbacks saw {calls}, the shield is {u["out"]}')


async def user_entry(sim, loop, w, spec, u):
    if spec['kind'] == 'shield_direct':
        return await user_direct(sim, loop, w, spec, u)
    u['task'] = task = Task(loop, user_async(sim, loop, w, spec, u))
    if spec['cancel'] is not None:
        async def canceller():
            await delayed(sim, spec['cancel'], spec['cancel_skips'])
            if not task.is_done():
                sim.fault('cancel_user')
                u['cancelled'] = True
                if spec['propagate']:
                    w.may_cancel = True
                task.cancel()
        Task(loop, canceller())
    if spec['wrapper_cancel'] and spec['kind'].startswith('async'):
        async def cancel_source():
            await delayed(sim, spec['at'], spec['skips'] + 1)
            w.cancels += 1
            sim.fault('cancel_source')
            w.source.async_wrap(loop).cancel()
        Task(loop, cancel_source())
    try:
        u['out'] = ('return', await task)
    except CancelledError:
        u['out'] = ('cancelled',)
    except TimeoutError:
        u['out'] = ('timeout',)
    except Marker as e:
        u['out'] = ('raise', e)
    u['at'] = sim.now


def user_sync(sim, w, spec, u):
    if spec['at']:
        time.sleep(spec['at'])
    u['started'] = sim.now
    wrapper = w.source.sync_wrap()
    if spec['wrapper_cancel']:
        w.cancels += 1
        sim.fault('cancel_source')
        wrapper.cancel()
    try:
        if spec['kind'] == 'sync':
            u['out'] = ('return', wrapper.wait(timeout=spec['timeout'], propagate_cancellation=spec['propagate']))
        elif wrapper.wait_for_completion(timeout=spec['timeout'], propagate_cancellation=spec['propagate']):
            u['out'] = ('return', wrapper.get_result())
        else:
            u['out'] = ('timeout',)
    except CancelledError:
        u['out'] = ('cancelled',)
    except TimeoutError:
        u['out'] = ('timeout',)
    except Marker as e:
        u['out'] = ('raise', e)
    u['at'] = sim.now


def run(plan, sim):
    a = new_loop(sim, 'a')
    b = new_loop(sim, 'b')
    w = World()
    w.value = object()
    w.exception = Marker('source')
    w.cancels = 0
    w.may_cancel = False
    w.shared = None
    box = start_on(sim, a, build, sim, a, plan, w)
    box.event.wait()
    finish(sim, box)
    start = sim.now
    users = []
    boxes = []
    threads = []
    for spec in plan['users']:
        u = {'spec': spec, 'out': None, 'cancelled': False, 'task': None, 'at': None, 'started': None}
        users.append(u)
        if spec['kind'].startswith('sync'):
            thread = threading.Thread(target=user_sync, args=(sim, w, spec, u))
            thread.start()
            threads.append(thread)
        else:
            loop = a if spec['kind'] in ('shield', 'shield_done_cb', 'shield_shared', 'shield_direct', 'plain') else b
            boxes.append(start_on(sim, loop, user_entry, sim, loop, w, spec, u))

    async def completer():
        await delayed(sim, plan['at'], plan['skips'])
        w.completed = sim.now
        apply(w, plan['how'])

    def thread_completer():
        if plan['at']:
            time.sleep(plan['at'])
        w.completed = sim.now
        apply(w, plan['how'])

    if plan['from'] == 'thread':
        thread = threading.Thread(target=thread_completer)
        thread.start()
        threads.append(thread)
    else:
        boxes.append(start_on(sim, a if plan['from'] == 'loop' else b, completer))
    for thread in threads:
        thread.join()
    for box in boxes:
        box.event.wait()
        finish(sim, box)
    time.sleep(0.05)
    slack = SLACK + 5 * (plan['params'].get('late_max') or 0.0)
    source = w.source
    outcome = outcome_of(source)
    if w.done_at is None:
        raise Violation('source-stuck', f'{source!r}: its callbacks were not called')
    sim.log('source', outcome[0])
    if outcome[0] == 'pending':
        raise Violation('source-stuck', repr(source))
    propagating = [u for u in users if u['spec']['propagate'] and
                   u['spec']['kind'].startswith(('async', 'sync')) and u['spec']['kind'] != 'async_await']
    plain = sum(u['cancelled'] for u in users if u['spec']['kind'] == 'plain')
    want = {'result': ('return', w.value), 'raise': ('raise', w.exception), 'cancel': ('cancelled',)}[plan['how']]
    if outcome != want:
        # something else has to have cancelled it
        if outcome != ('cancelled',) or not (w.cancels or any(u['out'][0] in ('timeout', 'cancelled') for u in propagating)):
            raise Violation('source-outcome', f'{source!r}, wanted {want}')
    if source is not w.inner:
        limit = w.cancels + sum(u['out'][0] in ('timeout', 'cancelled') for u in propagating) + (plan['how'] == 'cancel')
        if w.received > limit:
            raise Violation('cancelled-repeatedly', f'source received {w.received} cancellations of {limit}')
        if plan['source'] == 'task' and outcome == ('return', w.value) and w.received:
            raise Violation('source-outcome', f'{source!r} was cancelled')
    for index, u in enumerate(users):
        spec = u['spec']
        out = u['out']
        sim.log('user', index, spec['kind'], out and out[0])
        if out is None:
            raise Violation('user-stuck', f'{index} {spec}')
        if u['started'] is None:
            if not u['cancelled']:
                raise Violation('user-stuck', f'{index} {spec}')
            continue
        timeout = spec['timeout'] if spec['kind'] in ('async', 'async_completion', 'sync', 'sync_completion') else None
        if out == outcome:
            pass
        elif out[0] == 'timeout':
            if timeout is None or u['at'] < u['started'] + timeout - 1e-6:
                raise Violation('early-timeout', f'{index} {spec}')
            if w.done_at is not None and w.done_at < u['started'] + timeout - slack:
                raise Violation('result-lost', f'{index} {spec} timed out at {u["at"]}, source done at {w.done_at}')
            if spec['propagate'] and plan['source'] != 'stubborn' and w.done_at > u['at'] + slack:
                raise Violation('not-propagated', f'{index} {spec} timed out at {u["at"]}, source done at {w.done_at}')
        elif out[0] == 'cancelled' and u['cancelled']:
            if spec['propagate'] and spec['kind'] in ('async', 'async_completion') and plan['source'] != 'stubborn' and (
                    w.done_at > u['at'] + slack):
                raise Violation('not-propagated', f'{index} {spec} cancelled at {u["at"]}, source done at {w.done_at}')
        elif spec['kind'] in ('shield_shared',) and out[0] == 'cancelled' and outcome[0] == 'cancelled':
            pass
        else:
            raise Violation('wrong-outcome', f'{index} {spec}: {out}, the source {outcome}')
        if timeout is None and not u['cancelled'] and spec['kind'] != 'shield_direct' and u['at'] > max(w.done_at, u['started']) + slack:
            raise Violation('late', f'{index} {spec}: at {u["at"]}, source done at {w.done_at}')
        if timeout is not None and u['at'] > u['started'] + timeout + slack:
            raise Violation('late', f'{index} {spec}: at {u["at"]}, started at {u["started"]}')
    w.shared = None
    # The exception was passed on, nobody lost it.
    received = any(u['out'][0] == 'raise' for u in users)
    del box, boxes
    for u in users:
        u['task'] = None
    shields = any(u['spec']['kind'].startswith('shield') and not u['cancelled'] for u in users)
    w.source = w.inner = source = outcome = None
    for loop in (a, b):
        stop_loop(sim, loop)
    for exception, location in sim.errors:
        if exception is w.exception and 'never retrieved' in location and not (received and shields):
            continue
        raise Violation('unhandled-exception', f'{exception!r} {location[:400]}')
    no_errors(sim, allow=(Marker,))
