"""Locks."""
from ..world import *
from scarletio import Lock, ScarletLock

BUDGET = {'quick': 30000, 'thorough': 600000}
RULE = ('One evaluation is one seeded program: tasks entering / leaving one lock, with cancellations, timeouts, manual '
        'acquire / release and waiters for the free lock.')


def gen(rng):
    size = rng.choice([0, 0, 0, 1, 2, 3])           # 0: plain lock
    n = rng.randint(2, 7)
    grid = rng.choice([0.01, 0.001, 0.0])
    tasks = []
    for _ in range(n):
        rounds = []
        for _ in range(rng.randint(1, 3)):
            rounds.append({
                'wait': rng.choice([0, 0, 1, 2, 3]) * grid,
                'hold': rng.choice([0, 0, 1, 2]) * grid,
                'skips': rng.choice([0, 0, 1, 2]),
                'how': rng.choice(['with', 'with', 'acquire', 'await', 'with_raise']),
                'timeout': rng.choice([None, None, None, 0.0, 1 * grid, 2 * grid, 3 * grid]),
                'swallow': rng.random() < 0.5,
            })
        tasks.append({'rounds': rounds})
    cancels = [{'wait': rng.choice([0, 0, 1, 2]) * grid, 'skips': rng.choice([0, 0, 1, 2, 3]), 't': rng.randrange(n),
                'how': rng.choice(['cancel', 'cancel', 'cancel_with']),
                'on': rng.choice([None, None, None, 'release'])} for _ in range(rng.randint(0, 6))]
    return {'params': swarm(rng, late=[None, None, 0.3], late_max=[0.005], tick=[None, None, 1e-6]),
            'size': size, 'tasks': tasks, 'cancels': cancels}


def valid(plan):
    return all(c['t'] < len(plan['tasks']) for c in plan['cancels'])


async def main(loop, sim, plan):
    size = plan['size']
    lock = ScarletLock(loop, size) if size else Lock(loop)
    limit = size or 1
    inside = []
    queue = []              # names waiting, in the order of their request
    state = {'violation': None, 'entered': 0}
    reals = []
    on_release = [c for c in plan['cancels'] if c['on'] == 'release']

    def bad(kind, detail):
        if state['violation'] is None:
            state['violation'] = Violation(kind, detail)

    def enter(name):
        sim.log('enter', name)
        if len(inside) >= limit:
            bad('mutual-exclusion', f'{name} entered while {inside} inside, limit {limit}')
        if name in queue:
            ahead = queue[:queue.index(name)]
            # those ahead may be waking up with their own slot, but nobody may be overtaken
            if len(inside) + len(ahead) >= limit:
                bad('not-fifo', f'{name} entered before {ahead}')
            queue.remove(name)
        inside.append(name)
        state['entered'] += 1

    def leave(name):
        sim.log('leave', name)
        inside.remove(name)

    def after_release():
        if on_release:
            c = on_release.pop()
            task = reals[c['t']]
            if not task.is_done():
                sim.fault('cancel_at_release')
                task.cancel()

    async def body(name, spec):
        if len(inside) > limit:
            bad('mutual-exclusion', f'{inside}')
        for _ in range(spec['skips']):
            await skip_ready_cycle()
        if spec['hold']:
            await sleep(spec['hold'], loop)

    async def critical(name, spec):
        how = spec['how']
        if how == 'await':
            sim.log('await_free', name)
            await lock
            if lock.is_locked() and not size:
                bad('await-not-free', f'{name}: await lock returned while it is locked')
            return
        queue.append(name)
        try:
            if how in ('with', 'with_raise'):
                async with lock:
                    enter(name)
                    try:
                        await body(name, spec)
                        if how == 'with_raise':
                            raise Marker(name)
                    finally:
                        leave(name)
                after_release()
            else:
                await lock.acquire()
                enter(name)
                try:
                    await body(name, spec)
                finally:
                    leave(name)
                    lock.release()
                    after_release()
        finally:
            if name in queue:
                queue.remove(name)
                sim.log('gave_up', name)

    async def worker(index, spec):
        for r, round_ in enumerate(spec['rounds']):
            name = f't{index}.{r}'
            if round_['wait']:
                await sleep(round_['wait'], loop)
            try:
                if round_['timeout'] is None:
                    await critical(name, round_)
                else:
                    task = Task(loop, critical(name, round_))
                    task.apply_timeout(round_['timeout'])
                    sim.fault('timeout')
                    await task
            except TimeoutError:
                pass
            except Marker:
                pass
            except CancelledError:
                if not round_['swallow']:
                    raise

    for index, spec in enumerate(plan['tasks']):
        reals.append(Task(loop, worker(index, spec)))

    for c in plan['cancels']:
        if c['on'] == 'release':
            continue
        if c['wait']:
            await sleep(c['wait'], loop)
        for _ in range(c['skips']):
            await skip_ready_cycle()
        task = reals[c['t']]
        if not task.is_done():
            sim.fault(c['how'])
            if c['how'] == 'cancel':
                task.cancel()
            else:
                task.cancel_with(Marker('cancel_with'))
        if inside and not size and not lock.is_locked():
            bad('reads-free', f'lock is not locked while {inside} is inside')

    # everything finishes within a bounded time
    for _ in range(400):
        if all(task.is_done() for task in reals):
            break
        await sleep(0.05, loop)
    else:
        raise state['violation'] or Violation(
            'stuck-waiter', f'waiting {queue}, inside {inside}, {lock!r}')
    await sleep(0.01, loop)
    if state['violation'] is not None:
        raise state['violation']
    if inside or queue:
        raise Violation('leak', f'inside {inside}, queue {queue}')
    if lock.is_locked() or (size and (lock.get_acquired() or lock.get_waiting())):
        raise Violation('leaked-lock', f'nobody is inside, but {lock!r}')
    # and it is usable again by everyone
    for _ in range(limit):
        t = Task(loop, lock.acquire())
        await sleep(0.001, loop)
        if not t.is_done():
            raise Violation('leaked-lock', f'the free lock can not be acquired: {lock!r}')
    t = Task(loop, lock.acquire())
    await sleep(0.001, loop)
    if t.is_done():
        raise Violation('mutual-exclusion', f'a lock of {limit} was acquired {limit + 1} times')
    for _ in range(limit + 1):
        lock.release()
        await sleep(0.0, loop)
    await sleep(0.001, loop)
    if lock.is_locked():
        raise Violation('leaked-lock', f'after releasing everything {lock!r}')


def run(plan, sim):
    run_async(sim, main, sim, plan, check_errors=False)
    no_errors(sim, allow=(Marker, CancelledError, TimeoutError))
