"""Queues."""
from ..world import *
from scarletio import AsyncQueue, AsyncLifoQueue

BUDGET = {'quick': 30000, 'thorough': 600000}
RULE = ('One evaluation is one seeded history of put / waiting put / get / no-wait get / iteration / timeout / '
        'cancellation / end on one queue by several producers and consumers.')
ASSUMPTIONS = ['a maximal length of zero is outside the domain']


def gen(rng):
    grid = rng.choice([0.01, 0.0])
    n_get = rng.randint(1, 4)
    n_put = rng.randint(1, 3)
    max_length = rng.choice([None, None, None, 1, 2, 3])
    consumers = [{'ops': [{'how': rng.choice(['await', 'await', 'get', 'nowait', 'iter']),
                           'wait': rng.choice([0, 0, 0, 1, 2]) * grid, 'skips': rng.choice([0, 0, 1, 2]),
                           'timeout': rng.choice([None, None, None, None, 0.0, 1 * grid]),
                           } for _ in range(rng.randint(1, 5))], 'swallow': rng.random() < 0.8} for _ in range(n_get)]
    producers = [{'ops': [{'how': rng.choice(['set', 'set', 'wait', 'wait']), 'wait': rng.choice([0, 0, 0, 1, 2]) * grid,
                           'skips': rng.choice([0, 0, 1, 2]), 'n': rng.choice([1, 1, 2, 3])}
                          for _ in range(rng.randint(1, 4))]} for _ in range(n_put)]
    ops = []
    for _ in range(rng.randint(0, 7)):
        ops.append({'op': rng.choice(['cancel_get', 'cancel_get', 'cancel_get', 'cancel_put']),
                    't': rng.randrange(4), 'wait': rng.choice([0, 0, 1, 2]) * grid, 'skips': rng.choice([0, 0, 1, 2, 3]),
                    'on': rng.choice([None, 'put', 'put', 'get'])})
    return {'params': swarm(rng, late=[None, None, 0.3], late_max=[0.01]), 'lifo': rng.random() < 0.3,
            'max': max_length, 'preset': rng.choice([0, 0, 0, 1, 3]), 'consumers': consumers, 'producers': producers,
            'ops': ops, 'end': rng.choice(['marker', 'cancelled', 'marker', 'type'])}


def valid(plan):
    return bool(plan['consumers']) and bool(plan['producers'])


async def main(loop, sim, plan):
    lifo = plan['lifo']
    max_length = plan['max']
    serial = [0]
    put = []                    # elements accepted, in order
    receipts = []
    got = []                    # elements received, in order
    state = {'bad': None, 'interrupted': False, 'ended': None}
    preset = []
    for _ in range(plan['preset']):
        serial[0] += 1
        preset.append(serial[0])
    if max_length is not None:
        kept = preset[-max_length:]
    else:
        kept = preset
    queue = (AsyncLifoQueue if lifo else AsyncQueue)(loop, preset, max_length)
    put.extend(kept)
    model = list(kept)          # what is available, as long as nothing was interrupted
    getting = {}                # name -> amount of cycles
    putting = {}
    get_tasks = []
    put_tasks = []
    on = {'put': [o for o in plan['ops'] if o['on'] == 'put'], 'get': [o for o in plan['ops'] if o['on'] == 'get']}

    def bad(kind, detail):
        if state['bad'] is None:
            state['bad'] = Violation(kind, detail)

    def interrupt(o):
        tasks = get_tasks if o['op'] == 'cancel_get' else put_tasks
        if tasks:
            task = tasks[o['t'] % len(tasks)]
            if not task.is_done():
                sim.fault(o['op'])
                if o['op'] == 'cancel_get':
                    state['interrupted'] = True
                task.cancel()

    def hook(kind):
        if on[kind]:
            interrupt(on[kind].pop())

    def accepted(element):
        put.append(element)
        sim.log('put', element)

    def received(name, element):
        sim.log('got', name, element)
        if element in got:
            bad('duplicated', f'{name} received {element} again')
        if element not in put and element not in in_flight:
            bad('invented', f'{name} received {element!r}')
        got.append(element)
        receipts.append((name, element))

    in_flight = set()

    async def take(name, how):
        if how == 'await':
            return await queue
        if how == 'get':
            return await queue.get_result()
        if how == 'nowait':
            length = len(queue)
            try:
                return queue.get_result_no_wait()
            except IndexError:
                if length:
                    bad('no-wait', f'empty reported with {length} elements')
                return None
        try:
            return await queue.__anext__()
        except StopAsyncIteration:
            if state['ended'] is None or type(state['ended']) is not CancelledError:
                bad('stopped-early', f'{name}: iteration ended, queue ended with {state["ended"]!r}')
            raise StopHere from None

    async def consumer(index, spec):
        for number, op in enumerate(spec['ops']):
            name = f'c{index}.{number}'
            if op['wait']:
                await maybe(sleep(op['wait'], loop), spec)
            for _ in range(op['skips']):
                await maybe(skip_ready_cycle(), spec)
            getting[name] = True
            try:
                if op['timeout'] is None:
                    element = await take(name, op['how'])
                    if element is not None:
                        received(name, element)
                else:
                    async def inner(name=name, op=op):
                        element = await take(name, op['how'])
                        if element is not None:
                            received(name, element)
                    task = Task(loop, inner())
                    state['interrupted'] = True
                    task.apply_timeout(op['timeout'])
                    await task
            except TimeoutError:
                sim.fault('timeout')
            except StopHere:
                return
            except CancelledError as exception:
                if exception is state['ended']:
                    return
                if not spec['swallow']:
                    raise
            except Marker as exception:
                if exception is not state['ended']:
                    bad('foreign-exception', f'{exception!r}')
                if len(queue) and not state['interrupted']:
                    bad('ended-early', f'{name} got the end with {len(queue)} elements left')
                return
            finally:
                del getting[name]
            hook('get')

    async def maybe(awaitable, spec):
        try:
            await awaitable
        except CancelledError:
            if not spec['swallow']:
                raise

    async def producer(index, spec):
        for number, op in enumerate(spec['ops']):
            if op['wait']:
                await sleep(op['wait'], loop)
            for _ in range(op['skips']):
                await skip_ready_cycle()
            for _ in range(op['n']):
                serial[0] += 1
                element = serial[0]
                in_flight.add(element)
                length = len(queue)
                if op['how'] == 'set':
                    result = queue.set_result(element)
                    if result == 0:
                        accepted(element)
                    elif max_length is None or length < max_length:
                        bad('refused', f'{element} refused with {length} elements')
                    in_flight.discard(element)
                    hook('put')
                else:
                    putting[element] = True
                    try:
                        result = await queue.set_result_wait(element)
                    except CancelledError:
                        # the element may be in or not
                        raise
                    finally:
                        del putting[element]
                    if result == 1:
                        if state['ended'] is None:
                            bad('refused', f'waiting put of {element} refused')
                        in_flight.discard(element)
                    else:
                        accepted(element)
                        in_flight.discard(element)
                    hook('put')
                if max_length is not None and len(queue) > max_length and not state['interrupted']:
                    bad('over-limit', f'{len(queue)} elements, limit {max_length}')

    for index, spec in enumerate(plan['consumers']):
        get_tasks.append(Task(loop, consumer(index, spec)))
    for index, spec in enumerate(plan['producers']):
        put_tasks.append(Task(loop, producer(index, spec)))

    for o in plan['ops']:
        if o['on']:
            continue
        if o['wait']:
            await sleep(o['wait'], loop)
        for _ in range(o['skips']):
            await skip_ready_cycle()
        interrupt(o)

    # quiesce
    await sleep(1.0, loop)
    if state['bad'] is not None:
        raise state['bad']
    if getting and len(queue):
        raise Violation('starved-getter', f'{list(getting)} wait with {len(queue)} elements available')
    if putting and (max_length is None or len(queue) < max_length):
        raise Violation('starved-putter', f'{list(putting)} wait with {len(queue)} of {max_length} elements')
    # drain what is left from the putters too
    rest = []
    while len(queue) or putting:
        if not len(queue):
            raise Violation('starved-putter', f'{list(putting)} wait although the queue is empty')
        if plan['end'] != 'type':
            element = queue.get_result_no_wait()
        else:
            element = await queue
        received('drain', element)
        rest.append(element)
        await sleep(0.001, loop)
        if len(rest) > 200:
            raise Violation('endless', 'draining does not end')
    if state['bad'] is not None:
        raise state['bad']
    missing = [element for element in put if element not in got]
    if missing:
        raise Violation('lost', f'{missing} were accepted, but never received')
    if not lifo and not state['interrupted']:
        # hand-overs happen in the order of the puts, every consumer sees them so
        if not (max_length is not None and any(op['how'] == 'wait' for p in plan['producers'] for op in p['ops'])):
            position = {element: i for i, element in enumerate(put)}
            by = {}
            for name, element in receipts:
                by.setdefault(name.split('.')[0], []).append(position[element])
            for name, positions in by.items():
                if positions != sorted(positions):
                    raise Violation('order', f'put {put}, {name} received {[put[i] for i in positions]}')
    # the end
    ended = {'marker': Marker('end'), 'cancelled': CancelledError(), 'type': Marker('end2')}[plan['end']]
    for i in range(3):
        serial[0] += 1
        if queue.set_result(serial[0]) == 0:
            accepted(serial[0])
    state['ended'] = ended
    queue.set_exception(ended)
    await sleep(0.1, loop)
    count = len(queue)
    values = []
    for _ in range(count):
        element = await queue
        values.append(element)
        received('end', element)
    if values != sorted(values, reverse=lifo):
        raise Violation('order', f'received {values}, lifo={lifo}')
    for how in ('await', 'get', 'nowait', 'iter'):
        try:
            value = await take('after', how)
        except StopHere:
            if plan['end'] != 'cancelled':
                raise Violation('wrong-end', f'{how} stopped')
        except BaseException as exception:
            if exception is not ended:
                raise
        else:
            raise Violation('wrong-end', f'{how} gave {value!r} on an ended queue')
    for _ in range(100):
        if all(t.is_done() for t in get_tasks):
            break
        await sleep(0.01, loop)
    else:
        raise Violation('stuck-getter', f'{list(getting)} wait on an ended queue')
    missing = [element for element in put if element not in got]
    if missing:
        raise Violation('lost', f'{missing} were accepted, but never received')
    if state['bad'] is not None:
        raise state['bad']


class StopHere(Exception):
    pass


def run(plan, sim):
    run_async(sim, main, sim, plan, check_errors=False)
    no_errors(sim, allow=(CancelledError, TimeoutError, Marker))
