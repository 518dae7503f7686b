"""Limited executor."""
from ..world import *
from scarletio import ScarletExecutor, LOOP_TIME

BUDGET = {'quick': 20000, 'thorough': 400000}
RULE = ('One evaluation is one seeded use (or re-use) of a limited executor: limit, coroutines / tasks / futures added with '
        'their durations and endings, errors of the body and cancellation of the user at any instant.')

SLACK = 0.004


def gen(rng):
    rounds = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        items = []
        quiet = rng.random() < 0.5
        for _ in range(rng.randint(0, 8)):
            r = rng.random()
            how = 'ok'
            if not quiet or r < 0.05:
                how = rng.choice(['ok', 'ok', 'ok', 'ok', 'raise', 'cancel', 'stubborn', 'fail_on_cancel'])
            items.append({'kind': rng.choice(['coroutine', 'coroutine', 'task', 'future', 'done']),
                          'time': rng.choice([0.0, 0.0, 0.01, 0.01, 0.02, 0.03, 0.05]), 'how': how,
                          'gap': rng.choice([None, None, None, 'skip', 0.0, 0.01, 0.02])})
        rounds.append({'limit': rng.randint(1, 4), 'items': items,
                       'body': rng.choice([None, None, None, None, 'raise']),
                       'tail': rng.choice([None, None, 'skip', 0.01, 0.05]),
                       'cancel': rng.choice([None, None, None, 0.0, 0.01, 0.015, 0.02, 0.03, 0.05]),
                       'skips': rng.randint(0, 4)})
    return {'params': {}, 'rounds': rounds}


async def item_body(state, item, me):
    state['running'] += 1
    if state['running'] > state['limit']:
        state['bad']('over-limit', f'{state["running"]} coroutines run, the limit is {state["limit"]}')
    try:
        try:
            if item['time'] or item['how'] == 'stubborn':
                await sleep(item['time'])
        except CancelledError:
            if item['how'] == 'fail_on_cancel':
                raise Marker(('late', me))
            if item['how'] != 'stubborn':
                raise
            await sleep(0.02)
        if item['how'] == 'raise':
            raise Marker(me)
        if item['how'] == 'cancel':
            raise CancelledError
        return me
    finally:
        state['running'] -= 1


async def user(loop, sim, plan, rnd, executor, state, index):
    added = state['added']

    def unfinished():
        return sum(not f.is_done() for f in added)

    def completed(future):
        state['last'] = loop.time()
        if unfinished() < state['limit']:
            if state['room'] is None:
                state['room'] = loop.time()

    async with executor:
        for i, item in enumerate(rnd['items']):
            me = (index, i)
            kind = item['kind']
            if kind == 'coroutine':
                target = Task(loop, item_body(state, item, me))
            elif kind == 'task':
                # started before adding, so it is limited only by what the user does
                target = Task(loop, item_body(dict(state, limit=1000), item, me))
            else:
                target = Future(loop)

                def end(target=target, item=item, me=me):
                    if target.is_done():
                        return
                    if item['how'] == 'raise':
                        target.set_exception(Marker(me))
                    elif item['how'] == 'cancel':
                        target.cancel()
                    else:
                        target.set_result(me)
                if kind == 'done':
                    end()
                else:
                    loop.call_after(item['time'], end)
            target.add_done_callback(completed)
            before = unfinished()
            added.append(target)
            state['room'] = loop.time() if before + (not target.is_done()) < state['limit'] else None
            state['adding'] = True
            started = loop.time()
            try:
                await executor.add(target)
            except CancelledError:
                if not state['cancelled'] and not any(failed(f) for f in added):
                    state['bad']('add-cancelled', f'add {i} raised CancelledError, nothing failed')
                raise
            state['adding'] = False
            sim.log('added', i, unfinished())
            if unfinished() >= state['limit']:
                state['bad']('add-not-blocked', f'add {i} returned, {unfinished()} unfinished, limit {state["limit"]}')
            if state['room'] is None or loop.time() - max(state['room'], started) > SLACK:
                state['bad']('add-blocked', f'add {i} returned at {loop.time()}, there was room at {state["room"]}')
            if item['gap'] is not None:
                if item['gap'] == 'skip':
                    await skip_ready_cycle()
                else:
                    await sleep(item['gap'])
        if rnd['tail'] == 'skip':
            await skip_ready_cycle()
        elif rnd['tail'] is not None:
            await sleep(rnd['tail'])
        if rnd['body'] == 'raise':
            raise Marker('body')
        state['leaving'] = loop.time()
    state['left'] = True


def failed(future):
    return future.is_done() and not future.is_cancelled() and future.get_exception() is not None


async def main(loop, sim, plan):
    executor = None
    for index, rnd in enumerate(plan['rounds']):
        if executor is None:
            executor = ScarletExecutor(rnd['limit'])
        else:
            rnd['limit'] = plan['rounds'][0]['limit']
        bads = []
        state = {'limit': rnd['limit'], 'running': 0, 'added': [], 'room': None, 'adding': False, 'last': loop.time(),
                 'cancelled': False, 'left': False, 'leaving': None,
                 'bad': lambda kind, detail: bads.append(Violation(kind, detail))}
        added = state['added']
        # `state` of `item_body` has to be shared
        task = Task(loop, user(loop, sim, plan, rnd, executor, state, index))
        if rnd['cancel'] is not None:
            def cancel():
                if not task.is_done():
                    sim.fault('cancel_user')
                    state['cancelled'] = True
                    task.cancel()

            async def later():
                if rnd['cancel']:
                    await sleep(rnd['cancel'])
                for _ in range(rnd['skips']):
                    await skip_ready_cycle()
                cancel()
            Task(loop, later())
        at_end = {}

        def ended(_):
            at_end['time'] = loop.time()
            at_end['pending'] = [f for f in added if not f.is_done()]
            at_end['failed'] = [f.get_exception() for f in added if failed(f)]
        task.add_done_callback(ended)
        await task.wait_for_completion()
        await skip_ready_cycle()
        if bads:
            raise bads[0]
        out = outcome_of(task)
        sim.log('out', out[0], index)
        real = [e for e in at_end['failed'] if not (isinstance(e.tag, tuple) and e.tag[0] == 'late')]
        if out[0] == 'return':
            if real and not state['cancelled']:
                raise Violation('error-lost', f'{real} were raised, the scope was left without error')
            if at_end['pending'] and not state['cancelled']:
                raise Violation('left-early', f'{at_end["pending"]} are not finished')
            if state['leaving'] is not None and not state['cancelled']:
                late = at_end['time'] - max(state['last'], state['leaving'])
                if late > SLACK:
                    raise Violation('left-late', f'left {late} s after the last finished')
        elif out[0] == 'raise':
            e = out[1]
            if not isinstance(e, Marker) or (e.tag == 'body' and rnd['body'] != 'raise'):
                raise Violation('wrong-error', repr(e))
            if e.tag != 'body' and e not in at_end['failed']:
                raise Violation('wrong-error', f'{e!r} raised, {at_end["failed"]} failed')
        else:
            if not state['cancelled']:
                raise Violation('wrong-error', f'{out}, nobody cancelled the user')
        # everything left behind was cancelled
        for _ in range(6):
            await skip_ready_cycle()
        stubborn = [i['how'] == 'stubborn' for i in rnd['items']]
        left = [f for f, s in zip(added, stubborn) if not s and not f.is_done()]
        if left:
            raise Violation('not-cancelled', f'outcome {out}: {left} still run')
        if rnd['items'] and rnd['items'][0]['gap'] is not None:
            await sleep(0.2)
        for f in added:
            if failed(f):
                pass
    await sleep(0.2)


def run(plan, sim):
    run_async(sim, main, sim, plan, check_errors=False)
    no_errors(sim, allow=(CancelledError, Marker))


def valid(plan):
    return bool(plan['rounds']) and all(r['limit'] >= 1 for r in plan['rounds'])
