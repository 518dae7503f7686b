"""Moving tasks to executor threads and back; pausing a loop from an other thread."""
import threading, time
from ..world import *
from scarletio.core import enter_executor

BUDGET = {'quick': 10000, 'thorough': 300000}
RULE = ('One evaluation is up to three tasks alternating between their loop and executor threads, awaiting inside of the '
        'moved block futures, tasks and sleeps of the loop which return, raise or get cancelled, with cancellations at any '
        'instant, beside threads which pause the loop; threads are preempted at every point where the interpreter may switch.')

STEPS = ('block', 'block', 'sleep', 'future', 'future', 'done', 'task', 'skip', 'burst', 'gather')


def gen(rng):
    def step():
        return {'kind': rng.choice(STEPS), 'for': rng.choice([0.0, 0.002, 0.01, 0.03]),
                'how': rng.choice(['return', 'return', 'return', 'raise', 'cancel']), 'catch': rng.random() < 0.6}

    def segment():
        return {'moved': rng.random() < 0.65, 'steps': [step() for _ in range(rng.randint(0, 3))]}
    return {'params': swarm(rng, preempt=[None, 60, 20, 8], stall=[None, None, 0.1, 0.4], stall_max=[0.003],
                            late=[None, None, 0.2], late_max=[0.002]),
            'tasks': [{'segments': [segment() for _ in range(rng.randint(1, 4))],
                       'cancels': sorted(round(rng.uniform(0.0, 0.06), 4) for _ in range(rng.choice([0, 0, 1, 1, 2])))}
                      for _ in range(rng.randint(1, 3))],
            'pauses': [{'at': round(rng.uniform(0.0, 0.05), 4), 'for': rng.choice([0.0, 0.004, 0.02]), 'raise': rng.random() < 0.2}
                       for _ in range(rng.choice([0, 0, 0, 1, 2]))],
            'beat': rng.random() < 0.5, 'thread_fail': rng.choice([0, 0, 0, 0, 0.3])}


class Actor:
    def __init__(self, index, spec):
        self.index = index
        self.spec = spec
        self.seen = []          # what the program went through
        self.delivered = []     # times of cancellations seen by the program
        self.accepted = []
        self.own = []
        self.attempts = 0
        self.task = None
        self.finished_at = None
        self.waiting_since = None
        self.current = None
        self.planned_blocks = 0.0


class World:
    pass


def here(w):
    return 'loop' if threading.current_thread() is w.loop else threading.current_thread()


def expect_place(w, actor, tag, moved, worker):
    place = here(w)
    if moved:
        if place == 'loop':
            raise Violation('wrong-thread', f'{tag} runs on the loop')
        if worker is not None and worker is not place:
            raise Violation('wrong-thread', f'{tag} changed its worker')
    elif place != 'loop':
        raise Violation('wrong-thread', f'{tag} runs on {place!r} instead of the loop')
    if w.in_step.get(actor.index):
        raise Violation('parallel-run', f'{tag}')
    return place


def completer(w, spec, future, tag):
    def complete():
        if w.paused and threading.current_thread() is w.loop:
            w.bad = Violation('pause-broken', 'the loop ran something while it was paused')
        if spec['how'] == 'return':
            future.set_result_if_pending(tag)
        elif spec['how'] == 'raise':
            future.set_exception_if_pending(Marker(tag))
        else:
            future.cancel()
    return complete


async def child(w, spec, tag):
    await sleep(spec['for'], w.loop)
    if threading.current_thread() is not w.loop:
        w.bad = Violation('wrong-thread', f'child of {tag}')
    if spec['how'] == 'raise':
        raise Marker(tag)
    if spec['how'] == 'cancel':
        raise CancelledError
    return tag


async def do_step(w, actor, spec, tag, moved):
    """returns what is expected"""
    loop = w.loop
    kind = spec['kind']
    actor.seen.append(tag)
    w.sim.log('step', tag, kind)
    if kind == 'block':
        if moved:
            before = w.beats
            started = w.sim.now
            time.sleep(spec['for'])
            return None
        return None
    if kind == 'sleep':
        if moved:
            # timers are of the loop's own thread
            await loop.create_task_thread_safe(child(w, dict(spec, how='return'), tag))
        else:
            await sleep(spec['for'])
        return None
    if kind == 'skip':
        await skip_ready_cycle()
        return None
    if kind == 'burst':
        for _ in range(3):
            await skip_ready_cycle()
        return None
    if kind == 'done':
        future = Future(loop)
        completer(w, spec, future, tag)()
        return await future
    if kind == 'task':
        return await (loop.create_task_thread_safe(child(w, spec, tag)))
    if kind == 'gather':
        # two after each other which were started together
        one = loop.create_task_thread_safe(child(w, dict(spec, how='return'), tag))
        two = loop.create_task_thread_safe(child(w, dict(spec, how='return'), tag))
        try:
            assert await one == tag
            assert await two == tag
        finally:
            one.silence()
            two.silence()
        return None
    future = Future(loop)
    loop.call_soon_thread_safe(loop.call_after, spec['for'], completer(w, spec, future, tag))
    return await future


async def run_step(w, actor, spec, tag, moved, worker):
    place = expect_place(w, actor, tag, moved, worker)
    kind = spec['kind']
    try:
        actor.current = (tag, kind, moved, w.sim.now)
        result = await do_step(w, actor, spec, tag, moved)
    except CancelledError:
        actor.current = None
        expect_place(w, actor, tag, moved, place)
        own = spec['how'] == 'cancel' and kind in ('future', 'done', 'task')
        if own:
            actor.own.append(tag)
        actor.delivered.append((w.sim.now, tag))
        actor.seen.append((tag, 'cancelled'))
        if not own and not actor.attempts:
            raise Violation('made-up-cancellation', f'{tag} {spec}')
        if not spec['catch']:
            raise
    except Marker as exception:
        actor.current = None
        expect_place(w, actor, tag, moved, place)
        if spec['how'] != 'raise' or exception.tag != tag:
            raise Violation('wrong-exception', f'{tag} {spec} got {exception!r}')
        actor.seen.append((tag, 'raised'))
        if not spec['catch']:
            raise
    else:
        actor.current = None
        expect_place(w, actor, tag, moved, place)
        if kind in ('future', 'done', 'task'):
            if spec['how'] != 'return' or result != tag:
                raise Violation('wrong-result', f'{tag} {spec} got {result!r}')
        actor.seen.append((tag, 'returned'))
    return place


async def program(w, actor):
    try:
        for i, segment in enumerate(actor.spec['segments']):
            tag = (actor.index, i)
            moved = segment['moved']
            if moved:
                try:
                    async with enter_executor():
                        actor.seen.append((tag, 'in'))
                        worker = expect_place(w, actor, tag, True, None)
                        for j, step in enumerate(segment['steps']):
                            await run_step(w, actor, step, (actor.index, i, j), True, worker)
                        actor.seen.append((tag, 'end'))
                finally:
                    expect_place(w, actor, tag, False, None)
                actor.seen.append((tag, 'out'))
            else:
                for j, step in enumerate(segment['steps']):
                    await run_step(w, actor, step, (actor.index, i, j), False, None)
    finally:
        expect_place(w, actor, actor.index, False, None)
        actor.finished_at = w.sim.now
        w.sim.log('finished', actor.index)
    return actor.index


async def heartbeat(w):
    while not w.stopping:
        w.beats += 1
        if w.paused:
            w.bad = Violation('pause-broken', 'the loop ran something while it was paused')
        await sleep(0.003, w.loop)


def cancel(w, actor):
    if w.paused:
        w.bad = Violation('pause-broken', 'the loop ran something while it was paused')
    if actor.task.is_done():
        return
    actor.attempts += 1
    accepted = actor.task.cancel()
    w.sim.log('cancel', actor.index, accepted)
    if not accepted:
        w.bad = Violation('cancel-refused', f'{actor.index}')
    actor.accepted.append((w.sim.now, actor.current))


def pauser(w, spec):
    time.sleep(spec['at'])
    asked = w.sim.now
    try:
        with w.loop.enter():
            w.enter_delays.append(w.sim.now - asked)
            if w.paused:
                w.bad = Violation('pause-broken', 'two threads are in at once')
            w.paused = True
            before = w.beats
            time.sleep(spec['for'])
            w.pause_total += spec['for']
            if w.beats != before:
                w.bad = Violation('pause-broken', 'the loop ran while it was paused')
            w.paused = False
            w.pauses += 1
            if spec['raise']:
                raise Marker('pause')
    except Marker:
        if not spec['raise']:
            raise


def run(plan, sim):
    w = World()
    w.sim = sim
    w.loop = loop = new_loop(sim)
    w.beats = 0
    w.bad = None
    w.paused = False
    w.stopping = False
    w.in_step = {}
    w.pause_total = 0.0
    w.pauses = 0
    w.enter_delays = []
    w.started_at = sim.now
    actors = [Actor(i, spec) for i, spec in enumerate(plan['tasks'])]

    async def main():
        if plan['thread_fail']:
            sim.params['thread_fail'] = plan['thread_fail']
        for actor in actors:
            actor.task = Task(loop, program(w, actor))
            for at in actor.spec['cancels']:
                loop.call_after(at, cancel, w, actor)
        w.started_at = sim.now
        if plan['beat']:
            Task(loop, heartbeat(w))

    errors = []

    def guarded(spec):
        try:
            pauser(w, spec)
        except BaseException as e:
            errors.append(e)

    threads = [threading.Thread(target=guarded, args=(spec,)) for spec in plan['pauses']]
    for thread in threads:
        thread.start()
    box = start_on(sim, loop, main)
    box.event.wait()
    finish(sim, box)
    total = 0.0
    for actor in actors:
        for segment in actor.spec['segments']:
            for step in segment['steps']:
                total += step['for']
    allowance = sim.faults['stalled_thread'] * sim.stall_max
    time.sleep(total + 0.3)
    deadline = sim.now + 30.0
    while not all(actor.task.is_done() for actor in actors) and sim.now < deadline:
        time.sleep(0.5)
        if not plan['params'].get('stall'):
            break
    for thread in threads:
        thread.join()
    sim.params.pop('thread_fail', None)
    w.stopping = True
    time.sleep(0.02)
    if errors:
        if isinstance(errors[0], (Violation, HarnessError, S.SimStop)):
            raise errors[0]
        raise unexpected(errors[0], ''.join(traceback.format_exception(errors[0])))
    if w.bad is not None:
        raise w.bad
    if w.pauses != len(plan['pauses']):
        raise Violation('pause-lost', f'{w.pauses} of {len(plan["pauses"])}')
    slack = 0.012 + 4 * (plan['params'].get('late_max') or 0.0) + sim.faults['stalled_thread'] * sim.stall_max + w.pause_total
    for delay in w.enter_delays:
        if delay > slack:
            raise Violation('late-pause', f'the loop was paused {delay} after it was asked to')
    for actor in actors:
        check(w, plan, actor, slack)
        if actor.finished_at is None:
            continue
        steps = [step for segment in actor.spec['segments'] for step in segment['steps']]
        if actor.finished_at > w.started_at + sum(step['for'] for step in steps) + slack * (2 + len(steps)):
            raise Violation('slow', f'{actor.index} {actor.spec} ended {actor.finished_at - w.started_at} after the start')
    if loop.get_used_executor_count():
        raise Violation('worker-kept', f'{loop.get_used_executor_count()}')
    stop_loop(sim, loop)
    no_errors(sim, allow=(Marker, CancelledError))


def check(w, plan, actor, slack):
    task = actor.task
    where = f'{actor.index} {actor.spec} saw {actor.seen}'
    if task.is_pending():
        raise Violation('hangs', where)
    outcome = outcome_of(task)
    if outcome[0] == 'raise' and isinstance(outcome[1], (Violation, HarnessError)):
        raise outcome[1]
    if outcome[0] == 'cancelled' and len(outcome) > 1 and isinstance(outcome[1], (Violation, HarnessError)):
        raise outcome[1]
    delivered = [item for item in actor.delivered if item[1] not in actor.own]
    # the program went through its steps in order, each once
    last = None
    for item in actor.seen:
        if isinstance(item[0], int) and len(item) == 3:
            if last is not None and item <= last:
                raise Violation('not-in-order', where)
            last = item
    if len(delivered) > len(actor.accepted):
        raise Violation('cancelled-again', f'{where}: {len(delivered)} cancellations seen, {len(actor.accepted)} made')
    failed = outcome[0] == 'raise' and isinstance(outcome[1], RuntimeError) and 'start new thread' in str(outcome[1])
    if failed and not plan['thread_fail']:
        raise Violation('wrong-outcome', where)
    if outcome[0] == 'return':
        if outcome[1] != actor.index:
            raise Violation('wrong-outcome', f'{where}: {outcome}')
        if actor.accepted and not delivered and not actor.own:
            raise Violation('cancellation-lost', where)
        # everything was done
        want = sum(len(s['steps']) for s in actor.spec['segments'])
        if sum(1 for item in actor.seen if isinstance(item[0], int) and len(item) == 3) != want:
            raise Violation('step-lost', where)
    elif outcome[0] == 'cancelled':
        if not actor.accepted and not any(not step['catch'] for i, step in own_steps(actor)):
            raise Violation('cancelled-itself', f'{where}: {outcome}')
    elif not failed:
        if not isinstance(outcome[1], Marker):
            raise Violation('wrong-outcome', f'{where}: {outcome}\n' + ''.join(traceback.format_exception(outcome[1]))[-2000:])
        segment, step = outcome[1].tag[1:]
        spec = actor.spec['segments'][segment]['steps'][step]
        if spec['how'] != 'raise' or spec['catch']:
            raise Violation('wrong-outcome', f'{where}: {outcome}')
        if actor.seen[-1] != (outcome[1].tag, 'raised'):
            raise Violation('wrong-outcome', f'{where}: {outcome}')
    # a cancellation during a wait ends it at once
    for at, current in actor.accepted:
        if current is None:
            continue
        tag, kind, moved, since = current
        if kind in ('future', 'sleep', 'task', 'gather'):
            times = [t for t, other in actor.delivered if other == tag]
            if times and times[0] > at + slack:
                raise Violation('cancelled-late', f'{where}: cancelled at {at}, delivered at {times[0]}')


def own_steps(actor):
    out = []
    for tag in actor.own:
        out.append((tag, actor.spec['segments'][tag[1]]['steps'][tag[2]]))
    return out


def valid(plan):
    return bool(plan['tasks']) and all(t['segments'] for t in plan['tasks'])
