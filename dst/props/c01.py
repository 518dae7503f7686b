"""Futures and tasks: one outcome, delivered to everyone, cancellation delivered where it is due."""
from ..world import *

BUDGET = {'quick': 12000, 'thorough': 300000}
RULE = ('One evaluation is one seeded program: tasks running random scripts (awaiting futures / tasks / sleeping / yielding, '
        'catching or transforming exceptions), with completions, cancellations, callbacks and drops injected at random '
        'instants; compared operation by operation with a reference model.')


def gen(rng):
    n_fut = rng.randint(1, 4)
    n_task = rng.randint(1, 5)
    tasks = []
    for i in range(n_task):
        script = []
        for _ in range(rng.randint(0, 5)):
            r = rng.random()
            catch = rng.choice([None, None, None, 'cancel', 'all', 'marker', 'convert'])
            if r < 0.40:
                script.append({'op': 'await', 'what': ['f', rng.randrange(n_fut)], 'catch': catch})
            elif r < 0.58 and i:
                script.append({'op': 'await', 'what': ['t', rng.randrange(i)], 'catch': catch})
            elif r < 0.66:
                script.append({'op': 'wfc', 'what': ['f', rng.randrange(n_fut)], 'catch': catch})
            elif r < 0.74:
                script.append({'op': 'sleep', 'd': rng.choice([0.01, 0.02, 0.03, 0.0]), 'catch': catch})
            elif r < 0.82:
                script.append({'op': 'skip', 'catch': catch})
            else:
                script.append(act(rng, n_fut, n_task))
        end = rng.choice(['return', 'return', 'raise', 'cancelled', 'marker_stop'])
        tasks.append({'script': script, 'end': end})
    ops = []
    for _ in range(rng.randint(1, 14)):
        op = act(rng, n_fut, n_task)
        op['wait'] = rng.choice([0.0, 0.0, 0.0, 0.01, 0.01, 0.02, 0.005])
        op['soon'] = rng.random() < 0.3
        ops.append(op)
    return {'params': {}, 'n_fut': n_fut, 'tasks': tasks, 'ops': ops}


def act(rng, n_fut, n_task):
    r = rng.random()
    f = ['f', rng.randrange(n_fut)]
    x = f if rng.random() < 0.5 else ['t', rng.randrange(n_task)]
    if r < 0.22:
        return {'op': 'set_result', 'what': f, 'if_pending': rng.random() < 0.5}
    if r < 0.36:
        return {'op': 'set_exception', 'what': f, 'if_pending': rng.random() < 0.5, 'type': rng.random() < 0.2}
    if r < 0.62:
        return {'op': 'cancel', 'what': x}
    if r < 0.78:
        return {'op': 'cancel_with', 'what': x, 'type': rng.random() < 0.3}
    if r < 0.90:
        return {'op': 'callback', 'what': x, 'raise': rng.random() < 0.15}
    if r < 0.95:
        return {'op': 'uncallback', 'what': x}
    return {'op': 'silence', 'what': f}


def valid(plan):
    n_task = len(plan['tasks'])
    if plan['n_fut'] < 1:
        return False
    def ok(op, i=None):
        what = op.get('what')
        if what is None:
            return True
        if len(what) != 2 or what[0] not in ('f', 't'):
            return False
        if what[0] == 'f':
            return 0 <= what[1] < plan['n_fut']
        if op['op'] == 'await':
            return what[1] < i
        return what[1] < n_task
    return all(ok(op, i) for i, t in enumerate(plan['tasks']) for op in t['script']) and all(ok(op) for op in plan['ops'])


class Fut:
    """Model of a plain future."""
    kind = 'f'
    poll = False                    # a timer completes it
    awaited = False

    def __init__(self, real, name):
        self.real = real
        self.name = name
        self.outcome = None
        self.callbacks = []
        self.retrieved = False
        self.silenced = False


class Tsk:
    kind = 't'
    awaited = True

    def __init__(self, name):
        self.name = name
        self.real = None
        self.outcome = None         # as decided by the coroutine's exit
        self.callbacks = []
        self.retrieved = False
        self.silenced = False
        self.waiting = None         # model object awaited now
        self.suspended = True       # not started counts as suspended
        self.started = False
        self.throw = False          # a CancelledError has to be delivered at the next resumption
        self.exc = None             # exception given to the last cancel_with
        self.running = False
        self.finished = False


class StopCarrier(Exception):
    pass


class World:
    def __init__(self, sim, loop, plan):
        self.sim = sim
        self.loop = loop
        self.plan = plan
        self.violation = None
        self.f = [Fut(Future(loop), f'f{i}') for i in range(plan['n_fut'])]
        self.t = []
        self.serial = 0

    def bad(self, kind, detail):
        if self.violation is None:
            self.violation = Violation(kind, detail)

    def get(self, what):
        return (self.f if what[0] == 'f' else self.t)[what[1]]

    def done(self, m):
        if m.kind == 'f':
            if m.outcome is None and m.poll and m.real.is_done():
                m.outcome = ('return', None)
            return m.outcome is not None
        mark_unstarted(self, m)
        return m.finished

    def check(self, m):
        """Compares the real state with the model."""
        real = m.real
        if real is None:
            return
        done = self.done(m)
        if real.is_done() != done or real.is_pending() == done:
            self.bad('done-mismatch', f'{m.name}: expected done={done}, outcome={m.outcome}, got {real!r}')
            return
        if done and m.outcome is not None:
            if real.is_cancelled() != (m.outcome[0] == 'cancelled'):
                self.bad('cancelled-mismatch', f'{m.name}: expected {m.outcome}, got {real!r}')

    def check_outcome(self, m):
        got = outcome_of(m.real)
        m.retrieved = True
        want = m.outcome
        if want is None:
            want = ('pending',)
        if not same(got, want):
            self.bad('outcome-mismatch', f'{m.name}: expected {want}, got {got}')

    # ---- operations
    def do(self, op, me=None):
        kind = op['op']
        m = self.get(op['what'])
        real = m.real
        if real is None:
            return
        was_done = self.done(m)
        self.sim.log(kind, m.name)
        if kind == 'set_result':
            self.serial += 1
            value = self.serial
            if op['if_pending']:
                r = real.set_result_if_pending(value)
                if bool(r) == was_done:
                    self.bad('return-value', f'set_result_if_pending -> {r} on done={was_done}')
            else:
                try:
                    real.set_result(value)
                except InvalidStateError:
                    if not was_done:
                        self.bad('return-value', 'set_result raised on a pending future')
                else:
                    if was_done:
                        self.bad('return-value', 'set_result accepted on a done future')
            if not was_done:
                m.outcome = ('return', value)
        elif kind == 'set_exception':
            self.serial += 1
            exception = ValueError if op['type'] else Marker(self.serial)
            if op['if_pending']:
                r = real.set_exception_if_pending(exception)
                if bool(r) == was_done:
                    self.bad('return-value', f'set_exception_if_pending -> {r} on done={was_done}')
            else:
                try:
                    real.set_exception(exception)
                except InvalidStateError:
                    if not was_done:
                        self.bad('return-value', 'set_exception raised on a pending future')
                else:
                    if was_done:
                        self.bad('return-value', 'set_exception accepted on a done future')
            if not was_done:
                m.outcome = ('raise', exception)
        elif kind in ('cancel', 'cancel_with'):
            exception = None
            if kind == 'cancel_with':
                self.serial += 1
                exception = TimeoutError if op['type'] else Marker(self.serial)
            self.cancel_model(m, exception, kind)
            r = real.cancel() if exception is None else real.cancel_with(exception)
            if bool(r) == was_done:
                self.bad('return-value', f'{kind} -> {r} on done={was_done} {m.name}')
        elif kind == 'callback':
            box = {'calls': 0, 'removed': False, 'due': True, 'sync': True}

            def callback(future, box=box, m=m, op=op):
                self.sim.log('cb', m.name)
                box['calls'] += 1
                if box['sync']:
                    self.bad('callback-synchronous', m.name)
                if box['removed']:
                    self.bad('callback-after-remove', m.name)
                if future is not m.real:
                    self.bad('callback-argument', f'{m.name}: {future!r}')
                if not future.is_done():
                    self.bad('callback-before-done', m.name)
                if op['raise']:
                    m.awaited = True        # the traceback refers to the future
                    raise Marker('callback')
            box['f'] = callback
            real.add_done_callback(callback)
            box['sync'] = False
            box['late'] = was_done
            m.callbacks.append(box)
        elif kind == 'uncallback':
            for box in m.callbacks:
                if not box['removed'] and not box['late'] and not box['calls']:
                    count = real.remove_done_callback(box['f'])
                    if was_done:
                        # already handed to the loop
                        if count:
                            self.bad('remove-callback', 'removed from a done future')
                    else:
                        if count != 1:
                            self.bad('remove-callback', f'removed {count}')
                        box['removed'] = True
                    break
        elif kind == 'silence':
            real.silence()
            m.silenced = True
        self.check(m)

    def cancel_model(self, m, exception, kind):
        if self.done(m):
            m.silenced = True
            return
        if m.kind == 'f':
            m.outcome = ('cancelled',) if exception is None else ('cancelled', exception)
            return
        if exception is not None:
            m.exc = exception
        if m.running:
            m.throw = True
            m.self_cancel = True
            self.sim.probe('self_cancel')
            return
        waiting = m.waiting
        if waiting is None or self.done(waiting):
            m.throw = True
            self.sim.probe('cancel_while_wakeup_pending' if waiting is not None else 'cancel_unstarted_or_yielded')
            return
        self.sim.probe('cancel_while_waiting')
        self.cancel_model(waiting, None, 'cancel')
        if exception is not None:
            m.throw = True

    # ---- tasks
    async def script(self, index, spec):
        m = self.t[index]
        m.started = True
        m.running = True
        m.suspended = False
        if m.throw:
            self.bad('started-after-cancel', m.name)
        try:
            for op in spec['script']:
                kind = op['op']
                if kind in ('await', 'wfc', 'sleep', 'skip'):
                    try:
                        await self.suspend(m, op)
                    except CancelledError:
                        if op['catch'] in ('cancel', 'all'):
                            self.sim.probe('swallowed_cancel')
                            continue
                        if op['catch'] == 'convert':
                            raise Marker('converted')
                        raise
                    except Exception:
                        if op['catch'] in ('marker', 'all'):
                            continue
                        if op['catch'] == 'convert':
                            raise Marker('converted')
                        raise
                else:
                    self.do(op, m)
            end = spec['end']
            if end == 'raise':
                raise Marker(f'end{index}')
            if end == 'cancelled':
                raise CancelledError()
            if end == 'marker_stop':
                raise StopCarrier(index)
        except CancelledError as exception:
            m.outcome = ('cancelled',) if m.exc is None else ('cancelled', m.exc)
            m.finished = True
            m.running = False
            raise
        except BaseException as exception:
            m.outcome = ('raise', exception)
            m.finished = True
            m.running = False
            raise
        else:
            if m.throw:
                # a cancellation requested while the last part ran has priority over the result
                m.outcome = ('cancelled',) if m.exc is None else ('cancelled', m.exc)
            else:
                m.outcome = ('return', ('result', index))
            m.finished = True
            m.running = False
            return ('result', index)

    async def suspend(self, m, op):
        """Awaits and checks what comes out of it."""
        kind = op['op']
        sim = self.sim
        if kind == 'skip':
            m.waiting = None
            awaitable = skip_ready_cycle()
            target = None
            will_suspend = True
        else:
            if kind == 'sleep':
                real = sleep(op['d'], self.loop)
                target = Fut(real, 'sleep')
                target.poll = True
            else:
                target = self.get(op['what'])
                real = target.real
            awaitable = real.wait_for_completion() if kind == 'wfc' else real
            will_suspend = not real.is_done()
            m.waiting = target
            target.awaited = True
            if will_suspend and m.throw:
                # cancelled while running: delivered at this suspension
                if target.kind == 'f':
                    target.outcome = ('cancelled',)
                    m.throw = False
                else:
                    self.cancel_model(target, None, 'cancel')
                    m.throw = False
                    sim.probe('self_cancel_waits_task')
        m.running = False
        got = None
        try:
            got = ('return', await awaitable)
        except CancelledError as exception:
            got = ('cancelled', exception)
        except Exception as exception:
            got = ('raise', exception)
        finally:
            m.running = True
            m.waiting = None
        throw = m.throw if will_suspend else False
        if will_suspend:
            m.throw = False
        sim.log('resume', m.name, got[0])
        if throw:
            if got[0] != 'cancelled':
                self.bad('cancel-lost', f'{m.name}: a cancellation was accepted, the await of {op} gave {got}')
        else:
            if target is None:
                if got[0] != 'return':
                    self.bad('spurious-exception', f'{m.name}: {got}')
            else:
                if not self.done(target):
                    self.bad('resumed-early', f'{m.name}: await of {target.name} ended with {got}')
                else:
                    want = target.outcome
                    if kind == 'wfc':
                        want = ('return', None)
                    else:
                        target.retrieved = True
                    ok = got[0] == want[0]
                    if want[0] == 'cancelled' and len(want) == 2:
                        # cancelled with an exception: that exception is raised
                        ok = same(('raise', got[1]), ('raise', want[1])) or (
                            isinstance(want[1], type) and type(got[1]) is want[1])
                    elif ok and want[0] != 'cancelled':
                        ok = same(got, want)
                    if not ok:
                        self.bad('await-mismatch', f'{m.name}: await of {target.name} gave {got}, its outcome is {want}')
        if got[0] == 'return':
            return got[1]
        raise got[1]


def same(got, want):
    if got[0] != want[0] or len(got) != len(want):
        return False
    if len(got) == 1:
        return True
    if got[0] in ('raise', 'cancelled'):
        if isinstance(want[1], type):
            return type(got[1]) is want[1]
        return got[1] is want[1]
    return got[1] == want[1]


async def main(loop, sim, plan):
    world = World(sim, loop, plan)
    for i in range(len(plan['tasks'])):
        world.t.append(Tsk(f't{i}'))
    for i, spec in enumerate(plan['tasks']):
        world.t[i].real = Task(loop, world.script(i, spec))
    for op in plan['ops']:
        if op['wait']:
            await sleep(op['wait'], loop)
        elif op['soon']:
            await skip_ready_cycle()
        world.do(op)
        for m in (*world.f, *world.t):
            mark_unstarted(world, m)
            if m.kind == 'f':
                world.check(m)
    # faults stop: complete every future, everything has to finish
    for m in world.f:
        if m.outcome is None:
            m.real.set_result(None)
            m.outcome = ('return', None)
    for _ in range(60):
        await sleep(0.05, loop)
        if all(m.real.is_done() for m in world.t):
            break
    else:
        stuck = [(m.name, repr(m.real)) for m in world.t if not m.real.is_done()]
        raise Violation('task-stuck', f'{stuck}; {world.violation}')
    await sleep(0.01, loop)
    for m in world.t:
        mark_unstarted(world, m)
    if world.violation is not None:
        raise world.violation
    for i, m in enumerate((*world.f, *world.t)):
        world.check(m)
        expect_report = (
            m.outcome is not None and m.outcome[0] == 'raise' and not m.retrieved and not m.silenced
        )
        for box in m.callbacks:
            want = 0 if box['removed'] else 1
            if box['calls'] != want:
                raise Violation('callback-count', f'{m.name}: called {box["calls"]} times instead of {want}')
        if expect_report and i % 2 and not isinstance(m.outcome[1], type):
            # nobody looked at it: dropping it has to report the exception once
            exception = m.outcome[1]
            before = len(sim.errors)
            m.real = None
            count = len(sim.errors) - before
            if not m.awaited and (count != 1 or sim.errors[-1][0] is not exception):
                raise Violation('dropped-exception', f'{m.name}: unretrieved {exception!r} reported {count} times')
            sim.probe('dropped_unretrieved')
        else:
            world.check_outcome(m)
            before = len(sim.errors)
            m.real = None
            if not m.awaited and len(sim.errors) != before:
                raise Violation('reported-retrieved', f'{m.name}: {sim.errors[-1][0]!r} was retrieved, but reported')
    if world.violation is not None:
        raise world.violation


def mark_unstarted(world, m):
    if m.kind == 't' and not m.started and not m.finished and m.real.is_done():
        # cancelled before its first step
        if not m.throw:
            world.bad('never-started', m.name)
        m.outcome = ('cancelled',) if m.exc is None else ('cancelled', m.exc)
        m.finished = True


def run(plan, sim):
    run_async(sim, main, sim, plan, check_errors=False)
    for exception, location in sim.errors:
        if not isinstance(exception, (Marker, StopCarrier, ValueError, TimeoutError)):
            raise Violation('unhandled-exception', f'{exception!r} at {location[:300]}')
