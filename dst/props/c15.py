"""Starting, stopping and surviving: the life of an event loop."""
import threading, time
from ..world import *
from scarletio import run as top_run, get_event_loop, create_event_loop, get_or_create_event_loop
from scarletio.core.top_level import event_loop as top_module

BUDGET = {'quick': 16000, 'thorough': 400000}
RULE = ('One evaluation is one to five threads which start (explicitly or by the first use), use, stop and join one loop, with '
        'callbacks which raise anything, workers in executors, failing thread starts and descriptor exhaustion during the '
        'start; or threads which use the loop detection and the one shot top level runner.')


def gen(rng):
    params = swarm(rng, preempt=[None, 60, 20, 8], stall=[None, None, 0.1, 0.4], stall_max=[0.003], late=[None, None, 0.2],
                   late_max=[0.002])
    if rng.random() < 0.2:
        return {'params': params, 'mode': 'top', 'threads': [
            [{'kind': rng.choice(['run', 'run', 'get']), 'gap': rng.choice([None, 0.0, 0.004]), 'for': rng.choice([0.0, 0.003]),
              'how': rng.choice(['return', 'raise'])} for _ in range(rng.randint(1, 3))] for _ in range(rng.randint(1, 3))],
            'shared': rng.random() < 0.5}

    def op():
        return {'kind': rng.choice(['soon', 'soon', 'lazy', 'task', 'run', 'run', 'bad', 'bad_timer', 'executor', 'stop', 'stop_inside',
                                    'join', 'wake']),
                'gap': rng.choice([None, None, 0.0, 0.002, 0.01]), 'for': rng.choice([None, None, 0.0, 0.002, 0.02]),
                'error': rng.choice(['exception', 'exit', 'interrupt', 'generator', 'cancelled', 'base'])}
    threads = [[op() for _ in range(rng.randint(1, 5))] for _ in range(rng.randint(1, 5))]
    if rng.random() < 0.5:
        for ops in threads:
            ops[:] = [o for o in ops if o['kind'] not in ('stop', 'stop_inside', 'join')] or [op() for _ in range(1)]
    return {'params': params, 'mode': 'life', 'threads': threads, 'start_later': rng.random() < 0.7,
            'fault': rng.choice([None] * 5 + ['thread', 'descriptor'])}


class Op:
    def __init__(self, tag, spec):
        self.tag = tag
        self.spec = spec
        self.runs = 0
        self.begun = None
        self.accepted = None
        self.answer = None
        self.answered = None


class BaseMarker(BaseException):
    pass


ERRORS = {'exception': Marker, 'exit': SystemExit, 'interrupt': KeyboardInterrupt, 'generator': GeneratorExit,
          'cancelled': CancelledError, 'base': BaseMarker}


class World:
    pass


def ran(w, op):
    op.runs += 1
    w.sim.log('ran', op.tag)
    if threading.current_thread() is not w.loop:
        w.bad = Violation('wrong-thread', f'{op.tag} ran on {threading.current_thread()!r}')
    if w.on_loop:
        w.bad = Violation('parallel-run', f'{op.tag}')


def callback(w, op):
    ran(w, op)
    if op.spec['kind'] in ('bad', 'bad_timer'):
        raise ERRORS[op.spec['error']](op.tag)


def stop_inside(w, op):
    ran(w, op)
    if w.stop_begun is None:
        w.stop_begun = w.sim.now
    w.loop.stop()


def timer(w, op):
    ran(w, op)
    op.runs -= 1
    w.loop.call_after(op.spec['for'] or 0.0, callback, w, op)


async def coroutine(w, op):
    ran(w, op)
    if op.spec['for'] is not None:
        await sleep(op.spec['for'], w.loop)
    return op.tag


def executor(w, op):
    ran(w, op)

    def work():
        w.workers.add(threading.current_thread())
        time.sleep(op.spec['for'] or 0.0)
    try:
        w.loop.run_in_executor(work)
    except RuntimeError:
        pass


def caller(w, ops):
    sim = w.sim
    loop = w.loop
    for op in ops:
        spec = op.spec
        if spec['gap'] is not None:
            time.sleep(spec['gap'])
        kind = spec['kind']
        op.begun = sim.now
        op.stop_before = w.stop_begun is not None
        op.dead_before = w.joined
        sim.log('do', op.tag, kind)
        try:
            if kind in ('soon', 'bad'):
                op.accepted = loop.call_soon_thread_safe(callback, w, op) is not None
            elif kind == 'bad_timer':
                op.accepted = loop.call_soon_thread_safe(timer, w, op) is not None
            elif kind == 'executor':
                op.accepted = loop.call_soon_thread_safe(executor, w, op) is not None
            elif kind == 'lazy':
                op.accepted = loop.call_soon_thread_safe_lazy(callback, w, op) is not None
            elif kind == 'task':
                if not op.stop_before:
                    loop.create_task_thread_safe(coroutine(w, op))
                    op.accepted = True
            elif kind == 'run':
                c = coroutine(w, op)
                try:
                    op.answer = loop.run(c, timeout=0.5)
                    op.accepted = True
                except TimeoutError:
                    op.answer = 'timeout'
                except CancelledError:
                    op.answer = 'cancelled'
                except RuntimeError as e:
                    op.answer = e
                c.close()
            elif kind == 'wake':
                loop.wake_up()
                op.accepted = True
            elif kind == 'stop':
                if w.stop_begun is None:
                    w.stop_begun = sim.now
                loop.stop()
            elif kind == 'stop_inside':
                op.accepted = loop.call_soon_thread_safe(stop_inside, w, op) is not None
            elif kind == 'join':
                if w.stop_begun is not None:
                    loop.join()
                    w.joined = True
        except (RuntimeError, OSError) as e:
            if 'start new thread' in str(e) or isinstance(e, OSError):
                if not w.fault:
                    raise
                op.answer = e
                w.start_failed = True
            elif 'before it is started' in str(e):
                pass
            else:
                raise
        op.answered = sim.now


def run(plan, sim):
    top_module.THREAD_TO_EVENT_LOOP_REFERENCE.clear()
    if plan['mode'] == 'top':
        return run_top(plan, sim)
    w = World()
    w.sim = sim
    w.bad = None
    w.on_loop = 0
    w.stop_begun = None
    w.joined = False
    w.workers = set()
    w.fault = plan['fault']
    w.start_failed = False
    w.loop = loop = EventThread(daemon=True, name='loop', start_later=True)
    if w.fault == 'thread':
        sim.params['thread_fail'] = 0.0
    if w.fault == 'descriptor':
        sim.net.fd_limit = len(sim.net.fds) + 1
    if not plan['start_later'] and w.fault is None:
        loop._do_start()
        if not loop.running:
            raise Violation('not-started', 'the loop is not running after it was started')
    all_ops = [[Op((i, j), spec) for j, spec in enumerate(specs)] for i, specs in enumerate(plan['threads'])]
    errors = []

    def body(ops):
        try:
            caller(w, ops)
        except BaseException as e:
            errors.append(e)

    threads = [threading.Thread(target=body, args=(ops,)) for ops in all_ops]
    for i, thread in enumerate(threads):
        thread.start()
        if not i and w.fault == 'thread' and loop._started.is_set() is False:
            # the start of the loop might fail from now on
            pass
    for thread in threads:
        thread.join()
    fault = w.fault
    sim.net.fd_limit = None
    time.sleep(0.3 + (1.0 if plan['params'].get('stall') else 0.0))
    stopped = w.stop_begun is not None
    if not stopped and fault is None:
        # still of use after anything that happened
        if any(op.spec['kind'] != 'join' for ops in all_ops for op in ops if op.spec['kind'] != 'lazy'):
            if not loop.running:
                raise Violation('died', 'the loop ended by itself')
        if loop.running:
            for ops in all_ops:
                for op in ops:
                    if op.accepted and not op.runs and op.spec['kind'] in ('soon', 'bad', 'lazy', 'executor'):
                        raise Violation('call-asleep', f'{op.tag} {op.spec} was accepted, but does not run')
    if w.stop_begun is None:
        w.stop_begun = sim.now
    loop.stop()
    loop.join(30.0)
    if loop.is_alive():
        raise Violation('not-stopped', 'the loop runs 30 seconds after it was stopped')
    if errors:
        if isinstance(errors[0], (Violation, HarnessError, S.SimStop)):
            raise errors[0]
        raise unexpected(errors[0], ''.join(traceback.format_exception(errors[0])))
    if w.bad:
        raise w.bad
    slack = 0.012 + 4 * (plan['params'].get('late_max') or 0.0) + sim.faults['stalled_thread'] * sim.stall_max
    for ops in all_ops:
        for op in ops:
            check(w, op, fault, slack)
    if not loop.is_stopped() and loop._started.is_set():
        raise Violation('state', 'an ended loop is not stopped')
    if loop.running:
        raise Violation('state', 'an ended loop is running')
    # refuses politely
    if loop.call_soon_thread_safe(print) is not None:
        raise Violation('accepted-dead', 'call accepted by an ended loop')
    c = coroutine(w, all_ops[0][0])
    started = sim.now
    try:
        loop.run(c, timeout=0.5)
    except RuntimeError:
        pass
    except (TimeoutError, CancelledError):
        raise Violation('accepted-dead', 'coroutine accepted by an ended loop')
    c.close()
    loop.stop()
    time.sleep(1.0)
    for worker in w.workers:
        if worker.is_alive():
            raise Violation('worker-alive', f'{worker!r} is alive after the loop ended')
    left = [obj for obj in sim.net.fds.values()]
    if left and not fault:
        raise Violation('descriptor-leak', f'{left}')
    if fault != 'descriptor':
        no_errors(sim, allow=(Marker, SystemExit, KeyboardInterrupt, GeneratorExit, CancelledError, BaseMarker))


def check(w, op, fault, slack):
    spec = op.spec
    kind = spec['kind']
    if op.runs > 1:
        raise Violation('ran-twice', f'{op.tag} {spec} ran {op.runs} times')
    if op.begun is None:
        return
    if kind in ('soon', 'bad', 'lazy', 'executor', 'stop_inside'):
        if op.accepted is False and op.runs:
            raise Violation('ran-refused', f'{op.tag} {spec}')
        if not op.stop_before and not fault:
            if op.accepted is False and w.stop_begun > op.answered:
                raise Violation('refused', f'{op.tag} {spec} was refused by a loop which is not stopped')
            if op.accepted and not op.runs and w.stop_begun > op.answered:
                raise Violation('call-lost', f'{op.tag} {spec} was accepted, but never ran')
        if op.dead_before and (op.accepted or op.runs):
            raise Violation('accepted-dead', f'{op.tag} {spec}')
    elif kind == 'run':
        if op.answer == op.tag:
            if op.runs != 1:
                raise Violation('made-up', f'{op.tag}')
        elif not op.stop_before and not fault and w.stop_begun > op.begun + (spec['for'] or 0.0) + slack:
            raise Violation('run-lost', f'{op.tag} {spec} answered {op.answer!r}')
        if op.dead_before and not isinstance(op.answer, RuntimeError):
            raise Violation('accepted-dead', f'{op.tag} {spec} answered {op.answer!r}')
        if fault and op.answer == 'timeout' and w.stop_begun > op.begun + 0.5 and not op.stop_before:
            raise Violation('run-lost', f'{op.tag} {spec} timed out on a loop which could not start')


def run_top(plan, sim):
    errors = []
    before = set(threading.enumerate())
    w = World()
    w.shared = None

    def body(i, ops):
        try:
            for j, op in enumerate(ops):
                if op['gap'] is not None:
                    time.sleep(op['gap'])
                tag = (i, j)

                async def coroutine():
                    thread = threading.current_thread()
                    if not isinstance(thread, EventThread):
                        raise Violation('wrong-thread', f'{thread!r}')
                    if get_event_loop() is not thread:
                        raise Violation('wrong-loop', 'the detected loop is not the one the coroutine runs on')
                    if plan['shared'] and thread is not w.shared:
                        raise Violation('wrong-loop', 'the shared loop was not used')
                    await sleep(op['for'])
                    if op['how'] == 'raise':
                        raise Marker(tag)
                    return tag

                if op['kind'] == 'run' or not plan['shared']:
                    try:
                        result = top_run(coroutine())
                    except Marker as e:
                        if op['how'] != 'raise' or e.tag != tag:
                            raise Violation('wrong-answer', f'{tag}: {e!r}')
                    else:
                        if op['how'] != 'return' or result != tag:
                            raise Violation('wrong-answer', f'{tag}: {result!r}')
                else:
                    if get_event_loop() is not w.shared:
                        raise Violation('wrong-loop', 'the running loop was not detected')
                    if get_or_create_event_loop() is not w.shared:
                        raise Violation('wrong-loop', 'an other loop was created beside the running one')
        except BaseException as e:
            errors.append(e)

    if plan['shared']:
        w.shared = create_event_loop(start_later=False, name='shared')
    threads = [threading.Thread(target=body, args=(i, ops)) for i, ops in enumerate(plan['threads'])]
    for thread in threads:
        thread.start()
    for thread in threads:
        thread.join()
    if w.shared is not None:
        w.shared.stop()
        w.shared.join()
        try:
            get_event_loop()
        except RuntimeError:
            pass
        else:
            raise Violation('wrong-loop', 'an ended loop is detected as running')
    time.sleep(0.5 + (1.0 if plan['params'].get('stall') else 0.0))
    if errors:
        if isinstance(errors[0], (Violation, HarnessError, S.SimStop)):
            raise errors[0]
        raise unexpected(errors[0], ''.join(traceback.format_exception(errors[0])))
    left = [thread for thread in threading.enumerate() if thread not in before]
    if left:
        raise Violation('loop-left', f'{left}')
    if sim.net.fds:
        raise Violation('descriptor-leak', f'{list(sim.net.fds.values())}')
    no_errors(sim, allow=(Marker,))


def valid(plan):
    return bool(plan['threads']) and all(plan['threads'])
