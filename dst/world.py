"""Helpers shared by the property modules: running coroutines on a simulated event loop, common oracles."""
import gc, traceback

from . import sim as S
from .sim import Violation, SimEvent, HarnessError
from . import seams

seams.install()

from scarletio import EventThread, Task, Future, CancelledError, sleep, skip_ready_cycle
from scarletio.core import InvalidStateError


class Marker(Exception):
    """Exception used by workloads, carries an identity."""
    def __init__(self, tag):
        Exception.__init__(self, tag)
        self.tag = tag


def new_loop(sim, name='loop'):
    loop = EventThread(daemon=True, name=name, start_later=False)
    return loop


def start_on(sim, loop, coroutine_function, *args):
    """Starts a coroutine on the loop from the driver. -> box with `.event`, `.result`, `.exception`"""
    box = Box()

    async def wrapper():
        try:
            box.result = await coroutine_function(*args)
        except BaseException as exception:
            box.exception = exception
            box.traceback = traceback.format_exc()
        finally:
            box.done = True
            box.event.set()

    box.task = loop.create_task_thread_safe(wrapper())
    return box


class Box:
    def __init__(self):
        self.event = SimEvent()
        self.result = None
        self.exception = None
        self.traceback = ''
        self.done = False
        self.task = None


def unexpected(exception, text):
    """An exception which the workload does not provide for."""
    tb = exception.__traceback__
    name = ''
    while tb is not None:
        name = tb.tb_frame.f_code.co_filename
        tb = tb.tb_next
    if name.endswith(('dst/net.py', 'dst/sim.py', 'dst/seams.py')) and not isinstance(exception, OSError):
        return HarnessError(f'workload failed: {exception!r}\n{text}')
    return Violation('unexpected-exception', f'{exception!r}\n{text[-3000:]}')


def finish(sim, box):
    exception = box.exception
    if exception is not None:
        if isinstance(exception, (Violation, HarnessError, S.SimStop)):
            raise exception
        raise unexpected(exception, box.traceback)
    return box.result


def run_async(sim, coroutine_function, *args, check_errors=True, stop=True):
    """Runs `coroutine_function(loop, *args)` on a fresh loop, then stops the loop."""
    loop = new_loop(sim)
    box = start_on(sim, loop, coroutine_function, loop, *args)
    box.event.wait()
    result = finish(sim, box)
    if stop:
        stop_loop(sim, loop)
    if check_errors:
        no_errors(sim)
    return result


def stop_loop(sim, loop):
    loop.stop()
    loop.join()


def no_errors(sim, allow=()):
    for exception, location in sim.errors:
        if not isinstance(exception, allow):
            raise Violation('unhandled-exception', f'{exception!r} at {location[:300]}\n' + ''.join(
                traceback.format_exception(exception))[-1500:])
    if sim.thread_errors:
        raise Violation('thread-died', sim.thread_errors[0])


def outcome_of(future):
    """Reads the outcome without raising; marks it retrieved."""
    if future.is_pending():
        return ('pending',)
    if future.is_cancelled():
        exception = future.get_cancellation_exception()
        if type(exception) is CancelledError:
            return ('cancelled',)
        return ('cancelled', exception)
    exception = future.get_exception()
    if exception is not None:
        return ('raise', exception)
    return ('return', future.get_result())


def swarm(rng, **choices):
    """Draws a parameter set: every value is a list of alternatives; None drops the key."""
    out = {}
    for key, values in choices.items():
        value = rng.choice(values)
        if value is not None:
            out[key] = value
    return out


def burn(sim, seconds):
    """Lets simulated time pass without giving up the thread (a slow callback)."""
    sim.now += seconds
    sim.fault('slow_callback')
