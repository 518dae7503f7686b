"""
Seams: puts every source of nondeterminism scarletio touches behind the simulator.

Has to be imported before scarletio.  With no active simulation the patched primitives behave like the real ones.
"""
import functools
import traceback, os, sys, time, threading, random, socket, selectors, select, subprocess, builtins, ssl, signal, errno
import _thread, _random
import asyncio  # noqa: keep the standard library's own classes unpatched by importing before the patches
import concurrent.futures, multiprocessing, logging, queue, tempfile  # noqa

from . import sim as S

REPO = os.environ.get('DST_REPO', '/repo')

real_monotonic = time.monotonic
real_time = time.time
real_getrandbits = random.getrandbits
real_urandom = os.urandom
real_start_new_thread = threading._start_new_thread
real_set_sentinel = threading._set_sentinel
RealEvent = threading.Event
RealLock = threading.Lock
RealRLock = threading.RLock
real_sleep = time.sleep


def active():
    sim = S.SIM
    if sim is not None and not sim.finished and sim.managed() is not None:
        return sim
    return None


def monotonic():
    sim = S.SIM
    if sim is None:
        return real_monotonic()
    return sim.monotonic()


def wall_time():
    sim = S.SIM
    if sim is None:
        return real_time()
    return sim.monotonic() + 1.7e9


def sleep(duration):
    sim = active()
    if sim is None:
        return real_sleep(duration)
    sim.sleep(duration)


def getrandbits(n):
    sim = S.SIM
    if sim is None:
        return real_getrandbits(n)
    return sim.userr.getrandbits(n)


def urandom(n):
    sim = S.SIM
    if sim is None:
        return real_urandom(n)
    return sim.userr.randbytes(n)


class Event:
    def __new__(cls):
        if active() is not None:
            return S.SimEvent()
        return RealEvent()


def Lock():
    if active() is not None:
        return S.SimLock()
    return RealLock()


def RLock():
    if active() is not None:
        return S.SimRLock()
    return RealRLock()


def start_new_thread(function, args, kwargs=None):
    sim = active()
    if sim is None:
        return real_start_new_thread(function, args, kwargs or {})
    if sim.params.get('thread_fail') and sim.netr.random() < sim.params['thread_fail']:
        sim.fault('thread_start_failed')
        raise RuntimeError("can't start new thread")
    return sim.spawn(function, args, kwargs)


def set_sentinel():
    sim = active()
    if sim is None:
        return real_set_sentinel()
    lock = S.SimLock()
    sim.cur.tstate = lock
    return lock


def excepthook(args, /):
    sim = S.SIM
    if sim is not None:
        sim.thread_errors.append(''.join(traceback.format_exception(args.exc_value))[-1500:])
        return
    real_excepthook(args)


real_excepthook = threading.excepthook


# ---- deterministic identity hashes -----------------------------------------------------------------------------

real_build_class = builtins.__build_class__


def _dst_hash(self):
    try:
        return self._dst_seq
    except AttributeError:
        pass
    sim = S.SIM
    if sim is None:
        OUTSIDE[0] += 1
        value = OUTSIDE[0]
    else:
        sim.hash_counter = value = sim.hash_counter + 1
    value = value * 1000003 & 0xffffffffff
    try:
        object.__setattr__(self, '_dst_seq', value)
    except AttributeError:
        return object.__hash__(self)
    return value


HASHED = []
OUTSIDE = [0]


def _has_state(base):
    if not isinstance(base, type) or type(base) is not type or base.__hash__ is not object.__hash__:
        return True
    for cls in base.__mro__:
        if cls is not object and (not (cls.__module__ or '').startswith('scarletio') or cls.__dict__.get('__slots__', None) != ()):
            return True
    return False


def build_class(func, name, *bases, **kwargs):
    module = getattr(func, '__module__', '') or ''
    if module.startswith('scarletio.') and not module.startswith('scarletio.utils') and 'metaclass' not in kwargs:
        if len(bases) <= 1 and not any(base is not object and _has_state(base) for base in bases):
            cls = real_build_class(func, name, *bases, **kwargs)
            namespace = cls.__dict__
            if type(cls) is type and '__eq__' not in namespace and '__hash__' not in namespace:
                slots = namespace.get('__slots__')
                if slots is None or isinstance(slots, str) or '__dict__' in slots:
                    cls.__hash__ = _dst_hash
                    HASHED.append(cls)
                elif len(slots):
                    # build it again with one more slot
                    def patched_meta(name, bases, ns, **kw):
                        ns['__slots__'] = (*ns['__slots__'], '_dst_seq')
                        return type(name, bases, ns, **kw)
                    try:
                        cls = real_build_class(func, name, *bases, metaclass=patched_meta, **kwargs)
                    except TypeError:
                        return cls
                    cls.__hash__ = _dst_hash
                    HASHED.append(cls)
            return cls
    return real_build_class(func, name, *bases, **kwargs)


# ---- exception reporting --------------------------------------------------------------------------------------

def _record(exception, location):
    sim = S.SIM
    if sim is not None:
        sim.errors.append((exception, location))
        sim.log('unhandled', type(exception).__name__)


def _location_text(location):
    if location is None:
        return ''
    if isinstance(location, str):
        return location
    try:
        return ''.join(str(x) for x in location)
    except Exception:
        return '?'


class Quiet:
    encoding = 'utf-8'
    errors = 'strict'

    def __init__(self):
        self.data = []

    def write(self, data):
        sim = S.SIM
        if sim is not None and len(self.data) < 50:
            self.data.append(data[:2000])
        return len(data)

    def flush(self):
        pass

    def isatty(self):
        return False

    def fileno(self):
        raise OSError('no file descriptor')


QUIET = Quiet()
INSTALLED = False


def install():
    """Patches the standard library, imports scarletio, patches its reporters."""
    global INSTALLED
    if INSTALLED:
        return
    INSTALLED = True

    from . import net

    sys.setswitchinterval(0.005)
    # not a function, so that it does not become a method as a class attribute (like the builtin)
    time.monotonic = functools.partial(monotonic)
    time.time = wall_time
    time.sleep = sleep
    threading._time = monotonic
    random.getrandbits = getrandbits
    os.urandom = urandom
    threading.Event = Event
    threading.Lock = Lock
    threading._allocate_lock = Lock
    threading.RLock = RLock
    threading._start_new_thread = start_new_thread
    threading._set_sentinel = set_sentinel
    threading.excepthook = excepthook
    net.patch()
    threading.Thread.__hash__ = _dst_hash

    if REPO not in sys.path:
        sys.path.insert(0, REPO)

    builtins.__build_class__ = build_class
    try:
        import scarletio
        import scarletio.core, scarletio.dns_query, scarletio.http_client, scarletio.web_common, scarletio.web_socket
        import scarletio.streaming
    finally:
        builtins.__build_class__ = real_build_class

    path = os.path.realpath(scarletio.__file__)
    if not path.startswith(os.path.realpath(REPO) + os.sep):
        raise S.HarnessError(f'scarletio was imported from {path}')

    from scarletio.core.top_level import trace as trace_module
    from scarletio.core import Future

    reporters = {}

    def report_async(exception, before=None, after=None, file=None, *, loop=None, **kwargs):
        _record(exception, _location_text(before))
        if loop is None:
            loop = threading.current_thread()
        future = Future(loop)
        future.set_result(None)
        return future

    def report_sync(exception, before=None, after=None, file=None, **kwargs):
        _record(exception, _location_text(before))

    for name in ('write_exception_async', 'write_exception_sync', 'write_exception_maybe_async'):
        function = getattr(trace_module, name, None)
        if function is not None:
            reporters[id(function)] = report_async if name == 'write_exception_async' else report_sync

    for module_name, module in list(sys.modules.items()):
        if module is None or not (module_name == 'scarletio' or module_name.startswith('scarletio.')):
            continue
        for key, value in list(vars(module).items()):
            replacement = reporters.get(id(value))
            if replacement is not None:
                setattr(module, key, replacement)


def scarletio_code_objects(prefix='scarletio.core'):
    import types
    seen = set()

    def walk(code):
        if code in seen:
            return
        seen.add(code)
        for const in code.co_consts:
            if isinstance(const, types.CodeType):
                walk(const)

    def visit(value, depth):
        if isinstance(value, types.FunctionType):
            if value.__module__ and value.__module__.startswith('scarletio'):
                walk(value.__code__)
        elif isinstance(value, (classmethod, staticmethod)):
            visit(value.__func__, depth)
        elif isinstance(value, property):
            for f in (value.fget, value.fset, value.fdel):
                if f is not None:
                    visit(f, depth)
        elif isinstance(value, type) and depth < 3 and (value.__module__ or '').startswith('scarletio'):
            for v in list(vars(value).values()):
                visit(v, depth + 1)

    for module_name, module in list(sys.modules.items()):
        if module is not None and module_name.startswith(prefix) and '.tests' not in module_name:
            for value in list(vars(module).values()):
                visit(value, 0)
    return sorted(seen, key=lambda c: (c.co_filename, c.co_firstlineno, c.co_qualname))


PREEMPT_INSTALLED = False


def install_preemption():
    """
    Lets the simulator switch threads at the points where CPython 3.12 may release the GIL: function entry, generator
    resume, after calls into C and at backward jumps.
    """
    global PREEMPT_INSTALLED
    if PREEMPT_INSTALLED:
        return
    PREEMPT_INSTALLED = True
    monitoring = sys.monitoring
    E = monitoring.events
    tool = 4
    monitoring.use_tool_id(tool, 'dst')

    def point(*args):
        sim = S.SIM
        if sim is None:
            return
        sim.pre_cnt -= 1
        if sim.pre_cnt <= 0:
            sim.preempt()

    def jump(code, source, destination):
        if destination < source:
            sim = S.SIM
            if sim is None:
                return
            sim.pre_cnt -= 1
            if sim.pre_cnt <= 0:
                sim.preempt()

    monitoring.register_callback(tool, E.PY_START, point)
    monitoring.register_callback(tool, E.PY_RESUME, point)
    monitoring.register_callback(tool, E.C_RETURN, point)
    monitoring.register_callback(tool, E.JUMP, jump)
    events = E.PY_START | E.PY_RESUME | E.JUMP | E.CALL
    for code in scarletio_code_objects():
        monitoring.set_local_events(tool, code, events)
