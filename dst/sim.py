"""
Deterministic simulator core: virtual clock, managed threads, event heap, event log.

Exactly one managed thread runs at any time.  A thread gives the baton away only inside this module, and
`Sim._pick` decides who gets it next from one seeded PRNG, so one seed is one repeatable execution.
"""
import _thread, heapq, random, hashlib, sys, traceback
from collections import Counter

RUN, BLOCKED, DONE = 0, 1, 2

SIM = None  # the active simulation, or None

_real_allocate_lock = _thread.allocate_lock
_get_ident = _thread.get_ident


class SimStop(BaseException):
    """Raised in the driver thread when the simulation cannot go on."""
    kind = 'stop'


class SimDeadlock(SimStop):
    kind = 'deadlock'


class SimHorizon(SimStop):
    kind = 'horizon'


class SimLivelock(SimStop):
    kind = 'livelock'


class Violation(Exception):
    def __init__(self, kind, detail=''):
        Exception.__init__(self, kind, detail)
        self.kind = kind
        self.detail = detail


class HarnessError(Exception):
    pass


class MThread:
    __slots__ = ('index', 'name', 'state', 'pred', 'deadline', 'baton', 'ident', 'inject', 'what', 'tstate', 'nopre')

    def __init__(self, index, name):
        self.index = index
        self.name = name
        self.state = RUN
        self.pred = None
        self.deadline = None
        self.baton = _real_allocate_lock()
        self.baton.acquire()
        self.ident = None
        self.inject = None
        self.what = None
        self.tstate = None
        self.nopre = 0


def never():
    return False


class Sim:
    def __init__(self, seed, params=None, record=False):
        params = params or {}
        self.seed = seed
        self.params = params
        self.sched = random.Random(f'sched:{seed}')
        self.netr = random.Random(f'net:{seed}')
        self.userr = random.Random(f'user:{seed}')
        self.now = 1000.0
        self.start = self.now
        self.tick = params.get('tick', 0.0)
        self.late = params.get('late', 0.0)             # probability of a late wake-up of a timed wait
        self.late_max = params.get('late_max', 0.05)
        self.horizon = self.now + params.get('horizon', 100000.0)
        self.max_steps = params.get('max_steps', 200000)
        self.preempt_mean = params.get('preempt', 0)    # 0: switch at blocking points only
        self.stall = params.get('stall', 0.0)           # probability that a preempted thread is off the cpu a while
        self.stall_max = params.get('stall_max', 0.02)
        self.pre_cnt = self._next_preempt()
        self.steps = 0
        self.seq = 0
        self.heap = []
        self.threads = []
        self.by_ident = {}
        self.cur = None
        self.hash = hashlib.blake2b(digest_size=12)
        self.record = record
        self.trace = []
        self.faults = Counter()
        self.probes = Counter()
        self.switches = 0
        self.errors = []            # exceptions the code under test reported as unhandled
        self.thread_errors = []
        self.hash_counter = 0
        self.net = None
        self.stopped = None
        self.finished = False
        self.event_exception = None
        self.event_traceback = None
        self.log_lines = 0

    # ---- log -------------------------------------------------------------------------------------------------
    def log(self, *items):
        line = repr(items)
        self.hash.update(line.encode('utf-8', 'backslashreplace'))
        self.log_lines += 1
        if self.record:
            self.trace.append('%.6f t%d %s' % (self.now - self.start, self.cur.index if self.cur else -1, line))

    def digest(self):
        return self.hash.hexdigest()

    def fault(self, name, count=1):
        self.faults[name] += count

    def probe(self, name):
        self.probes[name] += 1

    # ---- events ----------------------------------------------------------------------------------------------
    def after(self, delay, func, *args):
        return self.at(self.now + delay, func, *args)

    def at(self, when, func, *args):
        self.seq += 1
        entry = [when, self.seq, func, args]
        heapq.heappush(self.heap, entry)
        return entry

    @staticmethod
    def cancel_event(entry):
        entry[2] = None
        entry[3] = ()

    def _run_due(self):
        heap = self.heap
        ran = False
        while heap and heap[0][0] <= self.now:
            entry = heapq.heappop(heap)
            func = entry[2]
            if func is not None:
                ran = True
                try:
                    func(*entry[3])
                except Exception as exception:
                    if self.event_exception is None:
                        self.event_exception = exception
                        self.event_traceback = traceback.format_exc()
                        driver = self.threads[0]
                        driver.inject = exception
                        if driver.state == DONE:
                            raise
        return ran

    # ---- clock -----------------------------------------------------------------------------------------------
    def monotonic(self):
        tick = self.tick
        if tick:
            self.now += tick
        self.steps += 1
        if self.steps > self.max_steps:
            self._stop(SimLivelock(f'more than {self.max_steps} steps'))
        return self.now

    # ---- threads ---------------------------------------------------------------------------------------------
    def attach_driver(self):
        thread = MThread(0, 'driver')
        thread.ident = _get_ident()
        self.threads.append(thread)
        self.by_ident[thread.ident] = thread
        self.cur = thread
        return thread

    def managed(self):
        thread = self.cur
        if thread is not None and thread.ident == _get_ident():
            return thread
        return None

    def spawn(self, function, args, kwargs=None):
        thread = MThread(len(self.threads), '')
        self.threads.append(thread)
        self.log('spawn', thread.index)

        def tramp():
            thread.baton.acquire()
            try:
                function(*args, **(kwargs or {}))
            except SystemExit:
                pass
            except BaseException as exception:
                self.thread_errors.append(repr(exception))
            finally:
                self._finish(thread)

        thread.ident = _thread.start_new_thread(tramp, ())
        self.by_ident[thread.ident] = thread
        self.yield_point()
        return thread.ident

    def _finish(self, thread):
        thread.state = DONE
        if self.by_ident.get(thread.ident) is thread:
            del self.by_ident[thread.ident]
        tstate = thread.tstate
        if tstate is not None:
            tstate._owner = None
        self.log('exit', thread.index)
        nxt = self._pick(thread)
        self.cur = nxt
        nxt.baton.release()

    def _describe(self):
        return '; '.join(
            f't{t.index}:{"run" if t.state == RUN else "blocked on " + str(t.what) if t.state == BLOCKED else "done"}'
            for t in self.threads
        )

    def _stop(self, exception):
        """Deliver `exception` to the driver."""
        driver = self.threads[0]
        if self.stopped is None:
            self.stopped = exception
        me = self.managed()
        if me is driver:
            raise exception
        # park this thread forever and resume the driver
        driver.inject = exception
        driver.state = RUN
        if me is not None:
            me.state = BLOCKED
            me.pred = never
            me.deadline = None
            me.what = 'killed'
            self.cur = driver
            driver.baton.release()
            me.baton.acquire()
            raise SystemExit

    def _pick(self, me):
        threads = self.threads
        while True:
            self._run_due()
            runnable = []
            for thread in threads:
                state = thread.state
                if state == RUN:
                    runnable.append(thread)
                elif state == BLOCKED:
                    if thread.inject is not None or thread.pred() or (
                        thread.deadline is not None and thread.deadline <= self.now
                    ):
                        runnable.append(thread)

            if runnable:
                self.steps += 1
                if self.steps > self.max_steps:
                    exception = SimLivelock(f'more than {self.max_steps} steps')
                    if self.stopped is None:
                        self.stopped = exception
                        threads[0].inject = exception
                        threads[0].state = RUN
                        return threads[0]
                if len(runnable) == 1:
                    return runnable[0]
                choice = runnable[self.sched.randrange(len(runnable))]
                return choice

            # nothing runs: advance the clock
            when = None
            for thread in threads:
                if thread.state == BLOCKED and thread.deadline is not None:
                    if when is None or thread.deadline < when:
                        when = thread.deadline
            heap = self.heap
            while heap and heap[0][2] is None:
                heapq.heappop(heap)
            if heap and (when is None or heap[0][0] < when):
                when = heap[0][0]

            if when is None:
                exception = SimDeadlock(self._describe())
            elif when > self.horizon:
                exception = SimHorizon(self._describe())
            else:
                if when > self.now:
                    self.now = when
                    if self.late and self.sched.random() < self.late:
                        self.now += self.sched.random() * self.late_max
                        self.faults['late_wakeup'] += 1
                continue

            driver = threads[0]
            if self.stopped is not None and driver.inject is None and driver.state == BLOCKED:
                # the driver got stuck again while cleaning up
                pass
            self.stopped = exception
            driver.inject = exception
            driver.state = RUN
            return driver

    def _switch(self, me):
        nxt = self._pick(me)
        if nxt is not me:
            self.switches += 1
            self.log('sw', nxt.index)
            self.cur = nxt
            nxt.baton.release()
            me.baton.acquire()
        self.pre_cnt = self._next_preempt()
        if me.inject is not None:
            exception = me.inject
            me.inject = None
            me.state = RUN
            raise exception

    def _next_preempt(self):
        mean = self.preempt_mean
        if mean:
            return 1 + int(self.sched.expovariate(1.0 / mean))
        return 1 << 60

    def block(self, pred, deadline=None, what=None):
        """Block the calling managed thread till `pred()` or `deadline`.  Returns `pred()`'s truth."""
        me = self.cur
        while True:
            if pred():
                return True
            if deadline is not None and deadline <= self.now:
                return False
            me.state = BLOCKED
            me.pred = pred
            me.deadline = deadline
            me.what = what
            self._switch(me)
            me.state = RUN

    def yield_point(self):
        """A point where the operating system may run something else."""
        me = self.cur
        if len(self.threads) > 1:
            if self.stall and self.sched.random() < self.stall:
                self.faults['stalled_thread'] += 1
                self.sleep(self.sched.random() * self.stall_max)
                return
            self._switch(me)
        elif self.heap:
            self._switch(me)

    def sleep(self, duration):
        self.block(never, self.now + duration, 'sleep')

    def preempt(self):
        """Called from the monitoring callbacks."""
        me = self.managed()
        if me is None or me.nopre or self.finished:
            self.pre_cnt = 1 << 60
            return
        self.faults['preemption'] += 1
        if self.stall and self.sched.random() < self.stall:
            self.faults['stalled_thread'] += 1
            self.sleep(self.sched.random() * self.stall_max)
            return
        self._switch(me)


# ---- synchronisation primitives ------------------------------------------------------------------------------

class SimEvent:
    def __init__(self):
        self._flag = False

    def is_set(self):
        return self._flag

    isSet = is_set

    def set(self):
        self._flag = True
        sim = SIM
        if sim is not None and sim.managed() is not None and not sim.finished:
            sim.yield_point()

    def clear(self):
        self._flag = False

    def _is_set(self):
        return self._flag

    def wait(self, timeout=None):
        sim = SIM
        if self._flag:
            return True
        if sim is None or sim.managed() is None:
            raise HarnessError('SimEvent.wait outside of a simulation')
        deadline = None if timeout is None else sim.now + max(timeout, 0.0)
        return sim.block(self._is_set, deadline, 'event')

    def _at_fork_reinit(self):
        self._flag = False


class SimLock:
    def __init__(self):
        self._owner = None

    def _free(self):
        return self._owner is None

    def acquire(self, blocking=True, timeout=-1):
        sim = SIM
        me = sim.cur if sim is not None else 'x'
        if self._owner is None:
            self._owner = me
            return True
        if not blocking:
            return False
        if sim is None:
            raise HarnessError('SimLock.acquire outside of a simulation')
        deadline = None if timeout is None or timeout < 0 else sim.now + timeout
        sim.probe('lock_contention')
        if sim.block(self._free, deadline, 'lock'):
            self._owner = me
            return True
        return False

    acquire_lock = acquire

    def release(self):
        if self._owner is None:
            raise RuntimeError('release unlocked lock')
        self._owner = None
        sim = SIM
        if sim is not None and sim.managed() is not None and not sim.finished:
            sim.yield_point()

    release_lock = release

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *args):
        self.release()

    def _at_fork_reinit(self):
        self._owner = None


class SimRLock:
    def __init__(self):
        self._owner = None
        self._count = 0

    def _free(self):
        return self._owner is None

    def acquire(self, blocking=True, timeout=-1):
        sim = SIM
        me = sim.cur if sim is not None else 'x'
        if self._owner is me:
            self._count += 1
            return True
        if self._owner is not None:
            if not blocking:
                return False
            deadline = None if timeout is None or timeout < 0 else sim.now + timeout
            if not sim.block(self._free, deadline, 'rlock'):
                return False
        self._owner = me
        self._count = 1
        return True

    def release(self):
        sim = SIM
        me = sim.cur if sim is not None else 'x'
        if self._owner is not me:
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if not self._count:
            self._owner = None
            if sim is not None and sim.managed() is not None and not sim.finished:
                sim.yield_point()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *args):
        self.release()

    def _is_owned(self):
        sim = SIM
        return self._owner is (sim.cur if sim is not None else 'x')

    def _release_save(self):
        state = (self._count, self._owner)
        self._count = 0
        self._owner = None
        return state

    def _acquire_restore(self, state):
        self.acquire()
        self._count, self._owner = state

    def _at_fork_reinit(self):
        self._owner = None
        self._count = 0
