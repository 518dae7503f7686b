"""Cyclers."""
import threading, time
from ..world import *
from scarletio import Cycler

BUDGET = {'quick': 12000, 'thorough': 300000}
RULE = ('One evaluation is one cycler with up to five functions (plain, async, failing, slow), modified from inside its '
        'functions, from tasks and from other threads at drawn instants, compared cycle by cycle with a model.')

OPS = ('append', 'remove', 'cancel', 'reschedule', 'call_now', 'period')


def gen(rng):
    period = rng.choice([0.01, 0.1, 0.1, 1.0])

    def func():
        return {'kind': rng.choice(['plain', 'plain', 'async', 'fail', 'slow']), 'priority': rng.randint(-2, 2),
                'burn': rng.choice([0.3, 1.5])}

    funcs = [func() for _ in range(rng.randint(0, 4))]
    ops = []
    for _ in range(rng.randint(0, 7)):
        op = {'op': rng.choice(OPS), 'where': rng.choice(['inside', 'inside', 'task', 'thread']),
              'call': rng.randint(1, 8), 'f': rng.randrange(6),
              'at': rng.choice([0.5, 1.0, 1.0, 1.5, 2.0, 2.5, 3.0, 4.0]), 'skips': rng.randint(0, 2),
              'func': func(), 'period': rng.choice([0.5, 1.0, 2.0])}
        ops.append(op)
    return {'params': swarm(rng, late=[None, None, 0.3], late_max=[period * 0.3], preempt=[None, None, None, 40]),
            'period': period, 'funcs': funcs, 'ops': ops, 'create': rng.choice(['loop', 'loop', 'thread']),
            'runs': rng.randint(1, 6)}


class Model:
    """What has to happen."""

    def __init__(self, sim, plan):
        self.sim = sim
        self.plan = plan
        self.period = plan['period']
        self.slack = 0.003 + 3 * (plan['params'].get('late_max') or 0.0)
        self.funcs = []         # [(priority, name, function)] in order
        self.due = None
        self.due_low = None
        self.in_cycle = False
        self.rescheduled = None     # what a function did with the timing in the current cycle
        self.called = []
        self.expected = None
        self.relaxed = 0            # operations of other threads in progress
        self.relaxed_cycle = False
        self.calls = 0
        self.now_expected = 0
        self.serial = 0
        self.errors = 0
        self.async_started = 0
        self.async_ran = 0
        self.violation = None
        self.nested = []
        self.last_end = 0.0
        self.overlap = self.ever_overlap = False
        self.last = -1.0

    def bad(self, kind, detail):
        if self.violation is None:
            self.violation = Violation(kind, detail)

    def add(self, priority, name, function):
        index = len(self.funcs)
        while index and self.funcs[index - 1][0] > priority:
            index -= 1
        self.funcs.insert(index, (priority, name, function))

    def set_due(self, base):
        if base is None:
            self.due = None
        else:
            self.due = base + self.period

    def start(self):
        now = self.sim.now
        self.last = now
        if self.in_cycle:
            self.nested.append((self.called, self.expected, self.relaxed_cycle))
        self.relaxed_cycle = bool(self.relaxed)
        if self.now_expected:
            self.now_expected -= 1
        elif not self.relaxed_cycle:
            if self.due is None:
                self.bad('called-after-cancel', f'at {now}')
            elif now < self.due - 2e-3:
                self.bad('called-early', f'at {now}, due {self.due}')
            elif now > max(self.due, self.last_end) + self.slack:
                self.bad('called-late', f'at {now}, due {self.due}')
        self.in_cycle = True
        self.touched = False
        self.called = []
        self.expected = [n for _, n, _ in self.funcs]
        self.calls += 1
        self.sim.log('cycle', self.calls, len(self.expected))

    def end(self):
        called, expected = self.called, self.expected
        if self.ever_overlap:
            called, expected = sorted(called), sorted(expected)
        if not (self.relaxed_cycle or self.relaxed) and called != expected:
            self.bad('wrong-calls', f'cycle {self.calls}: called {self.called}, expected {self.expected}')
        if self.nested:
            self.called, self.expected, self.relaxed_cycle = self.nested.pop()
            # the inner cycle has scheduled the next
            if not self.touched:
                self.set_due(self.sim.now)
            self.touched = True
        else:
            self.in_cycle = False
            if not self.touched:
                self.set_due(self.sim.now)


async def async_function(m, name):
    m.async_ran += 1


def make(m, sim, cycler_box, spec, name):
    kind = spec['kind']

    def plain(cycler):
        m.called.append(name)
        if kind == 'slow':
            sim.now += spec['burn'] * m.period
            sim.fault('slow_callback')
        m.inside(name)
        if kind == 'fail':
            m.errors += 1
            raise Marker(name)

    async def asynchronous(cycler):
        m.async_ran += 1

    if kind == 'async':
        # an `async def` marks its call synchronously only when it is started, so it is not a member of `called`
        return asynchronous, False
    return plain, True


def run(plan, sim):
    m = Model(sim, plan)
    loop = new_loop(sim)
    box = {}
    named = {}

    def create(priority, spec):
        m.serial += 1
        name = m.serial
        function, counted = make(m, sim, box, spec, name)
        named[name] = function
        return name, function, counted

    def start_function(cycler):
        m.start()
        m.async_expected += m.async_funcs

    def end_function(cycler):
        m.end()

    m.async_expected = 0
    m.async_funcs = 0

    def perform(op, where):
        """-> runs the operation on the cycler, and on the model"""
        cycler = box['cycler']
        kind = op['op']
        sim.log('op', kind, where, op['f'])
        outside = where == 'thread'
        if kind == 'append':
            spec = op['func']
            name, function, counted = create(spec['priority'], spec)

            def effect():
                if counted:
                    m.add(spec['priority'], name, function)
                else:
                    m.async_funcs += 1
            action = lambda: cycler.append(function, spec['priority'])
        elif kind == 'remove':
            if not m.funcs:
                return
            priority, name, function = m.funcs[op['f'] % len(m.funcs)]

            def effect():
                m.funcs[:] = [f for f in m.funcs if f[1] != name]
            action = lambda: cycler.remove(function)
        elif kind == 'cancel':
            def effect():
                m.due = None
                m.touched = True
            action = cycler.cancel
        elif kind == 'reschedule':
            def effect():
                m.set_due(sim.now)
                m.touched = True
            action = cycler.reschedule
        elif kind == 'call_now':
            if m.due is None or len(m.nested) > 2:
                return

            def effect():
                pass
            action = cycler.call_now
            if not outside:
                m.now_expected += 1
        else:
            cycle_time = op['period'] * plan['period']

            def effect():
                m.period = cycle_time
            action = lambda: cycler.set_cycle_time(cycle_time)
        if not outside:
            if m.relaxed:
                m.overlap = m.ever_overlap = True
            if kind == 'call_now':
                before = m.calls
                action()
                if m.calls == before:
                    m.bad('not-called', 'call_now')
            else:
                action()
                effect()
            return
        # the operation takes effect somewhere before the next line is executed on the loop
        if kind == 'period':
            return
        m.relaxed += 1
        cycles = m.calls
        if m.relaxed > 1:
            m.overlap = m.ever_overlap = True
        action()

        def settled():
            m.relaxed -= 1
            effect()
            if m.calls != cycles or m.overlap:
                # Something happened between the operation and this line. The timing is taken over, it is checked by
                # the following cycles.
                when = cycler.get_time_of_next_call()
                m.due = None if when < 0.0 else when
            if not m.relaxed:
                m.overlap = False
        loop.call_soon_thread_safe(settled)

    inside = {}
    for op in plan['ops']:
        if op['where'] == 'inside':
            inside.setdefault(op['call'], []).append(op)
    count = [0]

    def inside_function(name):
        count[0] += 1
        for op in inside.pop(count[0], ()):
            perform(op, 'inside')
    m.inside = inside_function
    original_end = m.end

    def end():
        original_end()
        m.last_end = sim.now
    m.end = end

    initial = []
    for spec in plan['funcs']:
        name, function, counted = create(spec['priority'], spec)
        initial.append((spec, name, function, counted))

    async def main(loop):
        for spec, name, function, counted in initial:
            box['cycler'].append(function, spec['priority'])
            if counted:
                m.add(spec['priority'], name, function)
            else:
                m.async_funcs += 1
        tasks = [Task(loop, at_task(loop, op)) for op in plan['ops'] if op['where'] == 'task']
        threads = [threading.Thread(target=at_thread, args=(op,)) for op in plan['ops'] if op['where'] == 'thread']
        for thread in threads:
            thread.start()
        end = sim.now + plan['runs'] * plan['period']
        while sim.now < end:
            await sleep(plan['period'] * 0.77, loop)
            if m.violation:
                raise m.violation
            if m.due is not None and not m.relaxed and sim.now > m.due + m.slack + 0.002 and not burning():
                await sleep(0.002, loop)
                if m.due is not None and not m.relaxed and sim.now > m.due + m.slack + 0.004:
                    raise Violation('not-called', f'due {m.due}, now {sim.now}')
            if m.due is not None and not m.relaxed:
                left = box['cycler'].get_time_of_next_call()
                if abs(left - m.due) > m.slack:
                    raise Violation('next-call', f'get_time_of_next_call() is {left}, due {m.due}')
            if not m.relaxed and box['cycler'].running != (m.due is not None):
                raise Violation('next-call', f'running is {box["cycler"].running}, due {m.due}')
        for task in tasks:
            await task
        while any(thread.is_alive() for thread in threads):
            await sleep(0.5 * plan['period'], loop)
        await sleep(0.01, loop)
        box['cycler'].cancel()
        m.due = None
        calls = m.calls
        await sleep(plan['period'] * 5, loop)
        if m.calls != calls:
            raise Violation('called-after-cancel', f'{m.calls - calls} cycles')
        if m.violation:
            raise m.violation
        if m.async_ran != m.async_expected and not m.async_unsure:
            raise Violation('async-calls', f'{m.async_ran} ran, expected {m.async_expected}')

    m.async_unsure = any(op['op'] == 'append' and op['func']['kind'] == 'async' for op in plan['ops'])

    def burning():
        return False

    async def at_task(loop, op):
        await sleep(op['at'] * plan['period'], loop)
        for _ in range(op['skips']):
            await skip_ready_cycle()
        perform(op, 'task')

    def at_thread(op):
        time.sleep(op['at'] * plan['period'])
        perform(op, 'thread')

    async def build(loop):
        m.set_due(sim.now)
        box['cycler'] = Cycler(loop, plan['period'])
        box['cycler'].append(start_function, -100)
        box['cycler'].append(end_function, 100)

    if plan['create'] == 'thread':
        m.set_due(sim.now)
        m.soft = True
        m.slack += 0.002
        box['cycler'] = Cycler(loop, plan['period'])
        box['cycler'].append(start_function, -100)
        box['cycler'].append(end_function, 100)
    else:
        b = start_on(sim, loop, build, loop)
        b.event.wait()
        finish(sim, b)
    b = start_on(sim, loop, main, loop)
    b.event.wait()
    finish(sim, b)
    stop_loop(sim, loop)
    no_errors(sim, allow=(Marker,))
    reported = sum(isinstance(e, Marker) for e, _ in sim.errors)
    if reported != m.errors:
        raise Violation('errors-lost', f'{reported} reported, {m.errors} raised')


def valid(plan):
    return plan['period'] > 0 and plan['runs'] > 0
