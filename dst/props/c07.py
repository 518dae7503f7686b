"""Task groups."""
from ..world import *
from scarletio import TaskGroup

BUDGET = {'quick': 24000, 'thorough': 400000}
RULE = ('One evaluation is one seeded sequence of additions, waits of all kinds, completions, pops and cancellations on '
        'one task group; strict runs settle after every operation and compare with an exact model, racy runs put several '
        'operations in one loop cycle.')

WAITS = ('next', 'first', 'first_and_pop', 'exception', 'exception_and_pop', 'exception_or_cancellation',
         'exception_or_cancellation_and_pop', 'first_n', 'all')


def gen(rng):
    strict = rng.random() < 0.5
    ops = []
    for _ in range(rng.randint(2, 18)):
        r = rng.random()
        if r < 0.28:
            ops.append({'op': 'add', 'kind': rng.choice(['future', 'task', 'done', 'create_future', 'create_task',
                                                         'awaitable', 'again']), 'i': rng.randrange(8)})
        elif r < 0.55:
            ops.append({'op': 'complete', 'i': rng.randrange(8), 'how': rng.choice(['result', 'result', 'raise', 'cancel'])})
        elif r < 0.80:
            ops.append({'op': 'wait', 'kind': rng.choice(WAITS), 'n': rng.randint(1, 3)})
        elif r < 0.86:
            ops.append({'op': 'cancel_wait', 'i': rng.randrange(6)})
        elif r < 0.91:
            ops.append({'op': 'pop'})
        elif r < 0.93:
            ops.append({'op': 'exhaust_done'})
        elif r < 0.95:
            ops.append({'op': 'exhaust'})
        elif r < 0.97:
            ops.append({'op': rng.choice(['cancel_all', 'cancel_pending', 'cancel_done'])})
        else:
            ops.append({'op': 'context', 'raise': rng.random() < 0.5})
        ops[-1]['settle'] = strict or rng.random() < 0.3
    return {'params': {}, 'strict': strict, 'initial': [rng.choice(['future', 'done', 'task']) for _ in range(rng.randint(0, 3))],
            'ops': ops}


class Member:
    def __init__(self, future, source):
        self.future = future        # what is in the group
        self.source = source        # what completes it
        self.outs = 0


class Wait:
    def __init__(self, kind, waiter, n):
        self.kind = kind
        self.waiter = waiter
        self.n = n
        self.count = 0
        self.expect = None          # None: has to be pending, else (value,)
        self.taken = False


async def pass_on(source):
    return await source


async def main(loop, sim, plan):
    members = []
    waits = []
    strict = plan['strict']
    serial = [0]
    state = {'bad': None, 'exhausts': []}

    def bad(kind, detail):
        raise Violation(kind, detail)

    def find(future):
        for m in members:
            if m.future is future:
                return m
        bad('foreign-future', f'{future!r} was never added')

    def out(future, how):
        m = find(future)
        m.outs += 1
        sim.log('out', how, members.index(m))
        if m.outs > 1:
            bad('handed-out-twice', f'{future!r} by {how}')
        if not future.is_done():
            bad('handed-out-pending', f'{future!r} by {how}')

    async def settle():
        for _ in range(8):
            await skip_ready_cycle()

    initial = []
    for kind in plan['initial']:
        source = Future(loop)
        if kind == 'task':
            future = Task(loop, pass_on(source))
        else:
            future = source
            if kind == 'done':
                source.set_result(None)
        members.append(Member(future, source))
        initial.append(future)
    group = TaskGroup(loop, initial)
    await settle()

    def in_done():
        return [m for m in members if m.future.is_done() and not m.outs]

    def in_pending():
        return [m for m in members if not m.future.is_done()]

    def raised(m):
        return not m.future.is_cancelled() and m.future.get_exception() is not None

    def matches(kind, m):
        if kind.startswith('exception_or'):
            return raised(m) or m.future.is_cancelled()
        # whether a cancelled task counts as failed is not specified
        return raised(m)

    def ambiguous(m):
        return m.future.is_cancelled()

    def model_wait(w):
        """Expected state of a wait at its creation, settled state. `any` means not checked."""
        kind = w.kind
        done = in_done()
        pending = in_pending()
        if kind == 'next':
            return
        if kind == 'first_n':
            w.count = len(done)
            if w.count >= w.n:
                w.expect = ('count',)
        elif kind == 'all':
            if not pending:
                w.expect = ('none',)
        elif kind.startswith('first'):
            if done:
                w.expect = ('one-of', done)
            elif not pending:
                w.expect = ('none',)
        else:
            matching = [m for m in done if matches(kind, m)]
            if matching or any(ambiguous(m) for m in done):
                w.expect = ('one-of', [m for m in done if matches(kind, m) or ambiguous(m)])
                if not matching:
                    w.expect = ('maybe',)
            elif not pending:
                w.expect = ('none',)

    def model_completion(m):
        """In strict runs exactly one member completed."""
        pending = in_pending()
        taken = uncertain = False
        for w in waits:
            if w.expect is not None:
                continue
            kind = w.kind
            if kind == 'next':
                w.expect = ('any',)
            elif kind == 'first_n':
                w.count += 1
                if w.count >= w.n:
                    w.expect = ('count',)
            elif kind == 'all':
                if not pending:
                    w.expect = ('none',)
            elif kind == 'first':
                w.expect = ('one-of', [m])
            elif uncertain and kind.endswith('_pop'):
                w.expect = ('maybe',)
            elif kind == 'first_and_pop':
                if not taken:
                    taken = True
                    w.expect = ('one-of', [m])
                elif not pending:
                    w.expect = ('none',)
            elif ambiguous(m) and not kind.startswith('exception_or'):
                w.expect = ('maybe',)
                if kind.endswith('_pop') and not taken:
                    uncertain = True
            elif matches(kind, m):
                if not kind.endswith('pop'):
                    w.expect = ('one-of', [m])
                elif not taken:
                    taken = True
                    w.expect = ('one-of', [m])
                elif not pending:
                    w.expect = ('none',)
            elif not pending:
                w.expect = ('none',)

    def check(where):
        pending = set(map(id, group.pending))
        done = set(map(id, group.done))
        for m in members:
            want = (id(m.future) in pending, id(m.future) in done)
            should = (not m.future.is_done(), m.future.is_done() and not m.outs)
            if want != should:
                bad('accounting', f'{where}: {m.future!r}: in (pending, done) = {want}, expected {should}')
        if len(pending) + len(done) > len(members):
            bad('accounting', f'{where}: foreign members: {group!r}')
        if group.has_done() != bool(done) or group.has_pending() != bool(pending):
            bad('accounting', f'{where}: has_done / has_pending')

    def collect():
        """Results of waits."""
        for w in waits:
            if w.taken or not w.waiter.is_done() or w.waiter.is_cancelled():
                continue
            w.taken = True
            value = w.waiter.get_result()
            sim.log('waited', w.kind, value if isinstance(value, int) else value is not None)
            if w.kind.endswith('_and_pop') and value is not None:
                out(value, w.kind)
            if w.kind.startswith(('first_and', 'exception')) or w.kind == 'first':
                if value is not None:
                    m = find(value)
                    if not m.future.is_done():
                        bad('wait-result', f'{w.kind} gave a pending member')
                    if w.kind.startswith('exception') and not (matches(w.kind, m) or ambiguous(m)):
                        bad('wait-result', f'{w.kind} gave {value!r}')
            w.value = value

    def check_waits(where):
        for w in waits:
            if w.waiter.is_cancelled():
                continue
            done = w.waiter.is_done()
            if w.expect == ('maybe',):
                if not done and not in_pending():
                    bad('wait-missed', f'{where}: {w.kind}')
                w.expect = ('any',) if done else None
                continue
            if done != (w.expect is not None):
                if w.expect is not None:
                    bad('wait-missed', f'{where}: {w.kind} n={w.n} should have ended: {w.expect}')
                bad('wait-early', f'{where}: {w.kind} n={w.n} ended with {w.waiter!r}')
            if done and w.expect[0] == 'one-of' and not any(m.future is w.value for m in w.expect[1]):
                bad('wait-result', f'{where}: {w.kind} gave {w.value!r}, expected one of {[m.future for m in w.expect[1]]}')
            if done and w.expect[0] == 'none' and w.kind != 'all' and w.value is not None:
                bad('wait-result', f'{where}: {w.kind} gave {w.value!r}, expected None')
            if done and w.expect[0] == 'count' and w.value != w.count:
                bad('wait-result', f'{where}: first_n({w.n}) gave {w.value}, expected {w.count}')

    def complete(m, how):
        serial[0] += 1
        if how == 'result':
            m.source.set_result_if_pending(serial[0])
        elif how == 'raise':
            m.source.set_exception_if_pending(Marker(serial[0]))
        else:
            m.future.cancel()

    async def exhauster():
        async for future in group.exhaust():
            out(future, 'exhaust')

    check('start')
    for number, op in enumerate(plan['ops']):
        kind = op['op']
        sim.log(kind, op.get('kind'), op.get('i'))
        where = f'after operation {number} {op}'
        completed = None
        if kind == 'add':
            how = op['kind']
            if how == 'again':
                # a member popped by a wait, but not looked at yet, would start over
                collect()
                if members:
                    m = members[op['i'] % len(members)]
                    if not m.outs:
                        group.add_future(m.future)
            else:
                source = Future(loop)
                if how == 'create_future':
                    future = source = group.create_future()
                elif how == 'create_task':
                    future = group.create_task(pass_on(source))
                elif how == 'task':
                    future = Task(loop, pass_on(source))
                    group.add_task(future)
                elif how == 'awaitable':
                    future = group.add_awaitable(pass_on(source))
                else:
                    future = source
                    if how == 'done':
                        source.set_result(None)
                m = Member(future, source)
                members.append(m)
                if how == 'done':
                    completed = m
                if how in ('future', 'done'):
                    group.add_future(future)
        elif kind == 'complete':
            pending = [m for m in members if not m.future.is_done()]
            if pending:
                m = pending[op['i'] % len(pending)]
                complete(m, op['how'])
                if strict:
                    await settle()
                completed = m
        elif kind == 'wait':
            name = op['kind']
            if name == 'first_n':
                waiter = group.wait_first_n(op['n'])
            else:
                waiter = getattr(group, 'wait_' + name)()
            w = Wait(name, waiter, op['n'])
            if strict:
                model_wait(w)
            waits.append(w)
        elif kind == 'cancel_wait':
            if waits:
                w = waits[op['i'] % len(waits)]
                if w.waiter.cancel():
                    sim.fault('cancel_wait')
                    w.expect = ('cancelled',)
        elif kind == 'pop':
            future = group.pop_done()
            if future is not None:
                out(future, 'pop_done')
            elif strict and in_done():
                bad('pop-missed', where)
        elif kind == 'exhaust_done':
            for future in group.exhaust_done():
                out(future, 'exhaust_done')
        elif kind == 'exhaust':
            if strict:
                # alone it gives everything done
                pass
            else:
                state['exhausts'].append(Task(loop, exhauster()))
        elif kind in ('cancel_all', 'cancel_pending', 'cancel_done'):
            if not strict:
                getattr(group, kind)()
                if kind != 'cancel_done':
                    await settle()
                    left = [m.future for m in members if not m.future.is_done()]
                    if left:
                        bad('not-cancelled', f'{where}: {left}')
            elif kind == 'cancel_done':
                group.cancel_done()
        elif kind == 'context':
            if not strict or not in_pending():
                try:
                    with group.cancel_on_exception():
                        if op['raise']:
                            raise Marker('context')
                except Marker:
                    pass
                if op['raise']:
                    await settle()
                    left = [m.future for m in members if not m.future.is_done()]
                    if left:
                        bad('not-cancelled', f'{where}: {left}')
        if op['settle']:
            await settle()
            if strict and completed is not None:
                model_completion(completed)
            collect()
            check(where)
            if strict:
                check_waits(where)
    # everything completes
    for m in members:
        if not m.future.is_done():
            complete(m, ('result', 'raise', 'cancel')[members.index(m) % 3])
    await sleep(0.1, loop)
    await settle()
    collect()
    check('end')
    for w in waits:
        if not w.waiter.is_done() and w.kind not in ('next', 'first_n'):
            bad('wait-missed', f'end: {w.kind} still pending, nothing is')
    for t in state['exhausts']:
        if not t.is_done():
            bad('exhaust-stuck', repr(t))
        t.get_result()
    if state['exhausts']:
        pass
    for _ in range(len(members) + 1):
        future = group.pop_done()
        if future is None:
            break
        out(future, 'end')
    missing = [m.future for m in members if m.outs != 1]
    if missing:
        bad('lost', f'never handed out: {missing}')
    for m in members:
        if not m.future.is_cancelled():
            m.future.get_exception()


def run(plan, sim):
    run_async(sim, main, sim, plan, check_errors=False)
    no_errors(sim, allow=(CancelledError, Marker))
