"""Events."""
from ..world import *
from scarletio import Event

BUDGET = {'quick': 20000, 'thorough': 400000}
RULE = ('One evaluation is one seeded program: tasks waiting (also repeatedly) on up to two events, set / clear / '
        'cancellations / timeouts in any order, several in one loop cycle.')


def gen(rng):
    n = rng.randint(1, 6)
    n_event = rng.randint(1, 2)
    waiters = [{'e': rng.randrange(n_event), 'rounds': rng.randint(1, 4), 'start': rng.randint(0, 6),
                'how': rng.choice(['await', 'wait', 'await']), 'swallow': rng.random() < 0.6,
                'timeout': rng.choice([None, None, 0.01, 0.02, 0.0]),
                'then': rng.choice([None, None, 'set', 'clear'])} for _ in range(n)]
    ops = []
    for _ in range(rng.randint(1, 14)):
        r = rng.random()
        op = {'op': 'set' if r < 0.4 else 'clear' if r < 0.65 else 'cancel', 'e': rng.randrange(n_event),
              't': rng.randrange(n), 'gap': rng.choice([None, None, 'skip', 'skip', 0.0, 0.01, 0.005])}
        ops.append(op)
    return {'params': swarm(rng, late=[None, 0.3], late_max=[0.01]), 'n': n_event, 'waiters': waiters, 'ops': ops}


def valid(plan):
    return all(w['e'] < plan['n'] for w in plan['waiters']) and all(
        o['e'] < plan['n'] and o['t'] < max(1, len(plan['waiters'])) for o in plan['ops'])


class Model:
    def __init__(self, event):
        self.event = event
        self.value = False
        self.sets = 0
        self.waiting = {}       # name -> True when released by a set


async def main(loop, sim, plan):
    models = [Model(Event(loop)) for _ in range(plan['n'])]
    state = {'bad': None}
    tasks = []

    def bad(kind, detail):
        if state['bad'] is None:
            state['bad'] = Violation(kind, detail)

    def do_set(m):
        m.value = True
        m.sets += 1
        for name in m.waiting:
            m.waiting[name] = True
        m.event.set()
        if not m.event.is_set():
            bad('value', 'not set after set()')

    def do_clear(m):
        m.value = False
        m.event.clear()
        if m.event.is_set():
            bad('value', 'set after clear()')

    async def one_wait(m, name, how):
        immediate = m.value
        if not immediate:
            m.waiting[name] = False
        released = False
        try:
            if how == 'await':
                await m.event
            else:
                await m.event.wait()
            released = True
        finally:
            flag = m.waiting.pop(name, None)
        sim.log('released', name)
        if not immediate and not flag:
            bad('released-early', f'{name}: the wait ended without the event being set')
        return immediate

    async def waiter(index, w):
        m = models[w['e']]
        for _ in range(w['start']):
            await skip_ready_cycle()
        for r in range(w['rounds']):
            name = f'w{index}.{r}'
            sim.log('wait', name)
            try:
                if w['timeout'] is None:
                    before = state.get('cycle')
                    await one_wait(m, name, w['how'])
                else:
                    t = Task(loop, one_wait(m, name, w['how']))
                    t.apply_timeout(w['timeout'])
                    await t
            except TimeoutError:
                sim.fault('timeout')
            except CancelledError:
                sim.fault('cancelled')
                if not w['swallow']:
                    raise
            else:
                if w['then'] == 'set':
                    do_set(m)
                elif w['then'] == 'clear':
                    do_clear(m)
            await skip_ready_cycle()

    for index, w in enumerate(plan['waiters']):
        tasks.append(Task(loop, waiter(index, w)))

    async def settle():
        for _ in range(6):
            await skip_ready_cycle()

    for op in plan['ops']:
        gap = op['gap']
        if gap == 'skip':
            await skip_ready_cycle()
        elif gap is not None:
            await sleep(gap, loop)
        m = models[op['e']]
        sim.log(op['op'], op['e'], op['t'])
        if op['op'] == 'set':
            do_set(m)
        elif op['op'] == 'clear':
            do_clear(m)
        elif tasks:
            tasks[op['t']].cancel()
        if m.event.is_set() != m.value:
            bad('value', f'is_set() is {m.event.is_set()}')
        # nobody released stays waiting for more than a few cycles
    await sleep(0.1, loop)
    for m in models:
        late = [name for name, flag in m.waiting.items() if flag]
        if late:
            raise Violation('missed-wakeup', f'{late} still wait although the event was set meanwhile')
        if m.value and m.waiting:
            raise Violation('missed-wakeup', f'{list(m.waiting)} wait on a set event')
    for _ in range(200):
        if all(t.is_done() for t in tasks):
            break
        for m in models:
            do_set(m)
        await sleep(0.05, loop)
    else:
        raise state['bad'] or Violation('missed-wakeup', f'{[repr(t) for t in tasks if not t.is_done()]}')
    if state['bad'] is not None:
        raise state['bad']


def run(plan, sim):
    run_async(sim, main, sim, plan, check_errors=False)
    no_errors(sim, allow=(CancelledError, TimeoutError))
