"""Timers and callbacks."""
from ..world import *

BUDGET = {'quick': 6000, 'thorough': 150000}
RULE = ('One evaluation is one seeded program of timers / callbacks on one event loop: operations and delays random, '
        'callbacks may schedule, cancel, raise and stall. Non-trivial: more than four logged events.')


def gen(rng):
    n = rng.randint(2, 14)
    delays = rng.choice(([0.0, 0.001, 0.01], [0.0, 1e-9, 5e-10, 2e-9, 1e-6], [0.1, 0.1, 0.2, 0.3, -1.0], [1.0, 2.0, 30.0, 600.0, 0.5]))
    ids = [0]

    def action(depth):
        ids[0] += 1
        r = rng.random()
        ident = ids[0]
        if r < 0.30:
            node = {'op': 'after', 'd': rng.choice(delays)}
        elif r < 0.42:
            node = {'op': 'at', 'd': rng.choice(delays)}
        elif r < 0.60:
            node = {'op': 'soon'}
        elif r < 0.68:
            node = {'op': 'weak', 'd': rng.choice(delays), 'method': rng.random() < 0.5}
        elif r < 0.72:
            return {'op': 'dropweak', 't': rng.randint(1, max(1, ids[0]))}
        elif r < 0.84:
            return {'op': 'cancel', 't': rng.randint(1, max(1, ids[0]))}
        elif r < 0.90:
            return {'op': 'sleep', 'd': rng.choice(delays), 'id': ident, 'cancel': rng.choice([None, rng.choice(delays)])}
        elif r < 0.95:
            return {'op': 'burn', 'd': rng.choice([0.0005, 0.01, 0.3])}
        else:
            return {'op': 'raise'}
        node['id'] = ident
        node['do'] = [action(depth + 1) for _ in range(rng.choice((0, 0, 1, 2)) if depth < 3 else 0)]
        return node

    steps = []
    for _ in range(n):
        steps.append({'wait': rng.choice([0.0, 0.0, 0.0, rng.choice(delays)]), 'do': action(0)})
    return {'params': swarm(rng, tick=[None, None, 1e-7, 1e-5], late=[None, None, 0.3], late_max=[0.05]), 'steps': steps}


class Target:
    def __init__(self, world, record, node):
        self.args = (world, record, node)

    def method(self, *args):
        self.args[0].fire(self.args[1], self.args[2])


class World:
    def __init__(self, sim, loop):
        self.sim = sim
        self.loop = loop
        self.records = []
        self.handles = {}
        self.soon_order = []
        self.order = 0
        self.burned = 0.0
        self.sleeps = []
        self.in_burst = None

    def schedule(self, node):
        sim, loop = self.sim, self.loop
        op = node['op']
        rec = {'id': node['id'], 'op': op, 'fired': 0, 'cancelled': False, 't_reg': sim.now, 'when': None, 'target': None,
               'reg_order': self.order}
        self.order += 1
        if op == 'soon':
            handle = loop.call_soon(self.fire, rec, node)
            rec['when'] = sim.now
            self.soon_order.append(rec)
        elif op == 'after':
            lo = sim.now + node['d']
            handle = loop.call_after(node['d'], self.fire, rec, node)
            rec['when'] = lo
        elif op == 'at':
            when = sim.now + node['d']
            handle = loop.call_at(when, self.fire, rec, node)
            rec['when'] = when
        else:
            target = Target(self, rec, node)
            rec['target'] = target
            when = sim.now + node['d']
            if node['method']:
                handle = loop.call_at_weak(when, target.method)
            else:
                function = lambda: self.fire(rec, node)
                rec['target'] = function
                handle = loop.call_after_weak(node['d'], function)
            rec['when'] = when
        if handle is None:
            raise Violation('not-scheduled', f'{op} returned no handle on a running loop')
        rec['handle'] = handle
        rec['t_reg_end'] = sim.now
        self.records.append(rec)
        self.handles[node['id']] = rec

    def fire(self, rec, node):
        sim = self.sim
        now = sim.now
        sim.log('fire', rec['id'])
        rec['fired'] += 1
        rec['t_fire'] = now
        rec['fire_order'] = self.order
        self.order += 1
        if rec['fired'] > 1:
            raise_later(self, 'fired-twice', rec)
        if rec['cancelled']:
            raise_later(self, 'fired-after-cancel', rec)
        if rec['op'] != 'soon' and now < rec['when'] - 2e-9:
            raise_later(self, 'fired-early', (rec['id'], now, rec['when']))
        rec['target'] = None if rec['op'] == 'weak' else rec['target']
        for sub in node['do']:
            self.do(sub)

    def do(self, node):
        sim = self.sim
        op = node['op']
        if op in ('after', 'at', 'soon', 'weak'):
            self.schedule(node)
        elif op == 'cancel':
            rec = self.handles.get(node['t'])
            if rec is not None:
                if not rec['fired']:
                    rec['cancelled'] = True
                    sim.probe('cancel_before_fire')
                rec['handle'].cancel()
        elif op == 'dropweak':
            rec = self.handles.get(node['t'])
            if rec is not None and rec['op'] == 'weak' and not rec['fired']:
                rec['target'] = None
                rec['cancelled'] = True
                sim.probe('weak_dropped')
        elif op == 'sleep':
            self.sleeps.append(Task(self.loop, self.sleeper(node)))
        elif op == 'burn':
            burn(sim, node['d'])
            self.burned += node['d']
        elif op == 'raise':
            sim.probe('callback_raises')
            raise Marker('callback')

    async def sleeper(self, node):
        sim = self.sim
        start = sim.now
        future = sleep(node['d'], self.loop)
        if node['cancel'] is not None:
            handle = self.loop.call_after(node['cancel'], future.cancel)
        try:
            await future
        except CancelledError:
            if node['cancel'] is None:
                raise_later(self, 'sleep-cancelled', node)
            if sim.now < start + node['cancel'] - 2e-9:
                raise_later(self, 'sleep-cancelled-early', node)
            return
        if sim.now < start + node['d'] - 2e-9:
            raise_later(self, 'sleep-early', (node, start, sim.now))


def raise_later(world, kind, detail):
    if getattr(world, 'violation', None) is None:
        world.violation = Violation(kind, detail if isinstance(detail, str) else repr(
            {k: v for k, v in detail.items() if k not in ('handle', 'target')} if isinstance(detail, dict) else detail))


async def main(loop, sim, plan):
    world = World(sim, loop)
    world.violation = None
    for step in plan['steps']:
        if step['wait']:
            await sleep(step['wait'], loop)
        try:
            world.do(step['do'])
        except Marker:
            pass
    # let everything become due
    while True:
        pending = [rec for rec in world.records if not rec['fired'] and not rec['cancelled']]
        if not pending:
            break
        limit = max(rec['when'] for rec in pending)
        await sleep(max(limit - sim.now, 0.0) + 0.01, loop)
        bound = 0.005 + sim.params.get('late_max', 0.05) * sim.faults['late_wakeup'] + world.burned + sim.tick * sim.steps
        for rec in world.records:
            if not rec['fired'] and not rec['cancelled'] and sim.now > rec['when'] + bound + 1.0:
                raise Violation('never-fired', repr((rec['id'], rec['op'], rec['when'], sim.now)))
    for task in world.sleeps:
        while task.is_pending():
            await sleep(1.0, loop)
    if world.violation is not None:
        raise world.violation
    slack = 0.0021 + sim.params.get('late_max', 0.05) * sim.faults['late_wakeup'] + world.burned + sim.tick * sim.steps * 2
    for rec in world.records:
        if rec['fired'] and rec['t_fire'] > max(rec['when'], rec['t_reg']) + slack:
            raise Violation('fired-late', repr((rec['id'], rec['op'], rec['when'], rec['t_fire'], slack)))
    fired = [rec for rec in world.records if rec['fired']]
    soon = [rec for rec in fired if rec['op'] == 'soon']
    for a, b in zip(soon, soon[1:]):
        if a['fire_order'] > b['fire_order']:
            raise Violation('call-soon-order', repr((a['id'], b['id'])))
    eps = 3e-9 + 3 * sim.tick
    timers = [rec for rec in fired if rec['op'] != 'soon']
    for a in timers:
        for b in timers:
            if a['when'] < b['when'] - eps and a['t_reg_end'] < b['when'] - eps and a['fire_order'] > b['fire_order']:
                if b['t_reg_end'] < a['t_fire']:
                    raise Violation('timer-order', repr((a['id'], a['when'], a['t_fire'], b['id'], b['when'], b['t_fire'])))


def run(plan, sim):
    run_async(sim, main, sim, plan, check_errors=False)
    no_errors(sim, (Marker,))
