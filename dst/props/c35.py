"""Weak collections."""
import gc
import operator
import weakref
from ..world import *
from scarletio import HybridValueDictionary, WeakItemDictionary, WeakKeyDictionary, WeakMap, WeakSet, WeakValueDictionary

BUDGET = {'quick': 40000, 'thorough': 600000}
RULE = ('One evaluation is a history of up to 60 operations over a weak set, map or key, value or item dictionary, or a hybrid value dictionary (which also keeps values that cannot be weakly referenced), and its copies: modifications, look-ups, comparisons, set operations with every kind of operand, '
        'and iterators which are open meanwhile, while the objects die at any point: between operations, while an iterator is open, in the middle of a representation or of an update, one by another. '
        'After each operation the content and the length must be those of the ordinary counterpart without the dead entries.')
ASSUMPTIONS = ['Which of two equal elements an ordinary set operation keeps is not compared.', 'The objects die by their last reference being dropped (and by garbage collection of cycles), in one thread.']
STUBS = []
TYPES = {'set': WeakSet, 'map': WeakMap, 'key': WeakKeyDictionary, 'value': WeakValueDictionary, 'item': WeakItemDictionary}
COMMON = ['kill', 'kill', 'kill', 'kill', 'new', 'new', 'copy', 'clear', 'repr', 'eq', 'open', 'open', 'next', 'next', 'next', 'next', 'close', 'contains', 'len', 'drop', 'update', 'cycle']
OPS = {
    'set': COMMON + ['add', 'add', 'add', 'add', 'discard', 'remove', 'pop', 'binary', 'binary', 'binary', 'inplace', 'inplace', 'inplace', 'compare', 'compare'],
    'map': COMMON + ['add', 'add', 'add', 'add', 'get', 'getitem', 'del', 'pop-key'],
    'key': COMMON + ['put', 'put', 'put', 'put', 'put', 'get', 'getitem', 'del', 'pop-key', 'popitem', 'setdefault', 'in-values', 'in-items'],
}
OPS['value'] = OPS['item'] = OPS['key']
BINARY = ['and', 'or', 'sub', 'xor', 'rand', 'ror', 'rsub', 'rxor', 'difference', 'intersection', 'union', 'symmetric_difference']
INPLACE = ['iand', 'ior', 'isub', 'ixor', 'difference_update', 'intersection_update', 'symmetric_difference_update']
COMPARE = ['le', 'lt', 'ge', 'gt', 'eq', 'ne', 'issubset', 'issuperset', 'isdisjoint']
OPERANDS = ['list', 'set', 'tuple', 'frozenset', 'generator', 'weak', 'weak', 'self']


def gen(rng):
    kind = rng.choice(list(TYPES))
    equal = rng.random() < 0.25
    pool = OPS[kind]
    if rng.random() < 0.4:
        pool = [rng.choice(pool) for _ in range(4)] + ['kill', 'kill', 'open', 'next', 'next', 'close'] + [OPS[kind][len(COMMON)]] * 3
    count = rng.choice([3, 5, 8])
    ops = []
    for _ in range(rng.choice([5, 10, 20, 40, 60])):
        op = {'kind': rng.choice(pool), 'c': rng.choice([0, 0, 0, 1, 2]), 'i': rng.randint(0, count), 'j': rng.randint(0, count), 'n': rng.randint(0, 5)}
        if op['kind'] in ('binary', 'inplace', 'compare', 'update', 'eq'):
            op['name'] = rng.choice({'binary': BINARY, 'inplace': INPLACE, 'compare': COMPARE, 'update': ['update'], 'eq': ['eq', 'ne']}[op['kind']])
            op['operand'] = rng.choice(OPERANDS)
            op['items'] = [rng.randint(0, count) for _ in range(rng.choice([0, 1, 2, 3, 5]))]
        if op['kind'] in ('repr', 'update') and rng.random() < 0.5:
            op['kills'] = [[rng.randint(0, 3), rng.randint(0, count)] for _ in range(rng.choice([1, 2]))]
        if op['kind'] == 'new':
            op['holds'] = rng.choice([None, None, None, rng.randint(0, count)])
        ops.append(op)
    return {'params': {}, 'kind': kind, 'hybrid': kind == 'value' and rng.random() < 0.5, 'equal': equal, 'hashless': rng.random() < 0.3, 'count': count, 'start': [rng.randint(0, count) for _ in range(rng.choice([0, 2, 4, 8]))], 'ops': ops}


def valid(plan):
    return plan['kind'] in TYPES and (plan['kind'] == 'value' or not plan.get('hybrid')) and plan['count'] > 0 and all(all(key in op for key in ('kind', 'c', 'i', 'j', 'n')) and all(len(kill) == 2 for kill in op.get('kills', ())) and (
        op['kind'] not in ('binary', 'inplace', 'compare', 'update', 'eq') or ('items' in op and 'operand' in op and 'name' in op)) for op in plan['ops'])


class Base:
    __slots__ = ()

    def __init__(self, world, index):
        self.world = world
        self.index = index
        self.holds = None

    def __repr__(self):
        self.world.represented()
        return f'T{self.index}'


class Thing(Base):
    __slots__ = ('__weakref__', 'index', 'holds', 'world')


class Plain(Base):
    pass


class Strong(Base):
    """Cannot be weakly referenced."""
    __slots__ = ('index', 'holds', 'world')


class Equal(Thing):
    """Equal to every other of the same value."""
    __slots__ = ()

    def __eq__(self, other):
        return isinstance(other, Equal) and self.index % 100 // 2 == other.index % 100 // 2

    def __hash__(self):
        return hash(self.index % 100 // 2)


class HashLess(Thing):
    __slots__ = ()
    __hash__ = None

    def __eq__(self, other):
        return self is other


class Entry:
    def __init__(self, key, value):
        self.key = key
        self.value = value

    def __repr__(self):
        return f'{self.key}:{self.value}'


class Box:
    def __init__(self, container, entries):
        self.container = container
        self.entries = entries
        self.iterators = []
        # a dead entry was put in again before it was removed, so it is at its old position
        self.shuffled = False


class Iterator:
    def __init__(self, iterator, what, box):
        self.iterator = iterator
        self.what = what
        self.left = list(box.entries)
        self.tainted = False


class World:
    """Objects are only known by their index, so nothing here keeps them alive."""

    def __init__(self, plan, sim):
        self.plan = plan
        self.sim = sim
        self.kind = plan['kind']
        self.live = {}
        self.probes = {}
        self.strong = set()
        self.serial = {}
        self.pending_kills = []
        self.cycles = []
        self.boxes = []
        self.trace = []

    # objects

    def make(self, slot, value=False):
        """The object living in the slot. -> index"""
        slot = (slot % (self.plan['count'] + 1)) + (50 if value else 0)
        if slot not in self.live:
            serial = self.serial[slot] = self.serial.get(slot, 0) + 1
            index = slot + serial * 100
            if value:
                cls = HashLess if self.plan['hashless'] else Thing
                if self.plan.get('hybrid') and slot % 3 == 0:
                    cls = Strong
            else:
                cls = Equal if self.plan['equal'] else Thing
            if cls is Thing and slot % 2:
                cls = Plain
            thing = cls(self, index)
            self.live[slot] = thing
            self.probes[index] = (lambda: True) if cls is Strong else weakref.ref(thing)
            if cls is Strong:
                self.strong.add(index)
            return index
        return self.live[slot].index

    def get(self, index):
        return self.live[index % 100]

    def alive(self, index):
        return self.probes[index]() is not None

    def kill(self, slot, value=False):
        slot = (slot % (self.plan['count'] + 1)) + (50 if value else 0)
        self.live.pop(slot, None)

    def represented(self):
        if self.pending_kills:
            delay, slot = self.pending_kills[0]
            if delay > 0:
                self.pending_kills[0] = [delay - 1, slot]
                return
            del self.pending_kills[0]
            self.kill(slot, self.kind in ('value', ) or (self.kind == 'item' and slot % 2 == 1))
            self.sim.fault('death-inside')

    # model

    def eqkey(self, key):
        if self.kind == 'value':
            return key
        if self.plan['equal']:
            return key % 100 // 2
        return key

    def entry_alive(self, entry):
        if self.kind != 'value' and not self.alive(entry.key):
            return False
        if self.kind in ('value', 'item') and not self.alive(entry.value):
            return False
        return True

    def purge(self, box):
        box.entries[:] = [entry for entry in box.entries if self.entry_alive(entry)]

    def find(self, box, key):
        self.purge(box)
        for entry in box.entries:
            if self.eqkey(entry.key) == self.eqkey(key):
                return entry
        return None

    def put(self, box, key, value):
        entry = self.find(box, key)
        if entry is None:
            if box.iterators and self.kind == 'item' and self.plan['equal']:
                # a dead entry with an equal key, which still lives, may have been there
                for real in box.container.keys():
                    if self.eqkey(real.index) == self.eqkey(key):
                        key = real.index
                real = None
            box.entries.append(Entry(key, value))
            if box.iterators:
                box.shuffled = True
            self.taint(box)
        else:
            entry.value = value
            if box.shuffled:
                # which one of the same values was seen is not known
                self.taint(box)

    def remove(self, box, entry):
        box.entries.remove(entry)
        self.taint(box)

    def taint(self, box):
        for iterator in box.iterators:
            iterator.tainted = True

    # real and model values

    def key_of(self, op, slot='i'):
        """-> (real key, model key)"""
        if self.kind == 'value':
            return op[slot], op[slot]
        index = self.make(op[slot])
        return self.get(index), index

    def value_of(self, op):
        if self.kind in ('value', 'item'):
            index = self.make(op['j'], True)
            return self.get(index), index
        value = [None, 0, 1, 'x', 2.5, ''][op['n']]
        return value, value

    def model_of(self, real, value=False):
        if isinstance(real, Base):
            return real.index
        return real

    def content(self, box):
        """What the container shows through its iterator."""
        container = box.container
        if self.kind in ('set', 'map'):
            return [(real.index, None) for real in container]
        return [(self.model_of(key), self.model_of(value)) for key, value in container.items()]

    def expected(self, box):
        self.purge(box)
        return [(entry.key, entry.value) for entry in box.entries]

    def fail(self, kind, detail):
        raise Violation(f'{self.kind}-{kind}', f'{detail}; {self.plan["kind"]} after {self.trace[-12:]}')

    def check(self, box, where):
        length = len(box.container)
        expected = self.expected(box)
        if length != len(expected):
            self.fail('length', f'{where}: length {length}, expected {expected}')
        got = self.content(box)
        if self.kind == 'set' or box.shuffled:
            got.sort(key = repr)
            expected.sort(key = repr)
        if got != expected:
            self.fail('content', f'{where}: got {got}, expected {expected}')
        if bool(box.container) != bool(expected):
            self.fail('bool', f'{where}: {expected}')


def run(plan, sim):
    gc.disable()
    try:
        world = World(plan, sim)
        run_history(world, plan)
    finally:
        gc.enable()
        gc.collect()


def run_history(world, plan):
    kind = plan['kind']
    box = Box(HybridValueDictionary() if plan.get('hybrid') else TYPES[kind](), [])
    world.boxes.append(box)
    for slot in plan['start']:
        step(world, {'kind': 'add' if kind in ('set', 'map') else 'put', 'c': 0, 'i': slot, 'j': slot, 'n': slot % 6})
    for op in plan['ops']:
        step(world, op)
    for box in world.boxes:
        for iterator in box.iterators:
            iterator.iterator.close()
        box.iterators.clear()
        world.check(box, 'at the end')
        if box.container._pending_removals:
            world.fail('pending', 'removals stay pending')
    # nothing else keeps the objects alive
    world.live.clear()
    world.pending_kills.clear()
    world.cycles.clear()
    gc.collect()
    for box in world.boxes:
        world.check(box, 'after all died')
    for index, probe in world.probes.items():
        if index not in world.strong and probe() is not None:
            world.fail('kept-alive', f'T{index}')


def step(world, op):
    box = world.boxes[op['c'] % len(world.boxes)]
    world.trace.append({key: value for key, value in op.items() if key not in ('kills',)} if len(op) > 5 else op)
    name = op['kind']
    label = op['c'] % len(world.boxes)
    try:
        result = globals()['op_' + name.replace('-', '_')](world, box, op)
    except Violation:
        raise
    except Exception as exception:
        import traceback
        world.fail('raised', f'{op}: {exception!r} {traceback.format_exc()[-600:]}')
    world.sim.log('op', name, repr(result))
    for other in world.boxes:
        world.check(other, f'after {op} of {label} in {world.boxes.index(other)}')


def attempt(function, *args):
    try:
        return ('ok', function(*args))
    except KeyError:
        return ('KeyError', None)


def same(world, op, got, expected):
    if got != expected:
        world.fail('result', f'{op}: got {got}, expected {expected}')
    return got


def op_kill(world, box, op):
    world.kill(op['i'], world.kind == 'value' or (world.kind == 'item' and op['n'] % 2 == 1))
    world.sim.fault('death')


def op_cycle(world, box, op):
    """Dies by garbage collection."""
    index = world.make(op['i'], world.kind == 'value')
    thing = world.get(index)
    thing.holds = thing
    del thing
    world.kill(op['i'], world.kind == 'value')
    gc.collect()
    world.sim.fault('death-by-gc')


def op_new(world, box, op):
    index = world.make(op['i'], world.kind == 'value')
    if op.get('holds') is not None:
        other = world.make(op['holds'], world.kind in ('value', 'item'))
        # what a dictionary keeps alive must not keep others alive
        if other != index and index not in world.strong and world.get(other).holds is None:
            # dies by the death of another
            world.get(index).holds = world.get(other)


def op_len(world, box, op):
    return same(world, op, len(box.container), len(world.expected(box)))


def op_drop(world, box, op):
    """A whole collection dies."""
    if len(world.boxes) > 1 and not box.iterators:
        world.boxes.remove(box)
        box.container = None


def op_add(world, box, op):
    key, model = world.key_of(op)
    entry = world.find(box, model)
    if world.kind == 'map':
        got = box.container.set(key)
        same(world, op, got.index, model if entry is None else entry.key)
        del got
    else:
        box.container.add(key)
    if entry is None:
        world.put(box, model, None)


def op_put(world, box, op):
    key, model = world.key_of(op)
    value, value_model = world.value_of(op)
    box.container[key] = value
    world.put(box, model, value_model)


def op_discard(world, box, op):
    key, model = world.key_of(op)
    entry = world.find(box, model)
    box.container.discard(key)
    if entry is not None:
        world.remove(box, entry)


def op_remove(world, box, op):
    key, model = world.key_of(op)
    entry = world.find(box, model)
    got = attempt(box.container.remove, key)
    same(world, op, got[0], 'KeyError' if entry is None else 'ok')
    if entry is not None:
        world.remove(box, entry)


def op_del(world, box, op):
    key, model = world.key_of(op)
    entry = world.find(box, model)
    got = attempt(operator.delitem, box.container, key)
    if entry is None and box.iterators and world.kind in ('value', 'item'):
        # an already dead entry may be still there for the time of the iteration
        world.taint(box)
        return
    same(world, op, got[0], 'KeyError' if entry is None else 'ok')
    if entry is not None:
        world.remove(box, entry)


def op_pop(world, box, op):
    world.purge(box)
    got, real = attempt(box.container.pop)
    world.taint(box)
    if got == 'KeyError':
        return same(world, op, [], [entry.key for entry in box.entries])
    for entry in box.entries:
        if entry.key == real.index:
            world.remove(box, entry)
            return entry.key
    world.fail('result', f'popped {real.index} of {box.entries}')


def shown(world, entry):
    return entry.key if world.kind == 'map' else entry.value


def op_get(world, box, op):
    key, model = world.key_of(op)
    entry = world.find(box, model)
    default = ['default', None][op['n'] % 2]
    got = box.container.get(key, default) if op['n'] % 3 else box.container.get(key)
    return same(world, op, world.model_of(got), (default if op['n'] % 3 else None) if entry is None else shown(world, entry))


def op_getitem(world, box, op):
    key, model = world.key_of(op)
    entry = world.find(box, model)
    got = attempt(operator.getitem, box.container, key)
    return same(world, op, (got[0], world.model_of(got[1])), ('KeyError', None) if entry is None else ('ok', shown(world, entry)))


def op_pop_key(world, box, op):
    key, model = world.key_of(op)
    entry = world.find(box, model)
    got = attempt(box.container.pop, key, *(() if op['n'] % 2 else ('default', )))
    if world.kind in ('value', 'item'):
        world.taint(box)
    result = same(world, op, (got[0], world.model_of(got[1])), (('KeyError', None) if op['n'] % 2 else ('ok', 'default')) if entry is None else ('ok', shown(world, entry)))
    if entry is not None:
        world.remove(box, entry)
    return result


def op_popitem(world, box, op):
    world.purge(box)
    got, real = attempt(box.container.popitem)
    world.taint(box)
    if got == 'KeyError':
        return same(world, op, [], box.entries)
    entry = box.entries[-1] if box.entries else None
    if box.shuffled:
        for entry in box.entries:
            if entry.key == world.model_of(real[0]):
                break
    same(world, op, (world.model_of(real[0]), world.model_of(real[1])), entry and (entry.key, entry.value))
    world.remove(box, entry)


def op_setdefault(world, box, op):
    key, model = world.key_of(op)
    value, value_model = world.value_of(op)
    entry = world.find(box, model)
    got = box.container.setdefault(key, value)
    result = same(world, op, world.model_of(got), value_model if entry is None else entry.value)
    if entry is None:
        world.put(box, model, value_model)
    return result


def op_contains(world, box, op):
    key, model = world.key_of(op)
    container = box.container
    if world.kind not in ('set', 'map') and op['n'] % 2:
        container = container.keys()
    return same(world, op, key in container, world.find(box, model) is not None)


def op_in_values(world, box, op):
    value, model = world.value_of(op)
    world.purge(box)
    return same(world, op, value in box.container.values(), any(entry.value == model for entry in box.entries))


def op_in_items(world, box, op):
    key, model = world.key_of(op)
    value, value_model = world.value_of(op)
    entry = world.find(box, model)
    return same(world, op, (key, value) in box.container.items(), entry is not None and entry.value == value_model)


def op_clear(world, box, op):
    world.purge(box)
    box.container.clear()
    if box.entries:
        world.taint(box)
    elif box.iterators:
        world.taint(box)
    box.entries.clear()


def op_copy(world, box, op):
    if len(world.boxes) >= 3:
        return
    world.purge(box)
    copy = box.container.copy()
    if type(copy) is not type(box.container):
        world.fail('copy', f'{type(copy)}')
    world.boxes.append(Box(copy, [Entry(entry.key, entry.value) for entry in box.entries]))
    world.boxes[-1].shuffled = box.shuffled


def op_repr(world, box, op):
    world.pending_kills[:] = [list(kill) for kill in op.get('kills', ())]
    before = world.expected(box)
    got = repr(box.container)
    world.pending_kills.clear()
    after = world.expected(box)
    head = f'{type(box.container).__name__}({{'
    if not (got.startswith(head) and got.endswith('})')):
        world.fail('repr', f'{got}')
    inner = got[len(head):-2]
    parts = inner.split(', ') if inner else []
    if world.kind in ('set', 'map'):
        known = {f'T{key}': (key, value) for key, value in before}
        needed = {f'T{key}' for key, value in after}
    else:
        def text(x, weak):
            return f'T{x}' if weak else repr(x)
        known = {f'{text(key, world.kind != "value")}: {text(value, world.kind != "key")}': None for key, value in before}
        needed = {f'{text(key, world.kind != "value")}: {text(value, world.kind != "key")}' for key, value in after}
    if len(set(parts)) != len(parts) or not needed <= set(parts) <= set(known):
        world.fail('repr', f'{got}; before {before}, after {after}')


# iterators

def op_open(world, box, op):
    if len(box.iterators) >= 3:
        return
    world.purge(box)
    what = 'keys'
    container = box.container
    if world.kind not in ('set', 'map'):
        what = ['keys', 'values', 'items', 'iter'][op['n'] % 4]
        if what != 'iter':
            container = getattr(container, what)()
        else:
            what = 'keys'
    iterator = Iterator(iter(container), what, box)
    box.iterators.append(iterator)
    advance(world, box, iterator, op)


def op_next(world, box, op):
    if box.iterators:
        advance(world, box, box.iterators[op['i'] % len(box.iterators)], op)


def op_close(world, box, op):
    if box.iterators:
        box.iterators.pop(op['i'] % len(box.iterators)).iterator.close()


def advance(world, box, iterator, op):
    iterator.left = [entry for entry in iterator.left if world.entry_alive(entry)]
    try:
        real = next(iterator.iterator)
    except StopIteration:
        real = None
        ended = True
    except RuntimeError:
        if not iterator.tainted:
            raise
        box.iterators.remove(iterator)
        return
    else:
        ended = False
    if iterator.tainted:
        # modified meanwhile, as with the ordinary counterpart anything goes
        box.iterators.remove(iterator)
        if not ended:
            iterator.iterator.close()
        return
    if ended:
        box.iterators.remove(iterator)
        left = [entry for entry in iterator.left if world.entry_alive(entry)]
        if left:
            world.fail('iterator-ended', f'{op}: {left} not seen')
        return
    world.sim.probe('iterated')
    if iterator.what == 'items':
        got = (world.model_of(real[0]), world.model_of(real[1]))
    else:
        got = world.model_of(real)
    real = None
    skipped = []
    for entry in iterator.left:
        candidate = entry.key if iterator.what == 'keys' else entry.value if iterator.what == 'values' else (entry.key, entry.value)
        if candidate == got and type(candidate) is type(got):
            break
        skipped.append(entry)
    else:
        world.fail('iterator', f'{op}: got {got}, left {iterator.left}')
    if world.kind == 'set' or box.shuffled:
        iterator.left.remove(entry)
    else:
        skipped = [entry for entry in skipped if world.entry_alive(entry)]
        if skipped:
            world.fail('iterator-skipped', f'{op}: got {got}, skipped {skipped}')
        iterator.left = iterator.left[iterator.left.index(entry) + 1:]


# operands

def operand_of(world, box, op):
    """-> (real operand, list of model entries)"""
    kind = op['operand']
    if kind == 'self':
        return box.container, world.purge(box) or list(box.entries)
    if kind == 'weak':
        other = world.boxes[op['n'] % len(world.boxes)]
        if other.shuffled and op['kind'] == 'update':
            box.shuffled = True
        return other.container, world.purge(other) or list(other.entries)
    if world.kind in ('set', 'map'):
        indexes = [world.make(slot) for slot in op['items']]
        reals = [world.get(index) for index in indexes]
        entries = [Entry(index, None) for index in indexes]
    else:
        reals = []
        entries = []
        for number, slot in enumerate(op['items']):
            item = {'i': slot, 'j': slot + number, 'n': number % 6}
            key, key_model = world.key_of(item)
            value, value_model = world.value_of(item)
            reals.append((key, value))
            entries.append(Entry(key_model, value_model))
    hashable = not (world.kind in ('value', 'item') and world.plan['hashless'])
    if kind == 'set' and hashable:
        return set(reals), entries
    if kind == 'frozenset' and hashable:
        return frozenset(reals), entries
    if kind == 'tuple':
        return tuple(reals), entries
    if kind == 'generator':
        return (real for real in reals), entries
    if kind in ('set', 'frozenset') and world.kind not in ('set', 'map'):
        result = {}
        for key, value in reals:
            result[key] = value
        return result, entries
    return reals, entries


def op_update(world, box, op):
    operand, entries = operand_of(world, box, op)
    if op['operand'] == 'generator' and world.kind in ('set', 'map') and op.get('kills'):
        # objects die while they are given
        operand = None
        for kill in op['kills']:
            world.pending_kills.append(list(kill))
        indexes = [entry.key for entry in entries]
        entries = []

        def give():
            for index in indexes:
                world.represented()
                if world.alive(index):
                    entries.append(Entry(index, None))
                    yield world.probes[index]()

        box.container.update(give())
        world.pending_kills.clear()
        # also what died meanwhile changed the size
        world.taint(box)
        # in the end as if it was added one by one
        for entry in entries:
            if world.alive(entry.key) and world.find(box, entry.key) is None:
                world.put(box, entry.key, None)
        if world.plan['equal']:
            box.shuffled = True
            if sorted(real.index for real in box.container) != sorted(entry.key for entry in box.entries):
                # which of the equal ones was there when the other died
                if {world.eqkey(real.index) for real in box.container} <= keys_of(world, box.entries):
                    box.entries[:] = [Entry(real.index, None) for real in box.container]
        return
    if op['operand'] in ('set', 'frozenset') and isinstance(operand, (set, frozenset)):
        if world.kind not in ('set', 'map') or world.plan['equal']:
            # without an order, which of two equal keys counts
            return
        # the order in which they come
        entries = [Entry(index, None) for index in [real.index for real in operand]]
    box.container.update(operand)
    operand = None
    for entry in entries:
        if world.kind in ('set', 'map'):
            if world.find(box, entry.key) is None:
                world.put(box, entry.key, None)
        else:
            world.put(box, entry.key, entry.value)


def op_eq(world, box, op):
    operand, entries = operand_of(world, box, op)
    if op['operand'] == 'generator' or world.kind in ('value', 'item') and world.plan['hashless']:
        return
    world.purge(box)
    if world.kind in ('set', 'map'):
        expected = {world.eqkey(entry.key) for entry in box.entries} == {world.eqkey(entry.key) for entry in entries}
    else:
        if isinstance(operand, (set, frozenset)) and len({world.eqkey(entry.key) for entry in entries}) != len(entries):
            return
        expected = {world.eqkey(entry.key): entry.value for entry in box.entries} == {world.eqkey(entry.key): entry.value for entry in entries}
    got = getattr(operator, op['name'])(box.container, operand)
    return same(world, op, got, expected if op['name'] == 'eq' else not expected)


def keys_of(world, entries):
    return {world.eqkey(entry.key) for entry in entries}


def op_binary(world, box, op):
    operand, entries = operand_of(world, box, op)
    world.purge(box)
    name = op['name']
    a = keys_of(world, box.entries)
    b = keys_of(world, entries)
    if name[0] == 'r':
        if isinstance(operand, WeakSet):
            name = name[1:]
        elif isinstance(operand, (set, frozenset)):
            # a plain set would compare with the references
            got = getattr(box.container, f'__{name}__')(operand)
            a, b = b, a
            name = name[1:]
            expected = {'and': operator.and_, 'or': operator.or_, 'sub': operator.sub, 'xor': operator.xor}[name](a, b)
            return compare_sets(world, op, got, expected)
        else:
            got = {'rand': operator.and_, 'ror': operator.or_, 'rsub': operator.sub, 'rxor': operator.xor}[name](operand, box.container)
            expected = {'rand': operator.and_, 'ror': operator.or_, 'rsub': operator.sub, 'rxor': operator.xor}[name](b, a)
            return compare_sets(world, op, got, expected)
    operation = {'and': operator.and_, 'or': operator.or_, 'sub': operator.sub, 'xor': operator.xor, 'difference': operator.sub, 'intersection': operator.and_, 'union': operator.or_, 'symmetric_difference': operator.xor}[name]
    if name in ('and', 'or', 'sub', 'xor'):
        got = operation(box.container, operand)
    else:
        got = getattr(box.container, name)(operand)
    return compare_sets(world, op, got, operation(a, b))


def compare_sets(world, op, got, expected):
    if not isinstance(got, WeakSet):
        world.fail('result', f'{op}: a {type(got).__name__}')
    found = [world.eqkey(real.index) for real in got]
    if len(found) != len(set(found)) or set(found) != expected or len(got) != len(expected):
        world.fail('result', f'{op}: got {found} of length {len(got)}, expected {expected}')


def op_inplace(world, box, op):
    name = op['name']
    operand, entries = operand_of(world, box, op)
    if world.plan['equal'] and name in ('ixor', 'symmetric_difference_update', 'ior') and not isinstance(operand, (list, tuple)):
        # which of two equal elements is kept
        if len(keys_of(world, entries)) != len(entries) or isinstance(operand, (set, frozenset)):
            return
    world.purge(box)
    a = keys_of(world, box.entries)
    b = keys_of(world, entries)
    if name[0] == 'i' and name[1:] in ('and', 'or', 'sub', 'xor'):
        got = getattr(operator, name)(box.container, operand)
        if got is not box.container:
            world.fail('result', f'{op}: not in place')
        got = None
        name = name[1:]
    else:
        getattr(box.container, name)(operand)
        name = {'difference_update': 'sub', 'intersection_update': 'and', 'symmetric_difference_update': 'xor'}[name]
    operand = None
    if name in ('sub', 'and', 'xor'):
        for entry in list(box.entries):
            if (world.eqkey(entry.key) in b) != (name == 'and'):
                world.remove(box, entry)
    if name in ('or', 'xor'):
        for entry in entries:
            if world.eqkey(entry.key) not in a and world.find(box, entry.key) is None:
                world.put(box, entry.key, None)


def op_compare(world, box, op):
    operand, entries = operand_of(world, box, op)
    world.purge(box)
    a = keys_of(world, box.entries)
    b = keys_of(world, entries)
    name = op['name']
    if name in ('issubset', 'issuperset', 'isdisjoint'):
        return same(world, op, getattr(box.container, name)(operand), getattr(a, name)(b))
    return same(world, op, getattr(operator, name)(box.container, operand), getattr(operator, name)(a, b))
