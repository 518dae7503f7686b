"""
Campaign runner: seeded runs over worker processes, minimisation, replay files, evidence.
"""
import os, sys, json, time, gc, random, traceback, importlib, signal, faulthandler, hashlib, select, itertools
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(VERIF, 'replays')

from . import sim as S
from . import seams

seams.install()

from .sim import Violation, HarnessError, SimStop, SimDeadlock, SimHorizon, SimLivelock

import threading

CPU_LIMIT = 40.0


def load(prop_id):
    return importlib.import_module(f'dst.props.{prop_id.lower()}')


class Result:
    __slots__ = ('kind', 'detail', 'digest', 'faults', 'probes', 'sim_time', 'steps', 'switches', 'trace', 'stuck',
                 'nontrivial', 'lines')

    def as_dict(self):
        return {name: getattr(self, name) for name in self.__slots__}


def execute(module, plan, seed, record=False):
    """
    One simulated run.  Returns a `Result`; `kind` is None when the property held.
    """
    params = dict(plan.get('params', {}))
    sim = S.Sim(seed, params, record)
    from . import net
    sim.net = net.Net(sim)
    result = Result()
    result.kind = None
    result.detail = ''
    result.trace = None
    gc.disable()
    S.SIM = sim
    sim.attach_driver()
    reset_globals()
    if params.get('preempt'):
        seams.install_preemption()
    kind = None
    detail = ''
    try:
        try:
            module.run(plan, sim)
        finally:
            sim_exception = sim.event_exception
        if sim_exception is not None:
            raise sim_exception
    except Violation as exception:
        kind = exception.kind
        detail = exception.detail
    except SimStop as exception:
        kind = exception.kind
        detail = str(exception)
        handler = getattr(module, 'on_stop', None)
        if handler is not None:
            verdict = handler(plan, sim, exception)
            if verdict is False:
                kind = None
    except HarnessError as exception:
        kind = '!harness'
        detail = traceback.format_exc()
    except BaseException as exception:
        if isinstance(exception, KeyboardInterrupt):
            raise
        from . import world
        exception = world.unexpected(exception, traceback.format_exc())
        kind = getattr(exception, 'kind', '!harness')
        detail = str(getattr(exception, 'detail', exception))
    if kind is not None and sim.errors:
        for exc, where in sim.errors[:3]:
            detail = str(detail) + '\nreported: ' + where[:300] + '\n' + ''.join(traceback.format_exception(exc))[-2500:]
    sim.finished = True
    stuck = [t for t in sim.threads[1:] if t.state != S.DONE]
    result.stuck = len(stuck)
    result.kind = kind
    result.detail = str(detail)
    if kind is not None and sim.thread_errors:
        result.detail += f'\nthreads died with: {sim.thread_errors}'
    sim.log('end', kind)
    result.digest = sim.digest()
    result.faults = dict(sim.faults)
    result.probes = dict(sim.probes)
    result.sim_time = sim.now - sim.start
    result.steps = sim.steps
    result.switches = sim.switches
    result.lines = sim.log_lines
    result.trace = sim.trace if record else None
    result.nontrivial = bool(sim.probes.get('nontrivial', 1)) if 'nontrivial' in sim.probes else sim.log_lines > 4
    S.SIM = None
    seams.QUIET.data.clear()
    gc.enable()
    return result


def reset_globals():
    """Module level counters of the code under test start every run from the same value."""
    module = sys.modules.get('scarletio.dns_query.requests')
    if module is not None and hasattr(module, 'COUNTER'):
        module.COUNTER = iter(itertools.count(0))
    threading._counter = itertools.count(1).__next__


# ---- worker processes ------------------------------------------------------------------------------------------

def hang_handler(signum, frame):
    faulthandler.dump_traceback(file=sys.__stderr__)
    os._exit(99)


def arm(seconds):
    signal.setitimer(signal.ITIMER_PROF, seconds)


def worker_loop(module, jobs, fd, record):
    """Runs `jobs`: list of (index, seed, plan or None). Writes one json line for each result."""
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    devnull = os.open(os.devnull, os.O_RDWR)
    if not os.environ.get('DST_DEBUG'):
        sys.stderr = seams.QUIET
        os.dup2(devnull, 2)
    signal.signal(signal.SIGPROF, signal.SIG_DFL)
    count = 0
    for index, seed, plan in jobs:
        os_write_all(fd, b'S%d\n' % index)
        arm(CPU_LIMIT)
        if plan is None:
            plan = make_plan(module, seed)
        result = execute(module, plan, seed, record)
        arm(0)
        data = result.as_dict()
        data['index'] = index
        data['seed'] = seed
        os_write_all(fd, b'R' + json.dumps(data).encode() + b'\n')
        if result.stuck:
            os._exit(3)
        count += 1
        if count % 16 == 0:
            gc.collect()
    os._exit(0)


def os_write_all(fd, data):
    while data:
        n = os.write(fd, data)
        data = data[n:]


def make_plan(module, seed):
    rng = random.Random(f'plan:{module.__name__.rsplit(".", 1)[1]}:{seed}')
    # round trip, so that a replayed plan is exactly what was run
    return json.loads(json.dumps(module.gen(rng)))


class Worker:
    def __init__(self, module, jobs, record=False):
        self.jobs = jobs
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                worker_loop(module, jobs, w, record)
            except BaseException:
                traceback.print_exc(file=sys.__stderr__)
                os._exit(4)
        os.close(w)
        self.pid = pid
        self.fd = r
        self.buffer = b''
        self.started = None
        self.done = 0
        self.status = None
        self.silence = seams.real_monotonic()

    def read(self):
        data = os.read(self.fd, 1 << 16)
        self.silence = seams.real_monotonic()
        if not data:
            _, status = os.waitpid(self.pid, 0)
            self.status = status
            os.close(self.fd)
            return None
        self.buffer += data
        lines = self.buffer.split(b'\n')
        self.buffer = lines.pop()
        results = []
        for line in lines:
            if line[:1] == b'S':
                self.started = int(line[1:])
            elif line[:1] == b'R':
                results.append(json.loads(line[1:]))
                self.done += 1
                self.started = None
        return results

    def kill(self):
        try:
            os.kill(self.pid, signal.SIGKILL)
            os.waitpid(self.pid, 0)
        except OSError:
            pass
        try:
            os.close(self.fd)
        except OSError:
            pass


def run_jobs(module, jobs, workers, on_result, wall_limit, record=False, chunk=None):
    """
    Executes jobs over `workers` forked processes. `on_result(dict)` -> True stops. Returns number of completed runs.
    """
    start = seams.real_monotonic()
    queue = list(jobs)
    queue.reverse()
    if chunk is None:
        chunk = max(1, min(200, len(jobs) // (workers * 4) or 1))
    active = {}
    completed = 0
    stop = False

    def spawn():
        part = []
        while queue and len(part) < chunk:
            part.append(queue.pop())
        if part:
            worker = Worker(module, part, record)
            active[worker.fd] = worker

    while len(active) < workers and queue:
        spawn()

    while active:
        ready, _, _ = select.select(list(active), [], [], 1.0)
        for fd in ready:
            worker = active[fd]
            results = worker.read()
            if results is None:
                del active[fd]
                remaining = worker.jobs[worker.done:]
                if worker.started is not None:
                    # died inside a run
                    index, seed, plan = remaining[0]
                    remaining = remaining[1:]
                    kind = 'hang' if os.WIFSIGNALED(worker.status) and os.WTERMSIG(worker.status) == signal.SIGPROF \
                        else '!crash'
                    if kind == '!crash' and os.WIFSIGNALED(worker.status):
                        kind = '!crash-signal-%d' % os.WTERMSIG(worker.status)
                    completed += 1
                    if on_result({
                        'index': index, 'seed': seed, 'kind': kind, 'detail': f'worker status {worker.status}',
                        'digest': '', 'faults': {}, 'probes': {}, 'sim_time': 0.0, 'steps': 0, 'switches': 0,
                        'trace': None, 'stuck': 0, 'nontrivial': False, 'lines': 0,
                    }):
                        stop = True
                queue.extend(reversed(remaining))
                if not stop and queue:
                    spawn()
                continue
            for result in results:
                completed += 1
                if on_result(result):
                    stop = True
        now = seams.real_monotonic()
        for worker in list(active.values()):
            if now - worker.silence > 120.0:
                # neither progress nor cpu use
                try:
                    os.kill(worker.pid, signal.SIGKILL)
                except OSError:
                    pass
        if stop or now - start > wall_limit:
            for worker in active.values():
                worker.kill()
            break
    return completed


def run_one(module, plan, seed, record=False, wall=120.0):
    box = []
    run_jobs(module, [(0, seed, plan)], 1, lambda r: box.append(r), wall, record)
    if not box:
        return {'kind': '!timeout', 'detail': '', 'digest': '', 'trace': None}
    return box[0]


# ---- minimisation ----------------------------------------------------------------------------------------------

def _lists(node, path=()):
    if isinstance(node, list):
        yield path, node
        for i, value in enumerate(node):
            yield from _lists(value, path + (i,))
    elif isinstance(node, dict):
        for key, value in node.items():
            yield from _lists(value, path + (key,))


def _get(node, path):
    for p in path:
        node = node[p]
    return node


def _clone(node):
    return json.loads(json.dumps(node))


def candidates(plan):
    """Simpler plans, the boldest first."""
    lists = [(path, len(node)) for path, node in _lists(plan) if node]
    lists.sort(key=lambda x: (len(x[0]), -x[1]))
    for path, length in lists:
        if path and path[0] == 'fixed':
            continue
        size = length
        while size >= 1:
            for start in range(0, length, size):
                if size == length and length == 1 and len(path) > 3:
                    pass
                clone = _clone(plan)
                target = _get(clone, path)
                del target[start:start + size]
                yield clone
            size //= 2
    # fault parameters off
    params = plan.get('params', {})
    for key in list(params):
        clone = _clone(plan)
        del clone['params'][key]
        yield clone

    # numbers
    def numbers(node, path=()):
        if isinstance(node, bool):
            return
        if isinstance(node, int) and node > 1:
            yield path, node
        elif isinstance(node, list):
            for i, v in enumerate(node):
                yield from numbers(v, path + (i,))
        elif isinstance(node, dict):
            for k, v in node.items():
                if path == () and k == 'fixed':
                    continue
                yield from numbers(v, path + (k,))

    for path, value in list(numbers({k: v for k, v in plan.items() if k != 'params'})):
        for smaller in (0, 1, value // 2, value - 1):
            if smaller < value:
                clone = _clone(plan)
                _get(clone, path[:-1])[path[-1]] = smaller
                yield clone


def minimise(module, plan, seed, kind, budget=60.0, workers=8):
    start = seams.real_monotonic()
    best = plan
    tried = 0
    progress = True
    while progress and seams.real_monotonic() - start < budget:
        progress = False
        batch = []
        generator = candidates(best)
        while True:
            batch = list(itertools.islice(generator, workers * 4))
            if not batch or seams.real_monotonic() - start > budget:
                break
            valid = getattr(module, 'valid', None)
            if valid is not None:
                batch = [p for p in batch if _safe_valid(valid, p)]
            found = {}

            def on_result(result):
                if result['kind'] == kind:
                    found[result['index']] = result
                return False

            jobs = [(i, seed, p) for i, p in enumerate(batch)]
            tried += len(jobs)
            if jobs:
                run_jobs(module, jobs, workers, on_result, 60.0, chunk=4)
            if found:
                best = batch[min(found)]
                progress = True
                break
    return best, tried


def _safe_valid(valid, plan):
    try:
        return bool(valid(plan))
    except Exception:
        return False


# ---- known findings --------------------------------------------------------------------------------------------

def known_findings(prop_id):
    path = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(path):
        with open(path) as file:
            for line in file:
                line = line.strip()
                if line and not line.startswith('#'):
                    entry = json.loads(line)
                    if entry.get('property') == prop_id and entry.get('status') == 'known':
                        out.append(entry)
    return out


# ---- campaign --------------------------------------------------------------------------------------------------

def seed_of(base, prop_id, index):
    text = f'{base}:{prop_id}:{index}'.encode()
    return int.from_bytes(hashlib.blake2b(text, digest_size=7).digest(), 'big')


def campaign(prop_id, tier, base_seed, runs=None, wall=None, workers=None, verbose=False):
    module = load(prop_id)
    start = seams.real_monotonic()
    budget = module.BUDGET
    total = runs if runs is not None else budget[tier]
    workers = workers or min(8, os.cpu_count() or 1)
    if wall is None:
        wall = 150.0 if tier == 'quick' else 3000.0

    print(f'property {prop_id}: tier {tier}, VERIF_SEED {base_seed}, {total} simulated runs, {workers} workers',
          flush=True)

    faults = Counter()
    probes = Counter()
    kinds = Counter()
    digests = set()
    state = {'sim_time': 0.0, 'steps': 0, 'switches': 0, 'runs': 0, 'nontrivial': 0, 'lines': 0}
    failures = []
    harness = []
    sample_digests = {}

    def on_result(result):
        state['runs'] += 1
        state['sim_time'] += result['sim_time']
        state['steps'] += result['steps']
        state['switches'] += result['switches']
        state['lines'] += result['lines']
        faults.update(result['faults'])
        probes.update(result['probes'])
        if len(sample_digests) < 64 and result['digest']:
            sample_digests[result['index']] = result['digest']
        kind = result['kind']
        if kind is None:
            if result['nontrivial'] and result['digest'] not in digests:
                digests.add(result['digest'])
            return False
        kinds[kind] += 1
        if kind.startswith('!'):
            harness.append(result)
            return len(harness) >= 3
        failures.append(result)
        distinct = len({f['kind'] for f in failures})
        return len(failures) >= 24 or (len(failures) >= 6 and distinct >= 1)

    jobs = [(i, seed_of(base_seed, prop_id, i), None) for i in range(total)]
    # fixed scenarios first: plans which once failed (regressions) or hit rare states
    for i, plan in enumerate(getattr(module, 'SCENARIOS', ())):
        jobs.insert(0, (total + i, seed_of(base_seed, prop_id, total + i), _clone(plan)))
    run_jobs(module, jobs, workers, on_result, wall)

    # determinism self check: the same seeds again, other process layout, other worker count
    mismatches = []
    rerun = []
    recheck = [i for i in sorted(sample_digests) if i < total][:32 if tier == 'quick' else 64]

    def on_rerun(result):
        rerun.append(result['index'])
        if result['digest'] != sample_digests[result['index']]:
            mismatches.append(result['index'])
        return False

    if not failures and not harness:
        run_jobs(module, [(i, seed_of(base_seed, prop_id, i), None) for i in recheck], 3, on_rerun, 60.0, chunk=5)

    exit_code = 0
    violations = 0
    known_hit = Counter()
    unreproduced = 0
    reported = []
    known = known_findings(prop_id)

    if failures:
        plan_of = {job[0]: job[2] for job in jobs}
        done_kinds = set()
        for failure in sorted(failures, key=lambda f: (f['kind'], f['index'])):
            if failure['kind'] in done_kinds or len(done_kinds) >= 3:
                continue
            done_kinds.add(failure['kind'])
            plan = plan_of.get(failure['index'])
            if plan is None:
                plan = make_plan(module, failure['seed'])
            seed = failure['seed']
            # confirm in another process
            again = run_one(module, plan, seed)
            if again['kind'] != failure['kind']:
                again = run_one(module, plan, seed)
                if again['kind'] != failure['kind']:
                    unreproduced += 1
                    print(f'note: a {failure["kind"]} of seed {seed} did not reproduce (got {again["kind"]})')
                    continue
            small, tried = minimise(module, plan, seed, failure['kind'],
                                    budget=45.0 if tier == 'quick' else 120.0, workers=workers)
            final = run_one(module, small, seed, record=True)
            if final['kind'] != failure['kind']:
                small = plan
                final = run_one(module, small, seed, record=True)
            os.makedirs(REPLAYS, exist_ok=True)
            name = f'{prop_id}-{failure["kind"].replace("/", "_").replace(" ", "_")}-{seed:x}.json'
            path = os.path.join(REPLAYS, name)
            with open(path, 'w') as file:
                json.dump({
                    'property': prop_id, 'seed': seed, 'plan': small, 'kind': final['kind'],
                    'detail': final['detail'], 'digest': final['digest'], 'minimiser_runs': tried,
                    'original_plan': plan, 'trace': (final['trace'] or [])[-400:],
                }, file, indent=1)
            entry = match_known(module, known, final, small)
            if entry is not None:
                known_hit[entry['id']] += 1
                continue
            fresh = replay_in_fresh_process(prop_id, path)
            if fresh != 1:
                unreproduced += 1
                print(f'note: {path} did not replay in a fresh process (exit {fresh})')
                continue
            violations += 1
            reported.append(path)
            exit_code = 1
            print(f'violation kind: {final["kind"]}: {str(final["detail"])[:1500]}')
            print(f'VIOLATION property={prop_id} replay={path}', flush=True)

    if harness and exit_code == 0:
        for result in harness[:2]:
            print(f'HARNESS ERROR seed={result["seed"]} {result["kind"]}\n{result["detail"]}')
        exit_code = 3

    for entry in known:
        # a known finding is shown by replaying its minimal input, every time
        still = True
        if 'plan' in entry:
            res = run_one(module, entry['plan'], entry.get('seed', 1))
            still = res['kind'] == entry['kind']
        if still:
            print(f'KNOWN-FINDING: property={prop_id} {entry["what"]}')

    wall_s = seams.real_monotonic() - start
    samples = []
    for i in range(3):
        samples.append({'seed': seed_of(base_seed, prop_id, i),
                        'plan': make_plan(module, seed_of(base_seed, prop_id, i))})
    text = json.dumps(samples)
    if len(text) > 20000:
        samples = samples[:1]
    coverage = {
        'evaluations': state['runs'],
        'distinct_nontrivial': len(digests),
        'rule': getattr(module, 'RULE', 'One evaluation is one seeded simulated run.') +
            ' Distinct: by the hash of the full event log (scheduling, network and workload events).',
        'samples': samples,
        'runs_per_hour': int(state['runs'] / max(wall_s, 1e-6) * 3600),
        'simulated_seconds': round(state['sim_time'], 3),
        'scheduler_steps': state['steps'],
        'thread_switches': state['switches'],
        'logged_events': state['lines'],
        'faults_injected': dict(sorted(faults.items())),
        'probes': dict(sorted(probes.items())),
        'determinism_rechecked_runs': len(rerun),
        'determinism_mismatches': len(mismatches),
        'unreproduced_failures': unreproduced,
        'known_findings_hit': dict(known_hit),
        'real_components': getattr(module, 'REAL', 'scarletio from the working tree'),
        'stubbed_components': getattr(module, 'STUBS',
            'clock, thread scheduler, sockets / pipes / epoll / child processes, PRNG, exception reporter'),
    }
    evidence = {
        'property': prop_id, 'tier': tier, 'seed': base_seed, 'level': 'exploration', 'coverage': coverage,
        'assumptions': getattr(module, 'ASSUMPTIONS', []), 'wall_s': round(wall_s, 3), 'violations': violations,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{prop_id}.json'), 'w') as file:
        json.dump(evidence, file, indent=1)
    print(f'{state["runs"]} runs, {len(digests)} distinct, {wall_s:.1f} s, simulated {state["sim_time"]:.0f} s, '
          f'faults {sum(faults.values())}, mismatches {len(mismatches)}, kinds {dict(kinds)}')
    if verbose:
        print('faults', dict(sorted(faults.items())))
        print('probes', dict(sorted(probes.items())))
    if mismatches and exit_code == 0:
        print('note: determinism self check mismatch for run indexes', mismatches[:10])
    return exit_code


def match_known(module, known, final, plan):
    for entry in known:
        if entry['kind'] != final['kind']:
            continue
        matcher = getattr(module, 'matches_known', None)
        if matcher is not None:
            if matcher(entry, final, plan):
                return entry
    return None


def replay_in_fresh_process(prop_id, path):
    import multiprocessing  # noqa
    argv = [sys.executable, os.path.join(VERIF, 'check'), prop_id, '--replay', path]
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.dup2(w, 1)
        os.execv(sys.executable, argv)
    os.close(w)
    data = b''
    while True:
        part = os.read(r, 65536)
        if not part:
            break
        data += part
    os.close(r)
    _, status = os.waitpid(pid, 0)
    return os.waitstatus_to_exitcode(status)


def replay(prop_id, path, verbose=False):
    module = load(prop_id)
    with open(path) as file:
        data = json.load(file)
    result = run_one(module, data['plan'], data['seed'], record=True)
    if verbose:
        for line in result['trace'] or ():
            print(line)
    print(f'kind: {result["kind"]}')
    print(f'detail: {result["detail"]}')
    print(f'digest: {result["digest"]} (recorded {data["digest"]})')
    if result['kind'] == data['kind']:
        print(f'VIOLATION property={prop_id} replay={path}')
        return 1
    if result['kind'] is None:
        return 0
    return 1 if not result['kind'].startswith('!') else 3


def main(argv):
    import argparse
    parser = argparse.ArgumentParser()
    parser.add_argument('property')
    parser.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    parser.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    parser.add_argument('--runs', type=int)
    parser.add_argument('--wall', type=float)
    parser.add_argument('--workers', type=int)
    parser.add_argument('--replay')
    parser.add_argument('--one', type=int, help='run the plan of one seed and show its trace')
    parser.add_argument('-v', action='store_true')
    options = parser.parse_args(argv)
    if options.property == 'selftest':
        module = load('C02')
        for i in range(20):
            seed = seed_of(1, 'selftest', i)
            first = run_one(module, make_plan(module, seed), seed)
            second = run_one(module, make_plan(module, seed), seed)
            if first['digest'] != second['digest']:
                print('note: not deterministic', seed)
        print('selftest done')
        return 0
    if options.replay:
        return replay(options.property, options.replay, options.v)
    if options.one is not None:
        module = load(options.property)
        plan = make_plan(module, options.one)
        print(json.dumps(plan))
        result = execute(module, plan, options.one, True)
        for line in result.trace:
            print(line)
        print(result.kind, result.detail)
        return 0
    return campaign(options.property, options.tier, options.seed, options.runs, options.wall, options.workers,
                    options.v)
