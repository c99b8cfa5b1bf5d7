"""Runs the simulated executions of one property on several worker processes."""
import json
import os
import select
import signal
import sys
import time
import traceback

from sim import core, ops, scenario

WORKERS = int(os.environ.get('SIM_WORKERS', '8'))
CAP = {"quick": 420, "thorough": 5400}


class Ctx:
    def __init__(self):
        self.refs = ops.Refs()
        self.cache = {}


def worker(sc, seed, tier, indices, out, deadline):
    ctx = Ctx()
    for i in indices:
        if time.monotonic() > deadline:
            send(out, {'i': i, 'capped': True})
            break
        msg = {'i': i}
        try:
            plan = sc.generate(core.rng_for(seed, sc.pid, i), tier)
            v, st = run_plan(sc, plan, ctx)
            msg['plan'] = core.jhash(plan)
            msg['stats'] = {k: (sorted(x) if isinstance(x, set) else x) for k, x in st.items() if k != 'distinct'}
            msg['distinct'] = {k: sorted(x) for k, x in st['distinct'].items()}
            if i < 40 and st['nontrivial']:
                msg['sample'] = sc.describe(plan)
            if v is not None:
                # it must happen again when the same plan is executed again
                again = same_class(sc, plan, v.cls, Ctx()) or same_class(sc, plan, v.cls, Ctx())
                msg['violation' if again else 'unrepeated'] = v.to_json()
                msg['full_plan'] = plan
        except BaseException as e:
            msg['error'] = f'{type(e).__name__}: {e}\n{traceback.format_exc()}'
        send(out, msg)
    send(out, {'end': True})


def run_plan(sc, plan, ctx):
    """Execute; a harness failure is tried once more before it counts."""
    plan = json.loads(json.dumps(plan))
    try:
        return sc.execute(plan, ctx)
    except (core.HarnessError, core.Hang, OSError) as e:
        sys.stderr.write(f'harness problem, trying again: {core.short(str(e), 2000)}\n')
        return sc.execute(plan, ctx)


def send(fd, msg):
    core.deliver(fd, json.dumps(msg, default=str).encode() + b'\n')


def start_workers(sc, seed, tier, n, count, deadline):
    procs = []
    for w in range(n):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.setpgid(0, 0)
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                os.close(r)
                for p in procs:
                    os.close(p[1])
                worker(sc, seed, tier, [i for i in range(count) if i // core.GROUP % n == w], wr, deadline)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                os._exit(code)
        os.close(wr)
        procs.append((pid, r))
    return procs


def stop(procs):
    for pid, r in procs:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.waitpid(pid, 0)
        except OSError:
            pass
        os.close(r)


class Total:
    def __init__(self):
        self.runs = 0
        self.nontrivial = set()
        self.counts = {}
        self.faults = {}
        self.distinct = {}
        self.samples = []
        self.errors = []
        self.unrepeated = []
        self.violations = []
        self.capped = False
        self.log = []

    def add(self, m):
        if 'error' in m:
            self.errors.append((m['i'], m['error']))
            return
        if m.get('capped'):
            self.capped = True
            return
        self.runs += 1
        self.log.append((m['i'], m['plan'], core.jhash([m['stats'], m['distinct']])))
        st = m['stats']
        if st.get('nontrivial'):
            self.nontrivial.add(st['nontrivial'])
        for k, v in st.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                self.counts[k] = self.counts.get(k, 0) + v
        for k, v in st['faults'].items():
            self.faults[k] = self.faults.get(k, 0) + v
        for k, v in m['distinct'].items():
            self.distinct.setdefault(k, set()).update(map(str, v))
        if 'sample' in m and len(self.samples) < 4:
            self.samples.append(m['sample'])
        if 'violation' in m:
            self.violations.append(m)
        if 'unrepeated' in m:
            self.unrepeated.append(m)
            if len(self.unrepeated) > 3:  # not chance: something that the simulation does not control decides
                self.violations += [dict(x, violation=x['unrepeated']) for x in self.unrepeated]


def explore(sc, seed, tier, count, cap, stop_on_violation=True):
    deadline = time.monotonic() + cap
    procs = start_workers(sc, seed, tier, WORKERS, count, deadline)
    fds = {r: b'' for _, r in procs}
    open_fds = set(fds)
    total = Total()
    try:
        while open_fds:
            ready, _, _ = select.select(list(open_fds), [], [], 5)
            if time.monotonic() > deadline + 300:
                total.errors.append((-1, 'workers did not end'))
                break
            for fd in ready:
                b = os.read(fd, 1 << 16)
                if not b:
                    open_fds.discard(fd)
                    continue
                fds[fd] += b
                *lines, fds[fd] = fds[fd].split(b'\n')
                for line in lines:
                    m = json.loads(line)
                    if m.get('end'):
                        continue
                    total.add(m)
            if total.violations and stop_on_violation:
                break
            if len(total.errors) > 5:
                break
    finally:
        stop(procs)
    return total


def same_class(sc, plan, cls, ctx):
    try:
        v, _ = sc.execute(json.loads(json.dumps(plan)), ctx)
    except (core.HarnessError, core.Hang, KeyError, IndexError, TypeError, ValueError):
        return None
    return v if v is not None and v.cls == cls else None


def minimise(sc, plan, cls, seconds):
    """Greedy: take the first smaller plan with a violation of the same class."""
    ctx = Ctx()
    end = time.monotonic() + seconds
    tried = 0
    best = plan
    progress = True
    while progress and time.monotonic() < end:
        progress = False
        for cand in sc.shrink(best):
            if time.monotonic() > end:
                break
            tried += 1
            if same_class(sc, cand, cls, ctx):
                best = cand
                progress = True
                break
    return best, tried


def load_known(pid):
    path = os.path.join(core.VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == pid]


def matches(known, violation):
    return known['class'] == violation.cls and all(s in violation.detail for s in known['detail_contains'])


def replay_path(pid, plan):
    d = os.path.join(core.VERIF, 'evidence', 'replays')
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, f'{pid}-{core.jhash(plan)}.json')


def self_test():
    """Nothing to build (pure Python): the harness loads, and one seed gives one plan."""
    core.boot()
    for pid, sc in sorted(scenario.load().items()):
        a, b = (core.jhash(sc.generate(core.rng_for(1, pid, 0), 'quick')) for _ in range(2))
        if a != b:
            print(f'{pid}: plan generation is not deterministic')
            return 2
    print(f'{len(scenario.SCENARIOS)} scenarios ready, python {sys.version.split()[0]}, {core.CREOLE}')
    return 0


def fault_kinds(faults):
    kinds = {}
    for k, v in faults.items():
        k = k.split(' at ')[0]
        for p in ('unconvertible', 'generated file', 'gate', 'upload raises', 'converter raises', 'errno', 'exc', 'interpreter'):
            if k.startswith(p):
                k = p
        kinds[k] = kinds.get(k, 0) + v
    return ', '.join(f'{k} {v}' for k, v in sorted(kinds.items(), key=lambda x: -x[1])[:12])


def main(pid, tier, seed):
    core.boot()
    sc = scenario.load()[pid]
    sc.setup()
    try:
        return check(sc, pid, tier, seed)
    finally:
        sc.teardown()


def check(sc, pid, tier, seed):
    t0 = time.monotonic()
    print(f'{pid} tier={tier} seed={seed} workers={WORKERS}', flush=True)
    status = 0
    # recorded findings first: pinned plans
    ctx = Ctx()
    known_lines = 0
    pinned = []
    for k in load_known(pid):
        v, st = run_plan(sc, k['plan'], ctx)
        if v is None:
            print(f'note: finding {k["id"]} does not occur any more')
        elif matches(k, v):
            known_lines += 1
            print(f'KNOWN-FINDING: property={pid} {k["what"]}')
        else:
            pinned.append((k['plan'], v))
    count = int(os.environ.get('SIM_RUNS', sc.runs[tier]))
    cap = float(os.environ.get('SIM_CAP', CAP[tier]))
    total = explore(sc, seed, tier, count, cap)
    for plan, v in pinned:
        total.violations.append({'i': -1, 'full_plan': plan, 'violation': v.to_json()})
    wall = time.monotonic() - t0
    if total.violations:
        m = min(total.violations, key=lambda m: m['i'])
        cls = m['violation']['cls']
        print(f'run {m["i"]}: {cls}: {m["violation"]["detail"]}', flush=True)
        plan = m['full_plan']
        best, tried = minimise(sc, plan, cls, 40 if tier == 'quick' else 240)
        ctx = Ctx()
        v = same_class(sc, best, cls, ctx)
        exact = True
        if v is None:
            best = plan
            v = same_class(sc, best, cls, ctx)
        if v is None:
            exact = False
            v = scenario.Violation(cls, m['violation']['detail'])
        path = replay_path(pid, best)
        with open(path, 'w') as f:
            json.dump({'property': pid, 'seed': seed, 'run': m['i'], 'violation': v.to_json(), 'plan': best, 'original_plan': plan, 'replayed_in_process': exact}, f, indent=1)
        print(f'minimised with {tried} tries: {json.dumps(sc.describe(best), ensure_ascii=False, default=str)[:3000]}')
        print(f'{v.cls}: {v.detail}')
        print(f'replay: {sys.executable} {core.VERIF}/replay.py {path}')
        if not exact:
            print('note: the violation did not repeat in a second execution of the same plan')
        print(f'VIOLATION property={pid} replay={path}', flush=True)
        status = 1
    elif len(total.errors) > 3 or (total.errors and total.runs < count // 2):
        for i, e in total.errors[:3]:
            print(f'harness error in run {i}: {e}')
        status = 2
    elif total.capped and total.runs < count // 10:
        print(f'only {total.runs} of {count} runs within {cap} s')
        status = 2
    elif total.errors:
        for i, e in total.errors:
            print(f'run {i} gave no answer and is not counted: {core.short(e, 400)}')
    for m in total.unrepeated[:3]:
        print(f'run {m["i"]}: seen once, not in two more executions of the same plan, not counted: {core.short(m["unrepeated"]["detail"], 400)}')
    evidence(sc, tier, seed, total, count, wall, len(total.violations))
    print(f'{pid}: {total.runs}/{count} simulated runs, {len(total.nontrivial)} distinct non-trivial, faults: {fault_kinds(total.faults)}; {wall:.1f} s, exit {status}')
    return status


def evidence(sc, tier, seed, total, count, wall, violations):
    per_hour = int(total.runs / wall * 3600) if wall else 0
    cov = {
        'evaluations': total.runs,
        'distinct_nontrivial': len(total.nontrivial),
        'rule': sc.rule,
        'samples': total.samples or ['none'],
        'planned_runs': count,
        'simulated_runs_per_hour': per_hour,
        'seeds_per_hour': per_hour,
        'run_seeds': f'sha256("{seed}:{sc.pid}:i") for i in 0..{count - 1}',
        'fault_kinds_fired': dict(sorted(total.faults.items())),
        'distinct': {k: len(v) for k, v in sorted(total.distinct.items())},
        'counters': {k: v for k, v in sorted(total.counts.items())},
        'real_components': sc.real,
        'stub_components': sc.stub,
        'workers': WORKERS,
        'log_hash': core.jhash(sorted(total.log)),
        'harness_errors': len(total.errors),
        'unrepeated': len(total.unrepeated),
    }
    doc = {'property': sc.pid, 'tier': tier, 'seed': seed, 'level': sc.level, 'coverage': cov,
           'assumptions': sc.assumptions, 'wall_s': round(wall, 2), 'violations': violations}
    d = os.path.join(core.VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, f'.{sc.pid}.tmp')
    with open(tmp, 'w') as f:
        json.dump(doc, f, indent=1, ensure_ascii=False, default=str)
    os.replace(tmp, os.path.join(d, f'{sc.pid}.json'))
