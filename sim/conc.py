"""Runs tasks (lists of operations) as simulated threads of one process."""
import _thread
import os
import pickle
import signal
import sys

from sim import core, ops, sched

PPM = 1000000
PARSER_FILES = ('html/parser.py', '_markupbase.py', '/shlex.py', 'sax/saxutils.py', 'urllib/parse.py',
                'pygments/__init__.py', 'pygments/lexer.py', 'formatters/html.py')


def at(ppm, n, places=()):
    """Event number of a relative position within an operation of n events.

    [a, b] is a place (in the order in which they are reached) and one of its executions.
    """
    if isinstance(ppm, list):
        if not places:
            return at(ppm[0], n)
        p = places[ppm[0] * len(places) // PPM]
        return p[ppm[1] * len(p) // PPM]
    return max(1, min(n, 1 + ppm * n // PPM))


def place(r):
    """A position: any step of an operation, or any line that it executes, with equal probability."""
    return r.randrange(PPM) if r.random() < .5 else [r.randrange(PPM), r.randrange(PPM)]


class Insert:
    """Something that happens in the middle of an operation, on its own thread."""

    def __init__(self, spec, s, t, e, log, key):
        self.spec, self.s, self.t, self.e, self.log, self.key = spec, s, t, e, log, key
        self.kind = spec['do']

    def __call__(self):
        if self.kind == 'convert':
            calls = self.e.calls
            for k, op in enumerate(self.spec['ops']):
                self.log.append([*self.key, k, ops.outcome(op, self.e)])
            self.e.calls = calls
        else:
            out = fork_now(self.s, self.t, self.e, self.spec['ops'], goes_on=True)
            if out is not None:
                self.log.append([*self.key, -1, out])


def in_new_thread(s, t, fn):
    """A child starts its own threads; the forking one waits."""
    x = sched.Task(len(s.tasks), None)
    s.tasks.append(x)
    t.done = True
    ended = sched._real_allocate()
    ended.acquire()
    out = []

    def main():
        x.ident = _thread.get_ident()
        s._by_ident[x.ident] = x
        try:
            out.append(fn())
        except sched.Abort:
            out.append(['abort', s.problem[0]])
        except BaseException as err:
            out.append(['thread failed', repr(err)])
        finally:
            x.done = True
            ended.release()
    _thread.start_new_thread(main, ())
    ended.acquire()
    t.done = False
    return out[0]


def fork_now(s, t, e, op_list, goes_on=False, threaded=False):
    """A child of which only this thread survives; its outcomes (None in a child that goes on)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(12)
            for x in s.tasks:
                if x is not t:
                    x.done = True
            s.budget = None
            out = []
            for op in op_list:
                try:
                    out.append(in_new_thread(s, t, lambda: ops.outcome(op, e)) if threaded else ops.outcome(op, e))
                except sched.Abort:
                    out.append(['abort', s.problem[0]])
                if out[-1][0] == 'abort':
                    break
            t.child = (w, out)
            if goes_on and s.problem is None:
                return None
            leave(t, None)
        except BaseException:
            os._exit(3)
    os.close(w)
    data = b''
    while True:
        b = os.read(r, 1 << 16)
        if not b:
            break
        data += b
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if not data:
        if os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGALRM:
            return [['abort', 'hang']]
        raise core.HarnessError(f'forked child ended with wait status {status}')
    return pickle.loads(data)


def leave(t, result):
    """Ends a forked child that has gone on with the operation."""
    w, out = t.child
    try:
        core.deliver(w, pickle.dumps(out + [result]))
    finally:
        os._exit(0)


def run_tasks(env_spec, tasks, switches, faults, opcode, first, budget, extra, inserts=None, observe=None):
    """In a pristine fork.  switches: {(task, op): {event: target}}; a key -1 means after the operation."""
    core.ambient_reset()
    sys.setswitchinterval(1000)
    env = ops.Env(env_spec)
    if env_spec.get('trees'):
        env.trees = {k: ops.parse_tree(v) for k, v in env_spec['trees'].items()}
    envs = [env]
    for _ in tasks[1:]:  # caller-owned objects are shared, the call log is per thread
        e = ops.Env.__new__(ops.Env)
        e.__dict__.update(env.__dict__)
        e.nested_results = []
        e.calls = []
        envs.append(e)
    before = env.snapshot()
    tree_before = {k: tree_snap(t) for k, t in (env.trees or {}).items()}
    results = [[None] * len(t) for t in tasks]
    delivered = []
    inserted = []
    s = sched.Scheduler(opcode=opcode, budget=budget, extra=extra)
    threads = {}
    lost = []  # raised where the interpreter itself drops it: in a generator being finalised or a __del__

    def unraisable(u):
        lost.append(getattr(u.exc_value, 'sim_fired', None))
    sys.unraisablehook = unraisable

    def body_for(i):
        def body(t):
            if observe is None:
                return steps(t)
            threads[i] = [observe.thread()]
            try:
                steps(t)
            finally:
                threads[i].append(observe.thread())

        def steps(t):
            e = envs[i]
            for j, op in enumerate(tasks[i]):
                sw = switches.get((i, j), {})
                fl = faults.get((i, j))
                table = {}
                if fl:
                    ev, name = fl
                    table = {ev: lambda name=name: ops.make_exc(name, f'injected {i} {j}')}
                nfired = len(t.fired)
                calls = {ev: Insert(spec, s, t, e, inserted, (i, j)) for ev, spec in (inserts or {}).get((i, j), {}).items()}
                s.begin_op(t, {k: v for k, v in sw.items() if k > 0}, table, calls)
                try:
                    try:
                        if op['fn'] == '@fork':
                            r = ['ok', fork_now(s, t, e, op['ops'], threaded=op.get('threaded'))]
                        else:
                            r = ['ok', core.norm(ops.run_op(op, e))]
                    finally:
                        s.end_op(t)
                except sched.Abort:
                    if t.child:
                        leave(t, ['abort', s.problem[0]])
                    raise
                except core.HarnessError:
                    raise
                except BaseException as err:
                    r = core.outcome_of_exception(err)
                    del err
                if t.child:
                    leave(t, r)
                results[i][j] = r
                if len(t.fired) > nfired and not any(f is t.fired[-1] for f in lost):
                    delivered.append([i, j, t.fired[-1][1], t.fired[-1][2]])
                if s.problem is not None:
                    raise sched.Abort()
                if -1 in sw:
                    s.switch_to(t, sw[-1], f'after op {j}')
        return body

    for i in range(len(tasks)):
        s.add(body_for(i))
    observed = [observe.process()] if observe else []
    s.run(first)
    if observe:
        observed += [observe.process(), sorted(threads.items())]
    return {
        'results': results, 'problem': s.problem, 'switches': s.switches, 'hash': s.hash.hexdigest()[:16],
        'sites': sorted(s.sites), 'fired': [[t.idx] + f for t in s.tasks for f in t.fired],
        'delivered': delivered, 'before': before, 'after': env.snapshot(), 'trees': [tree_before, {k: tree_snap(t) for k, t in (env.trees or {}).items()}],
        'events': s.total, 'inserted': inserted, 'nested': [e.nested_results for e in envs], 'lock_blocks': s.lock_blocks,
        'observed': observed,
    }


def tree_snap(node, depth=0):
    d = [getattr(node, 'kind', None), getattr(node, 'content', None), sorted((getattr(node, 'attrs', None) or {}).items(), key=repr), getattr(node, 'level', None),
         getattr(node, 'macro_name', None), getattr(node, 'macro_args', None), getattr(node, 'sect', None),
         sorted(getattr(node, 'used_macros', ()) or ())]
    if depth > 200:
        return d
    return d + [[tree_snap(c, depth + 1) for c in getattr(node, 'children', ())]]


def execute(plan, refs, timeout=60, observe=None):
    """Resolve the relative positions of a plan and run it; returns (result, references)."""
    spec = plan.get('env') or {}
    opcode = bool(plan.get('opcode'))
    # never preempt inside pygments: it imports lexers while it holds the import lock
    extra = PARSER_FILES if plan.get('extra') and len(plan['tasks']) == 1 else ()
    def ref_of(op):
        if op['fn'] == '@fork':
            return [['ok', [refs.get(o, spec, trace=False)[0] for o in op['ops']] + [None]], 0, [], []]
        return refs.get(op, spec, opcode=opcode, extra=extra)
    ref = [[ref_of(op) for op in t] for t in plan['tasks']]
    for row in ref:
        for r in row:
            if r[0][0] == 'abort':
                raise core.HarnessError(f'reference run did not end: {r}')
    switches, faults = {}, {}
    for t, j, ppm, target in plan.get('switches', ()):
        if t < len(ref) and j < len(ref[t]):
            n = ref[t][j][1]
            ev = -1 if ppm == PPM else at(ppm, n, ref[t][j][3])
            if n or ev == -1:
                switches.setdefault((t, j), {})[ev] = target
    for t, j, ppm, name in plan.get('faults', ()):
        if t < len(ref) and j < len(ref[t]) and ref[t][j][1]:
            faults[(t, j)] = [at(ppm, ref[t][j][1], ref[t][j][3]), name]
    if opcode and faults and len(plan['tasks']) > 1:
        # raising from an opcode trace function while other threads are traced crashes CPython 3.12
        return execute(dict(plan, opcode=False), refs, timeout, observe)
    inserts = {}
    for t, j, ppm, ins in plan.get('inserts', ()):
        if t < len(ref) and j < len(ref[t]) and ref[t][j][1]:
            inserts.setdefault((t, j), {})[at(ppm, ref[t][j][1], ref[t][j][3])] = ins
    budget = 200000 + 30 * sum(r[1] for row in ref for r in row)
    try:
        res = core.in_fork(run_tasks, spec, plan['tasks'], switches, faults, opcode, plan.get('first', 0), budget, extra, inserts, observe,
                           timeout=timeout)
    except core.HarnessError as e:
        if opcode and 'wait status' in str(e):
            return execute(dict(plan, opcode=False), refs, timeout, observe)
        raise
    except core.Hang as e:
        return {'problem': ('hang', str(e)), 'results': [], 'switches': 0, 'hash': 'hang', 'sites': [], 'fired': [], 'delivered': [], 'before': {}, 'after': {},
                'trees': [{}, {}], 'events': 0, 'inserted': [], 'nested': [], 'lock_blocks': 0, 'observed': []}, ref
    return res, ref
