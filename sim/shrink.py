"""Smaller candidates of a plan, most promising first."""
import copy


def without(seq, i):
    return seq[:i] + seq[i + 1:]


def chunks(seq):
    """Drop halves, then quarters, then single elements."""
    n = len(seq)
    size = n // 2
    while size >= 1:
        for i in range(0, n, size):
            yield seq[:i] + seq[i + size:]
        size //= 2


def texts(s):
    if not s:
        return
    lines = s.split('\n')
    if len(lines) > 1:
        for c in chunks(lines):
            yield '\n'.join(c)
    n = len(s)
    size = max(1, n // 2)
    seen = 0
    while size >= 1 and seen < 80:
        for i in range(0, n, size):
            seen += 1
            yield s[:i] + s[i + size:]
        size //= 2


def op_variants(op):
    for k in sorted(op.get('opts') or {}):
        o = copy.deepcopy(op)
        del o['opts'][k]
        yield o
    if 'src' in op:
        for s in texts(op['src']):
            o = copy.deepcopy(op)
            o['src'] = s
            yield o


def replaced(plan, **kw):
    p = dict(plan)
    p.update(kw)
    return p


def task_plan(plan):
    tasks = plan['tasks']
    sw, fl = plan.get('switches', []), plan.get('faults', [])
    for i in range(len(tasks)):
        if len(tasks) > 1:
            rm = lambda e: [[t - (t > i)] + list(r) for t, *r in e if t != i]  # noqa: E731
            nsw = [[t, j, p, max(0, to - (to > i))] for t, j, p, to in rm(sw)]
            yield replaced(plan, tasks=without(tasks, i), switches=nsw, faults=rm(fl), first=0)
    for i, t in enumerate(tasks):
        for j in range(len(t)):
            if len(t) > 1:
                f = lambda e: [[a, b - (a == i and b > j)] + list(r) for a, b, *r in e if (a, b) != (i, j)]  # noqa: E731
                yield replaced(plan, tasks=tasks[:i] + [without(t, j)] + tasks[i + 1:], switches=f(sw), faults=f(fl))
    for c in chunks(sw):
        yield replaced(plan, switches=c)
    for c in chunks(fl):
        yield replaced(plan, faults=c)
    if plan.get('opcode'):
        yield replaced(plan, opcode=False)
    if plan.get('extra'):
        yield replaced(plan, extra=False)
    for i, t in enumerate(tasks):
        for j, op in enumerate(t):
            for v in op_variants(op):
                yield replaced(plan, tasks=tasks[:i] + [t[:j] + [v] + t[j + 1:]] + tasks[i + 1:])
    env = plan.get('env') or {}
    for kind in ('macros', 'rules'):
        for name in sorted(env.get(kind) or {}):
            if kind == 'macros':
                for m in sorted(env[kind][name]['macros']):
                    e = copy.deepcopy(env)
                    del e[kind][name]['macros'][m]
                    yield replaced(plan, env=e)
