"""C22-C23: conversions that start, and processes that fork, in the middle of a conversion."""
import copy

from sim import conc, core, gen, ops, shrink
from sim.conc import PPM
from sim.gen import maybe, pick
from sim.scen_mem import TaskScenario, diff_outcome, op_pool, random_switches
from sim.scenario import Violation, register


class InsertScenario(TaskScenario):
    """Tasks with operations that start at a drawn event of another one."""

    def check_inserts(self, plan, res, ref, ctx, st):
        """Violations of what was inserted, then of everything around."""
        v = self.compare(plan, res, ref)
        if v is not None and v.cls != 'result':
            return v
        table = {}
        for t, j, ppm, ins in plan['inserts']:
            if t < len(ref) and j < len(ref[t]) and ref[t][j][1]:
                table[t, j, conc.at(ppm, ref[t][j][1], ref[t][j][3])] = ins
        per_op = {}
        for (t, j, _), ins in sorted(table.items(), key=lambda kv: kv[0]):
            per_op.setdefault((t, j), []).append(ins)
        spec = plan['env']
        for i, j, k, out in res['inserted']:
            if k >= 0:
                # the k-th conversion of one of the inserts of this operation
                wanted = [ctx.refs.get(ins['ops'][k], spec, trace=False)[0] for ins in per_op[i, j] if ins['do'] == 'convert' and k < len(ins['ops'])]
                if out not in wanted:
                    return Violation('inner', f'conversion started in the middle of {plan["tasks"][i][j]["fn"]}: {diff_outcome(out, wanted)}')
            else:
                wanted = [[ctx.refs.get(o, spec, trace=False)[0] for o in ins['ops']] + [ref[i][j][0]] for ins in per_op[i, j] if ins['do'] == 'fork']
                if out not in wanted:
                    cls = 'child hangs' if any(x and x[0] == 'abort' for x in out) else 'child'
                    return Violation(cls, f'child forked in the middle of {plan["tasks"][i][j]["fn"]}: {diff_outcome(out, wanted)}')
        return v

    def shrink(self, plan):
        for c in shrink.chunks(plan['inserts']):
            yield shrink.replaced(plan, inserts=c)
        ins = plan['inserts']
        for k, (t, j, ppm, spec) in enumerate(ins):
            if len(spec['ops']) > 1:
                for n in range(len(spec['ops'])):
                    yield shrink.replaced(plan, inserts=ins[:k] + [[t, j, ppm, dict(spec, ops=shrink.without(spec['ops'], n))]] + ins[k + 1:])
        for p in shrink.task_plan(plan):
            if len(p['tasks']) != len(plan['tasks']):
                gone = next((i for i, t in enumerate(plan['tasks']) if i >= len(p['tasks']) or t != p['tasks'][i]), 0)
                p['inserts'] = [[t - (t > gone), j, q, s] for t, j, q, s in ins if t != gone]
            yield p
        for k, (t, j, ppm, spec) in enumerate(ins):
            for n, op in enumerate(spec['ops']):
                for v in shrink.op_variants(op):
                    yield shrink.replaced(plan, inserts=ins[:k] + [[t, j, ppm, dict(spec, ops=spec['ops'][:n] + [v] + spec['ops'][n + 1:])]] + ins[k + 1:])

    def describe(self, plan):
        d = super().describe(plan)
        d['inserts'] = [[t, j, ppm, s['do'], [f"{o['fn']}({core.short(o.get('src'), 60)!r})" for o in s['ops']]] for t, j, ppm, s in plan['inserts'][:5]]
        return d


def plain(op):
    """Without effects on the streams that would show in another process."""
    op = copy.deepcopy(op)
    return op


@register
class C22(InsertScenario):
    pid = 'C22'
    runs = {'quick': 6500, 'thorough': 40000}
    rule = ('1-4 simulated threads with conversions; a process is forked at a drawn event: by a thread of its own while the others are in the '
            'middle of conversions, or in the middle of a conversion of the forking thread, which both processes then complete; the child converts '
            '1-3 documents; non-trivial: a fork took place while a conversion was under way; distinct by plan and interleaving')

    def generate(self, r, tier):
        env, pool = op_pool(r.group, 3)
        fam = pick(r, pool) if maybe(r, .6) else [o for f in pool for o in f]
        draw = lambda: copy.deepcopy(pick(r, fam))  # noqa: E731
        inside = maybe(r, .4)
        n = pick(r, [1, 1, 2, 3])
        tasks = [[draw() for _ in range(pick(r, [1, 1, 2]))] for _ in range(n)]
        inserts, switches = [], []
        if inside:
            i = r.randrange(n)
            j = r.randrange(len(tasks[i]))
            inserts.append([i, j, conc.place(r), {'do': 'fork', 'ops': [draw() for _ in range(pick(r, [0, 1, 2]))]}])
            if n > 1:
                switches = random_switches(r, tasks)
                # somebody else should be under way as well
                o = pick(r, [x for x in range(n) if x != i])
                switches.insert(0, [o, 0, conc.place(r), i])
            first = r.randrange(n) if n == 1 else switches[0][0]
        else:
            row = []
            for _ in range(pick(r, [1, 1, 1, 2])):
                row.append({'fn': '@fork', 'ops': [draw() for _ in range(pick(r, [1, 1, 2, 3]))], 'opts': {}, 'threaded': maybe(r, .4)})
                if maybe(r, .3):
                    row.append(draw())
            tasks.append(row)
            f = len(tasks) - 1
            for i in range(n - 1):
                switches.append([i, 0, conc.place(r), i + 1])
            switches.append([n - 1, 0, conc.place(r), f])
            for k, op in enumerate(row):
                if op['fn'] == '@fork' and maybe(r, .5):
                    i = r.randrange(n)
                    switches.append([f, k, PPM, i])
                    switches.append([i, r.randrange(len(tasks[i])), conc.place(r), f])
            first = 0
        return {'env': env, 'tasks': tasks, 'switches': switches, 'faults': [], 'inserts': inserts, 'opcode': maybe(r.group, .15), 'first': first}

    def execute(self, plan, ctx):
        res, ref = conc.execute(plan, ctx.refs)
        st = self.stats_of(plan, res, ref)
        st['faults'] = {}
        forks = sum(1 for row in plan['tasks'] for o in row if o['fn'] == '@fork') + len([x for x in res['inserted'] if x[2] == -1])
        if forks:
            st['faults']['fork'] = forks
        busy = res['switches'] or res['fired']
        st['nontrivial'] = core.jhash([plan['tasks'], plan['inserts'], res['hash'], res['fired']]) if forks and busy else None
        v = self.check_inserts(plan, res, ref, ctx, st)
        if v is None:
            return None, st
        if v.cls == 'result' and res['results']:
            for i, row in enumerate(plan['tasks']):
                for j, op in enumerate(row):
                    got, want = res['results'][i][j], ref[i][j][0]
                    if op['fn'] == '@fork' and got != want:
                        cls = 'child hangs' if any(x and x[0] == 'abort' for x in got[1]) else 'child'
                        return Violation(cls, f'child forked while other threads were converting: {diff_outcome(got[1], want[1])}'), st
        return v, st


@register
class C23(InsertScenario):
    pid = 'C23'
    runs = {'quick': 5500, 'thorough': 60000}
    rule = ('one or more conversions start at drawn executed lines/opcodes in the middle of another one, on the same thread (as from a signal '
            'handler or finaliser), possibly with other threads interleaved; non-trivial: an inner conversion ran; distinct by (position, operations)')

    def generate(self, r, tier):
        env, pool = op_pool(r.group)
        fam = pick(r, pool) if maybe(r, .7) else [o for f in pool for o in f]
        draw = lambda: copy.deepcopy(pick(r, fam))  # noqa: E731
        n = pick(r, [1, 1, 1, 1, 2])
        tasks = [[draw() for _ in range(pick(r, [1, 1, 2, 3]))] for _ in range(n)]
        inserts = []
        for _ in range(pick(r, [1, 1, 1, 2, 4, 8])):
            i = r.randrange(n)
            j = r.randrange(len(tasks[i]))
            inserts.append([i, j, conc.place(r), {'do': 'convert', 'ops': [draw() if maybe(r, .8) else copy.deepcopy(tasks[i][j]) for _ in range(pick(r, [1, 1, 1, 2, 3]))]}])
        return {'env': env, 'tasks': tasks, 'switches': random_switches(r, tasks) if n > 1 else [], 'faults': [], 'inserts': inserts,
                'opcode': maybe(r.group, .25), 'extra': maybe(r.group, .4), 'first': 0}

    def execute(self, plan, ctx):
        res, ref = conc.execute(plan, ctx.refs)
        st = self.stats_of(plan, res, ref)
        inner = [x for x in res['inserted'] if x[2] >= 0]
        st['faults'] = {'conversion in the middle of another': len(inner)} if inner else {}
        st['inner_conversions'] = len(inner)
        st['nontrivial'] = core.jhash([plan['tasks'], plan['inserts'], res['fired'], res['hash']]) if inner else None
        return self.check_inserts(plan, res, ref, ctx, st), st
