"""C01-C05, C07: conversions as simulated threads, histories, re-entry, interrupts."""
import copy
import re

from sim import conc, core, gen, ops, shrink
from sim.conc import PPM
from sim.gen import maybe, pick
from sim.scenario import Scenario, Violation, register


def diff_outcome(got, want):
    return f'got {core.short(got)}, alone {core.short(want)}'


class TaskScenario(Scenario):
    real = ['creole.* (all parsers, emitters, macros, rest writer)', 'docutils', 'pygments', 'html.parser']
    stub = ['thread scheduling (baton scheduler on line/opcode events of creole frames)', 'threading.Lock/RLock created by creole',
            'macros, unknown-tag handlers and documents (generated callers)']

    def shrink(self, plan):
        return shrink.task_plan(plan)

    def describe(self, plan):
        return {'tasks': [[f"{o['fn']}({core.short(o.get('src', o.get('tree')), 80)!r}, {o.get('opts')})" for o in t] for t in plan['tasks']],
                'switches': plan.get('switches', [])[:8], 'faults': plan.get('faults', []), 'opcode': plan.get('opcode', False)}

    def stats_of(self, plan, res, ref):
        st = self.new_stats()
        st['sim_steps'] = res['events']
        st['switches'] = res['switches']
        st['distinct']['interleavings'] = {res['hash']} if res['switches'] else set()
        st['distinct']['preemption_sites'] = set(res['sites'])
        st['distinct']['fault_sites'] = {f[3] for f in res['fired']}
        for f in res['fired']:
            st['faults'][f[2]] = st['faults'].get(f[2], 0) + 1
        st['ops'] = sum(len(t) for t in plan['tasks'])
        if res['lock_blocks']:
            st['lock_blocks'] = res['lock_blocks']
        return st

    def compare(self, plan, res, ref, skip=()):
        """All results against the stand-alone results."""
        if res['problem']:
            return Violation(res['problem'][0], f'{res["problem"][1]}')
        for i, row in enumerate(res['results']):
            for j, got in enumerate(row):
                if (i, j) in skip:
                    continue
                want = ref[i][j][0]
                if got != want:
                    return Violation('result', f'task {i} operation {j} {plan["tasks"][i][j]["fn"]}: {diff_outcome(got, want)}')
        return None


def random_switches(r, tasks, heavy=False):
    sw = []
    n = len(tasks)
    mode = pick(r, ['one', 'one', 'two', 'few', 'pingpong', 'boundary', 'burst'])
    all_ops = [(i, j) for i, t in enumerate(tasks) for j in range(len(t))]

    def one(i, j, p=None):
        to = pick(r, [x for x in range(n) if x != i] or [0])
        sw.append([i, j, conc.place(r) if p is None else p, to])
    if mode == 'one':
        one(*pick(r, all_ops))
    elif mode == 'two':
        one(*pick(r, all_ops))
        one(*pick(r, all_ops))
    elif mode == 'few':
        for _ in range(r.randrange(3, 8)):
            one(*pick(r, all_ops))
    elif mode == 'pingpong':
        k = r.randrange(5, 30)
        for i, j in all_ops:
            for _ in range(k):
                one(i, j)
    elif mode == 'boundary':
        for i, j in all_ops:
            if maybe(r, .7):
                one(i, j, PPM)
            if maybe(r, .4):
                one(i, j)
    else:  # a burst of switches in a small window
        i, j = pick(r, all_ops)
        c, w = r.randrange(PPM), r.randrange(2000, 60000)
        for _ in range(r.randrange(3, 10)):
            one(i, j, max(0, min(PPM - 1, c + r.randrange(-w, w))))
        for a, b in all_ops:
            if a != i:
                one(a, b)
    return sw


def op_pool(g, families=4):
    """Families of operations that are easily mistaken for each other."""
    env = gen.gen_env(g)
    pool = []
    for k in range(families):
        boost = None
        if maybe(g, .15):
            base = gen.themed_op(g, env, f'tk{k}A')
        elif maybe(g, .3):
            boost = g.randrange(10 ** 6)
            base = gen.gen_op(g, env, f'tk{k}A', size=pick(g, [2, 3, 5]), boost=boost)
        else:
            base = gen.gen_op(g, env, f'tk{k}A', size=pick(g, [1, 1, 2, 2, 3, 5]))
        fam = [base]
        for m in range(pick(g, [2, 3, 4])):
            fam.append(gen.sibling(g, pick(g, fam), env))
        fam.append(gen.gen_op(g, env, f'tk{k}B', fn=base['fn'], size=pick(g, [1, 2, 3]), boost=boost))
        pool.append(fam)
    return env, pool


@register
class C01(TaskScenario):
    pid = 'C01'
    runs = {'quick': 6300, 'thorough': 60000}
    rule = ('2-5 simulated threads with 1-3 conversions each (generated documents, options, shared macros/block rules); non-trivial: at '
            'least one preemption inside a conversion took place; distinct: by hash of (thread, code position, successor) of every switch')

    def generate(self, r, tier):
        env, pool = op_pool(r.group)
        n = pick(r, [2, 2, 2, 2, 3, 3, 4, 5])
        if maybe(r, .6):  # related operations
            pool = pick(r, pool)
        else:
            pool = [o for f in pool for o in f]
        tasks = [[copy.deepcopy(pick(r, pool)) for j in range(pick(r, [1, 1, 2, 3]))] for i in range(n)]
        opcode = maybe(r.group, .2)
        return {'env': env, 'tasks': tasks, 'switches': random_switches(r, tasks), 'opcode': opcode, 'first': r.randrange(n)}

    def execute(self, plan, ctx):
        res, ref = conc.execute(plan, ctx.refs)
        st = self.stats_of(plan, res, ref)
        st['nontrivial'] = res['hash'] if res['switches'] else None
        return self.compare(plan, res, ref), st


@register
class C02(TaskScenario):
    pid = 'C02'
    runs = {'quick': 5000, 'thorough': 60000}
    rule = ('histories of 2-12 conversions (near-identical documents, other options, failing and cancelled predecessors, transient macros '
            'objects) or 150-1000 tiny ones in one process; non-trivial: at least two operations with different results')

    def generate(self, r, tier):
        long = maybe(r, .03)
        faults = []
        if maybe(r, .06):
            # objects that live for one call only: another one may have the address of an earlier one
            env, variants = {}, []
            kind = pick(r, ['ns', 'ns', 'ns', 'dict', 'dictsub', 'slots', 'class'])
            fn = pick(r, ['creole2html', 'creole2html', 'creole2html', 'html2creole', 'html2rest', 'html2textile', 'html2markdown'])
            for k in range(pick(r, [2, 3, 5, 8])):
                if fn == 'creole2html':
                    macros = {n: {'b': 'const', 'v': f'V{k}{n}'} for n in ('konst', 'other', 'third') if maybe(r, .7)}
                    o = {'macros': {'kind': kind, 'macros': macros}}
                    if maybe(r, .4):
                        o['block_rules'] = {'blog': maybe(r, .5), 'drop': pick(r, [[], ['table'], ['list'], ['head']])}
                    d = pick(r, ['<<konst>>', 'a <<konst>> b', '= h\n\n<<konst>>x<</konst>>\n* y\n|z|', '<<toc>>\n= <<other>>\n\n<<third>>\nx\n<</third>>'])
                else:
                    o = {'unknown_emit': {'mark': f'V{k}'}}
                    d = pick(r, ['<p>a<x-y>b</x-y></p>', '<x>a</x>', '<ul><li><x>b</x></li></ul>'])
                variants.append({'fn': fn, 'src': d, 'opts': o})
            if maybe(r, .5):
                variants = [dict(v, src=variants[0]['src']) for v in variants]
            return {'env': env, 'tasks': [[copy.deepcopy(pick(r, variants)) for _ in range(pick(r, [20, 60, 150]))]], 'faults': [], 'switches': []}
        if long:
            env = gen.gen_env(r)
            kinds = [gen.gen_op(r, env, f'L{k}x', size=1) for k in range(r.randrange(3, 9))]
            kinds += [gen.sibling(r, pick(r, kinds), env) for _ in range(4)]
            n = pick(r, [150, 300, 600, 1000])
            only = maybe(r, .5)
            a = pick(r, kinds)
            hist = [a if only and maybe(r, .95) else pick(r, kinds) for _ in range(n)]
            hist += [gen.gen_op(r, env, 'Zz', size=2) for _ in range(3)] + kinds[:3]
        else:
            env, pool = op_pool(r.group)
            pool = pick(r, pool) if maybe(r, .6) else [o for f in pool for o in f]
            hist = [copy.deepcopy(pick(r, pool)) for _ in range(r.randrange(2, 14))]
            if maybe(r, .6):
                hist.append(hist[0])
            if maybe(r, .2):  # a short history with one failure
                a = copy.deepcopy(pick(r, pool))
                hist = [a] * pick(r, [0, 1]) + [a] + [pick(r, [a, gen.sibling(r, a, env), gen.gen_op(r, env, 'Zw', fn=a['fn'], size=2)]) for _ in range(pick(r, [1, 2, 4]))]
                hist = copy.deepcopy(hist)
                faults.append([0, len(hist) // 3, conc.place(r), pick(r, ['RuntimeError', 'ValueError', 'OSError', 'Cancelled', 'KeyError', 'AssertionError'])])
            elif maybe(r, .4):
                for _ in range(pick(r, [1, 1, 2, 3])):
                    faults.append([0, r.randrange(len(hist)), conc.place(r), pick(r, ['RuntimeError', 'ValueError', 'OSError', 'Cancelled', 'KeyError', 'AssertionError'])])
        return {'env': env, 'tasks': [hist], 'faults': faults, 'switches': []}

    def execute(self, plan, ctx):
        res, ref = conc.execute(plan, ctx.refs)
        st = self.stats_of(plan, res, ref)
        outs = {core.jhash(x) for x in res['results'][0]} if res['results'] else set()
        st['nontrivial'] = core.jhash([[o['fn'], o.get('src'), o['opts']] for o in plan['tasks'][0]]) if len(outs) > 1 else None
        # an injected (ordinary) error may be handled or change that one result, not the others
        skip = {(0, j) for _, j, _, _ in plan.get('faults', ())}
        v = self.compare(plan, res, ref, skip)
        if v is None and res['before'] != res['after']:
            v = Violation('arguments', f'caller-owned objects changed: before {core.short(res["before"])} after {core.short(res["after"])}')
        return v, st


def mentions(op):
    ids = set()
    o = op.get('opts') or {}
    if isinstance(o.get('unknown_emit'), dict):
        ids.add(o['unknown_emit'].get('nest'))
    return ids


@register
class C03(TaskScenario):
    pid = 'C03'
    runs = {'quick': 5400, 'thorough': 40000}
    rule = ('1-3 outer conversions whose macros and unknown-tag handlers run 1-4 other conversions, up to 3 levels deep, with shared '
            'macros objects, sometimes in interleaved threads; non-trivial: a nested conversion ran')

    def recursive(self, r):
        """A macro (or handler) that calls itself through the document it converts."""
        cont = gen.behaviours(r)
        ids = []
        cont['macros']['rec'] = {'b': 'rec', 'ids': ids}
        env = {'macros': {'m0': cont}, 'nested': {}}
        handler = maybe(r, .35)

        def op():
            if handler and maybe(r, .7):
                fn = pick(r, gen.HTML_FNS)
                d = gen.Html(r, 'ht', pick(r, [1, 1, 2]), swarm=True).make()
                if '<x-' not in d:
                    d = pick(r, ['<p>{} <x-y k="v">foo</x-y></p>', '<ul><li>{}<x-y>foo</x-y></li></ul>', '<table><tr><td>{}<x-y>foo</x-y></td></tr></table>']).format(pick(r, gen.TEXTS)) + (d if maybe(r, .5) else '')
                return {'fn': fn, 'src': d, 'opts': {'unknown_emit': {'rec': ids, 'children': maybe(r, .8)}}}
            d = pick(r, ['<<rec>>foo<</rec>>', 'a <<rec />> b', '* x <<rec />>\n** y', '|a|<<rec />>|', '<<toc>>\n\n= h =\n\n<<rec>>\nfoo\n<</rec>>\n\n== k ==', '**b <<rec />>**', '<<echo />>\n<<rec a=1 />>'])
            if maybe(r, .5):
                d = gen.doc(r, 'creole', 'cr', pick(r, [1, 2]), macros=gen.MACROS) + '\n\n' + d
            o = gen.gen_opts(r, 'creole2html', {})
            o.pop('debug', None)
            o['macros'] = 'm0'
            return {'fn': 'creole2html', 'src': d, 'opts': o}
        base = op()
        depth, total = pick(r, [2, 3, 4, 5, 6, 8]), 1
        for k in range(depth):
            ids.append(str(k))
            o = copy.deepcopy(base) if maybe(r, .7) else op()
            env['nested'][str(k)] = o
            total *= max(1, len(re.findall('<< ?rec' if o['fn'] == 'creole2html' else '<[a-z]', o['src'])))
            if total > 60:
                break
        tasks = []
        for t in range(pick(r, [1, 1, 1, 2])):
            tasks.append([copy.deepcopy(base) if maybe(r, .8) else op() for _ in range(pick(r, [1, 1, 2]))])
        for o in list(env['nested'].values()) + [o for t in tasks for o in t]:
            u = o['opts'].get('unknown_emit')
            if isinstance(u, dict):
                u['rec'] = list(ids)
        plan = {'env': env, 'tasks': tasks, 'switches': random_switches(r, tasks) if len(tasks) > 1 else [], 'first': 0}
        return copy.deepcopy(plan)

    def generate(self, r, tier):
        if maybe(r, .25):
            return self.recursive(r)
        depth = pick(r, [1, 1, 2, 3])
        nested = {}
        env = {'macros': {}}
        names = ['n0', 'n1', 'n2', 'n3'][:pick(r, [1, 2, 3, 4])]
        ids = [str(i) for i in range(len(names))]
        # nested op i may use macros that nest ops > i
        shared = maybe(r, .6)
        cont = gen.behaviours(r)
        cont['macros'].update({nm: {'b': 'nest', 'id': i} for nm, i in zip(names, ids)})
        if shared:
            env['macros']['m0'] = cont
        else:
            env['macros']['m0'] = cont
            env['macros']['m1'] = gen.behaviours(r)
        level = {}
        for k, i in enumerate(ids):
            level[i] = k if depth > 1 else len(ids)
            usable = [nm for nm, q in zip(names, ids) if int(q) > k] if k + 1 < len(ids) and k + 1 < depth else []
            fn = pick(r, ['creole2html'] * 4 + gen.HTML_FNS + ['rest2html'])
            tok = f'N{i}x'
            if fn == 'creole2html':
                op = {'fn': fn, 'src': gen.doc(r, 'creole', tok, pick(r, [1, 2, 3]), macros=[m for m in gen.MACROS] + usable * 3), 'opts': gen.gen_opts(r, fn, {})}
                if maybe(r, .8):
                    op['opts']['macros'] = pick(r, sorted(env['macros'])) if maybe(r, .8) else gen.behaviours(r)
                op['opts'].pop('debug', None)
            else:
                op = gen.gen_op(r, {}, tok, fn=fn, size=pick(r, [1, 2]))
                op['opts'].pop('debug', None)
                if fn in gen.HTML_FNS and usable and maybe(r, .6):
                    op['opts']['unknown_emit'] = {'nest': pick(r, ids[k + 1:])}
            nested[i] = op
        env['nested'] = nested
        tasks = []
        for t in range(pick(r, [1, 1, 1, 2])):
            fn = pick(r, ['creole2html', 'creole2html', 'html2creole', 'html2rest', 'html2textile', 'html2markdown'])
            if fn == 'creole2html':
                op = {'fn': fn, 'src': gen.doc(r, 'creole', f'o{t}x', pick(r, [2, 3, 4, 5]), macros=names * 3 + gen.MACROS), 'opts': gen.gen_opts(r, fn, {})}
                op['opts'].pop('debug', None)
                op['opts']['macros'] = 'm0'
                if not any('<<' + n in op['src'] for n in names):
                    op['src'] += f'\n\n<<{pick(r, names)}>>\n\n= {pick(r, gen.HEADS)}'
            else:
                op = {'fn': fn, 'src': gen.doc(r, 'html', f'o{t}x', pick(r, [2, 3, 4]), swarm=maybe(r, .5)), 'opts': {'unknown_emit': {'nest': pick(r, ids), 'children': maybe(r, .8)}}}
                if '<x-y' not in op['src']:
                    op['src'] += f'<p>a <x-y k="v">{pick(r, gen.TEXTS)}</x-y> <a href="/a">foo</a></p>'
            row = [op]
            if maybe(r, .4):
                row.append(gen.sibling(r, op, {}) if maybe(r, .3) else copy.deepcopy(op))
                row[-1]['opts'] = copy.deepcopy(op['opts']) if row[-1]['fn'] == op['fn'] else {}
            tasks.append(row)
        plan = {'env': env, 'tasks': tasks, 'switches': random_switches(r, tasks) if len(tasks) > 1 else [], 'first': 0}
        return self.acyclic(plan)

    def acyclic(self, plan):
        """A nested op must only reach ops with a higher number: otherwise it would never end."""
        env = plan['env']
        for i, op in list(env['nested'].items()):
            o = op['opts']
            m = o.get('macros')
            if isinstance(m, str):
                spec = env['macros'][m]
                if any(b['b'] == 'nest' and int(b['id']) <= int(i) and f'<<{n}' in op['src'].replace('<< ', '<<') for n, b in spec['macros'].items()):
                    for n, b in spec['macros'].items():
                        if b['b'] == 'nest' and int(b['id']) <= int(i):
                            op['src'] = op['src'].replace('<<' + n, '<<nope')
        return plan

    def expected_nested(self, plan, ctx):
        env = plan['env']
        const = {}
        for i in sorted(env['nested'], key=int, reverse=True):
            spec = {'macros': env['macros'], 'nested_const': dict(const)}
            rec = env['macros'].get('m0', {}).get('macros', {}).get('rec')
            if rec:
                spec['depth0'] = int(i) + 1
            # references of nested ops: everything deeper is a constant
            const[i] = ctx.refs.get(env['nested'][i], spec, trace=False)[0]
        return const

    def execute(self, plan, ctx):
        env = plan['env']
        try:
            const = self.expected_nested(plan, ctx)
        except KeyError as e:
            raise core.HarnessError(f'cyclic plan: {e}')
        refenv = {'macros': env['macros'], 'nested_const': const}
        ref = [[ctx.refs.get(op, refenv) for op in t] for t in plan['tasks']]
        switches = {}
        for t, j, ppm, target in plan.get('switches', ()):
            if t < len(ref) and j < len(ref[t]) and ref[t][j][1]:
                ev = -1 if ppm == PPM else conc.at(ppm, ref[t][j][1], ref[t][j][3])
                switches.setdefault((t, j), {})[ev] = target
        try:
            res = core.in_fork(conc.run_tasks, env, plan['tasks'], switches, {}, False, 0, 3000000, ())
        except core.Hang as e:
            return Violation('hang', str(e)), self.new_stats()
        st = self.stats_of(plan, res, ref)
        inner = [x for rows in res['nested'] for x in rows]
        st['nested_conversions'] = len(inner)
        st['nontrivial'] = core.jhash([plan['tasks'], plan['env']]) if inner else None
        for i, out in inner:
            if out != const[i]:
                return Violation('inner', f'conversion {i} inside a callback: {diff_outcome(out, const[i])}'), st
        return self.compare(plan, res, ref), st

    def shrink(self, plan):
        yield from shrink.task_plan(plan)
        for i, op in plan['env']['nested'].items():
            for v in shrink.op_variants(op):
                p = copy.deepcopy(plan)
                p['env']['nested'][i] = v
                yield p


def many_victims(r, env, pool):
    """20-120 times the same few small conversions."""
    kinds = []
    for _ in range(pick(r, [1, 1, 2])):
        if maybe(r, .3):
            kinds.append(copy.deepcopy(pick(r, pick(r, pool))))
        else:
            fn = pick(r, gen.FNS)
            d = {'creole': gen.Creole, 'html': gen.Html, 'rest': gen.Rest}[gen.LANG.get(fn, 'html')](r, 'my', 1)
            kinds.append({'fn': fn, 'src': pick(r, [d.list, d.table, d.block, d.make])() if fn != 'rest2html' else d.make(), 'opts': gen.gen_opts(r, fn, env)})
            kinds[-1]['opts'].pop('debug', None)
    n = pick(r, [20, 40, 40, 70, 120])
    return [copy.deepcopy(pick(r, kinds)) for _ in range(n)]


def many_faults(r, n, names):
    p = r.randrange(PPM)
    spread = pick(r, [PPM, PPM, PPM // 4, 3])
    return [[0, j, min(PPM - 1, max(0, p + r.randrange(-spread, spread))) if spread < PPM else conc.place(r), pick(r, names)] for j in range(n)]


INTERRUPTS = ['KeyboardInterrupt', 'KeyboardInterrupt', 'SystemExit', 'Cancelled', 'CancelledError']


@register
class C04(TaskScenario):
    pid = 'C04'
    runs = {'quick': 5500, 'thorough': 60000}
    rule = ('an interrupt-type exception raised at a random executed line/opcode of a conversion (library, html.parser, shlex, pygments '
            'frames), followed by and interleaved with other conversions; non-trivial: it was delivered inside the conversion; distinct by '
            '(exception, code position, operation)')

    def generate(self, r, tier):
        env, pool = op_pool(r.group, 3)
        if maybe(r.group, .4):  # the macros with broad exception handling
            victim = {'fn': 'creole2html', 'src': gen.doc(r.group, 'creole', 'vk', pick(r.group, [1, 2])), 'opts': {'macros': gen.behaviours(r.group)}}
            victim['opts']['macros']['macros']['code'] = {'b': 'code'}
            name = pick(r.group, ['.py', 'js', 'unknown', '.', 'x.y', ''])
            victim['src'] += f'\n\n<<code ext="{name}">>\nx = 1\nfor y in z: pass\n<</code>>'
            pool.append([victim, victim, pool[0][0]])
        if maybe(r, .03):
            return self.many(r, env, pool)
        fam = pick(r, pool)
        victim = copy.deepcopy(pick(r, fam))
        follow = [copy.deepcopy(victim)]
        for k in range(r.randrange(1, 4)):
            follow.append(copy.deepcopy(pick(r, fam)) if maybe(r, .7) else copy.deepcopy(pick(r, pick(r, pool))))
        tasks = [[victim] + follow]
        faults = [[0, 0, conc.place(r), pick(r, INTERRUPTS)]]
        if maybe(r, .2) and len(follow) > 1:
            faults.append([0, 1, conc.place(r), pick(r, INTERRUPTS)])
        switches = []
        if maybe(r, .35):
            tasks.append([copy.deepcopy(pick(r, fam if maybe(r, .7) else pick(r, pool))) for _ in range(pick(r, [1, 2]))])
            switches = random_switches(r, tasks)
        return {'env': env, 'tasks': tasks, 'faults': faults, 'switches': switches, 'opcode': maybe(r.group, .2), 'extra': maybe(r.group, .4), 'first': 0}

    def many(self, r, env, pool):
        victims = many_victims(r, env, pool)
        n = len(victims)
        return {'env': env, 'tasks': [victims + [copy.deepcopy(pick(r, victims)) for _ in range(2)] + [copy.deepcopy(pick(r, pick(r, pool)))]],
                'faults': many_faults(r, n, INTERRUPTS), 'switches': [], 'opcode': False, 'extra': False, 'first': 0}

    def execute(self, plan, ctx):
        res, ref = conc.execute(plan, ctx.refs)
        st = self.stats_of(plan, res, ref)
        st['nontrivial'] = core.jhash([res['fired'], plan['tasks'][0][0]]) if res['fired'] else None
        if res['problem']:
            return Violation(res['problem'][0], res['problem'][1]), st
        delivered = {(i, j): (name, site) for i, j, name, site in res['delivered']}
        planned = {(f[0], f[1]): f[3] for f in plan['faults']}
        for i, row in enumerate(res['results']):
            for j, got in enumerate(row):
                want = ref[i][j][0]
                if (i, j) in delivered:
                    name, site = delivered[i, j]
                    if got != core.outcome_of_exception(ops.make_exc(planned[i, j], f'injected {i} {j}')):
                        return Violation('swallowed', f'{name} raised inside {plan["tasks"][i][j]["fn"]} at {site} ended as {core.short(got)}'), st
                elif got != want:
                    return Violation('result', f'task {i} operation {j} {plan["tasks"][i][j]["fn"]} around an interrupt: {diff_outcome(got, want)}'), st
        return None, st


@register
class C05(TaskScenario):
    pid = 'C05'
    runs = {'quick': 10500, 'thorough': 60000}
    rule = ('MemoryError at a random executed line/opcode of a conversion, or a recursion limit that leaves a random stack depth, followed '
            'by other conversions; non-trivial: the failure took place inside the conversion; distinct by (position or depth, operation)')

    def generate(self, r, tier):
        env = {'macros': {'m0': gen.behaviours(r)}}
        env['macros']['m0']['macros'].pop('code', None)
        if maybe(r, .02):
            victims = many_victims(r, env, [[gen.gen_op(r, env, 'vk', size=1)]])
            for v in victims:
                if isinstance(v['opts'].get('macros'), dict):
                    v['opts'].pop('macros')
            n = len(victims)
            return {'env': env, 'tasks': [victims + [copy.deepcopy(pick(r, victims)) for _ in range(2)] + [gen.gen_op(r, env, 'fk')]], 'switches': [],
                    'faults': many_faults(r, n, ['MemoryError']), 'opcode': False, 'extra': False, 'first': 0}
        deep = maybe(r, .35)
        if deep:
            fn = pick(r, gen.FNS)
            victim = gen.gen_op(r, {}, 'vk', fn=fn, size=pick(r, [1, 1, 2]), macros=['nope', 'toc'] if gen.LANG.get(fn) == 'creole' else None)
            victim['opts'].pop('macros', None)
        else:
            victim = gen.gen_op(r, env, 'vk', size=pick(r, [1, 1, 2, 3]))
            if isinstance(victim['opts'].get('macros'), dict):
                victim['opts']['macros']['macros'].pop('code', None)
        follow = [copy.deepcopy(victim)] + [gen.sibling(r, victim, env) if maybe(r, .6) else gen.gen_op(r, env, f'fk{k}n') for k in range(r.randrange(0, 3))]
        plan = {'env': env, 'tasks': [[victim] + follow], 'switches': [], 'opcode': maybe(r, .25) and not deep, 'extra': maybe(r, .3) and not deep, 'first': 0}
        if deep:
            plan['depth'] = r.randrange(1, 70)
            plan['faults'] = []
        else:
            plan['faults'] = [[0, 0, conc.place(r), 'MemoryError']]
        return plan

    def execute(self, plan, ctx):
        if 'depth' in plan:
            return self.execute_depth(plan, ctx)
        res, ref = conc.execute(plan, ctx.refs)
        st = self.stats_of(plan, res, ref)
        st['nontrivial'] = core.jhash([res['fired'], plan['tasks'][0][0]]) if res['fired'] else None
        if res['problem']:
            return Violation(res['problem'][0], res['problem'][1]), st
        hit = {f[1]: i for i, f in enumerate(plan['faults'])}
        sites = {j: site for _, j, _, site in res['delivered']}
        for j, got in enumerate(res['results'][0]):
            op = plan['tasks'][0][j]
            want = ref[0][j][0]
            if got == want:
                continue
            if j in hit and j in sites:
                if got[0] == 'exc' and got[1] == 'builtins.MemoryError':
                    continue
                site = sites[j]
                if got[0] == 'ok' and want[0] == 'ok':
                    if op['opts'].get('verbose', 1) and got in self.reports(plan, op, ref[0][j], j):
                        st['macro_reports'] = 1
                        continue
                    return Violation('wrong document', f'MemoryError in {op["fn"]} at {site}: {diff_outcome(got, want)}'), st
                if got[0] == 'exc' and want[0] == 'ok':
                    return Violation('wrong error', f'MemoryError in {op["fn"]} at {site}: {diff_outcome(got, want)}'), st
                if want[0] == 'exc' and got[0] == 'ok':
                    return Violation('wrong document', f'MemoryError in {op["fn"]} at {site}: {diff_outcome(got, want)}'), st
                continue  # another error while failing anyway
            return Violation('result', f'operation {j} {plan["tasks"][0][j]["fn"]} after a MemoryError: {diff_outcome(got, want)}'), st
        return None, st

    def reports(self, plan, op, ref, j):
        """The documents in which one macro call reports the MemoryError."""
        found = []
        for k in range(len(ref[2])):
            found.append(core.in_fork(with_failing_call, plan['env'], op, k, 'MemoryError', f'injected 0 {j}'))
        for k in range(str(op['src']).count('<<toc')):  # the table of contents is a macro too
            for after in (False, True):
                found.append(core.in_fork(with_failing_toc, plan['env'], op, k, after, 'MemoryError', f'injected 0 {j}'))
        return found

    def execute_depth(self, plan, ctx):
        spec = plan['env']
        ref = [[ctx.refs.get(op, spec, trace=False) for op in plan['tasks'][0]]]
        res = core.in_fork(run_depth, spec, plan['tasks'][0], plan['depth'])
        st = self.new_stats()
        st['ops'] = len(res)
        hit = res[0] != ref[0][0][0]
        st['nontrivial'] = core.jhash([plan['depth'], plan['tasks'][0][0]]) if hit else None
        if hit:
            st['faults']['stack exhausted'] = 1
        for j, got in enumerate(res):
            want = ref[0][j][0]
            if got == want or (j == 0 and got[0] == 'exc' and got[1] == 'builtins.RecursionError'):
                continue
            if j == 0 and want[0] == 'exc' and got[0] == 'exc':
                continue
            return Violation('wrong document' if j == 0 else 'result',
                             f'operation {j} {plan["tasks"][0][j]["fn"]} with {plan["depth"]} stack frames left for the first: {diff_outcome(got, want)}'), st
        return None, st

    def shrink(self, plan):
        return shrink.task_plan(plan)


def with_failing_call(spec, op, k, name, msg):
    core.ambient_reset()
    env = ops.Env(spec)
    env.fail_call = (k, lambda: ops.make_exc(name, msg))
    return ops.outcome(op, env)


def with_failing_toc(spec, op, k, after, name, msg):
    core.ambient_reset()
    from creole.emitter import creol2html_emitter
    toc = getattr(creol2html_emitter, 'TableOfContent', None)
    if toc is None:
        return None
    real = toc.__call__
    calls = []

    def call(self, *args, **kwargs):
        calls.append(1)
        if len(calls) - 1 != k:
            return real(self, *args, **kwargs)
        if after:
            real(self, *args, **kwargs)
        raise ops.make_exc(name, msg)
    toc.__call__ = call
    return ops.outcome(op, ops.Env(spec))


def run_depth(spec, row, depth):
    import sys
    core.ambient_reset()
    env = ops.Env(spec)
    out = []
    for j, op in enumerate(row):
        if j == 0:
            d, f = 0, sys._getframe()
            while f:
                d += 1
                f = f.f_back
            old = sys.getrecursionlimit()
            # ops.outcome + run_op + depth library frames
            sys.setrecursionlimit(d + 3 + depth)
            try:
                r = ops.outcome(op, env)
            except RecursionError as e:
                r = core.outcome_of_exception(e)
            finally:
                sys.setrecursionlimit(old)
        else:
            r = ops.outcome(op, env)
        out.append(r)
    return out


@register
class C07(TaskScenario):
    pid = 'C07'
    runs = {'quick': 7200, 'thorough': 50000}
    rule = ('1-2 document trees (parsed from generated creole or HTML), rendered by 1-4 simulated threads with all emitters, some renderings '
            'aborted half-way; non-trivial: a tree was rendered at least twice; distinct by plan and interleaving')

    def generate(self, r, tier):
        env = {'macros': {'m0': gen.behaviours(r)}, 'trees': {}}
        for i in range(pick(r, [1, 1, 2])):
            lang = pick(r, ['creole', 'html', 'html', 'html'])
            env['trees'][str(i)] = {'lang': lang, 'src': gen.doc(r, lang, f'T{i}x', pick(r, [1, 2, 3, 4]))}
            if lang == 'creole' and maybe(r, .3):
                env['trees'][str(i)]['wiki'] = True

        def op():
            k = pick(r, sorted(env['trees']))
            if env['trees'][k]['lang'] == 'creole':
                fmt = pick(r, ['html'] * 9 + ['rest'])
            else:
                fmt = pick(r, ['creole', 'rest', 'textile', 'markdown'] * 5 + ['html'])
            o = {}
            if fmt == 'html':
                o = gen.gen_opts(r, 'creole2html', {'macros': env['macros']})
                for x in ('block_rules', 'blog_line_breaks', 'debug'):
                    o.pop(x, None)
            else:
                if maybe(r, .6):
                    o['unknown_emit'] = pick(r, gen.UNKNOWN)
                if fmt in ('creole', 'markdown') and maybe(r, .3):
                    o['strict'] = True
                if maybe(r, .05):
                    o['debug'] = True
            return {'fn': 'emit', 'tree': k, 'fmt': fmt, 'opts': o}
        n = pick(r, [1, 1, 2, 2, 3, 4])
        tasks = [[op() for _ in range(pick(r, [2, 3, 4] if n == 1 else [1, 2, 3]))] for _ in range(n)]
        faults = []
        if n == 1 and maybe(r, .06):
            kinds = tasks[0]
            k = pick(r, [20, 40, 80])
            tasks = [[copy.deepcopy(pick(r, kinds)) for _ in range(k)] + kinds]
            faults = many_faults(r, k, ['RuntimeError', 'KeyboardInterrupt', 'MemoryError', 'ValueError'])
        elif maybe(r, .35):
            i = r.randrange(n)
            faults.append([i, r.randrange(len(tasks[i])), conc.place(r), pick(r, ['RuntimeError', 'KeyboardInterrupt', 'MemoryError', 'ValueError'])])
        return {'env': env, 'tasks': tasks, 'faults': faults, 'switches': random_switches(r, tasks) if n > 1 else [], 'opcode': maybe(r, .15), 'first': 0}

    def execute(self, plan, ctx):
        res, ref = conc.execute(plan, ctx.refs)
        st = self.stats_of(plan, res, ref)
        per = {}
        for t in plan['tasks']:
            for o in t:
                per[o['tree']] = per.get(o['tree'], 0) + 1
        st['nontrivial'] = core.jhash([plan['tasks'], plan['env'], res['hash']]) if max(per.values()) > 1 else None
        skip = {(f[0], f[1]) for f in plan.get('faults', ())}
        v = self.compare(plan, res, ref, skip)
        if v is None and res['trees'][0] != res['trees'][1]:
            v = Violation('tree', f'rendering changed the tree: before {core.short(res["trees"][0])} after {core.short(res["trees"][1])}')
        return v, st

    def describe(self, plan):
        d = super().describe(plan)
        d['tasks'] = [[f"{o['fmt']} of tree {o['tree']} {o['opts']}" for o in t] for t in plan['tasks']]
        d['trees'] = {k: core.short(v['src'], 120) for k, v in plan['env']['trees'].items()}
        return d

    def shrink(self, plan):
        yield from shrink.task_plan(plan)
        for k, v in plan['env']['trees'].items():
            for s in shrink.texts(v['src']):
                p = copy.deepcopy(plan)
                p['env']['trees'][k]['src'] = s
                yield p
