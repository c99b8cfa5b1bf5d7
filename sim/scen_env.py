"""C08-C11: what surrounds a conversion."""
import copy
import os
import re
import shutil
import sys
import tempfile

from sim import ambient, core, gen, iowatch, ops, shrink
from sim.gen import maybe, pick
from sim.scenario import Scenario, Violation, register

ARGVS = [['prog'], ['setup.py', 'check', '--debug'], ['setup.py', 'sdist', '-v'], [''], ['-c', '--verbose', '2', '--strict'], ['/usr/bin/pytest']]
BAIT = {'macros.py': 'raise SystemExit("bait imported")\n', 'creole.cfg': '[creole]\nstrict=1\n', '.creolerc': 'debug=1\n', 'README.creole': '= bait =\n', 'shlex.py': 'raise SystemExit("bait")\n',
        'inspect.py': 'raise SystemExit("bait")\n', 'pyproject.toml': '[tool.creole]\ndebug = true\n', 'setup.cfg': '[creole]\ndebug=1\n', 'html': 'bait', 'i.png': 'bait', '.env': 'DEBUG=1\n', 'tox.ini': '[creole]\n'}


@register
class C08(Scenario):
    pid = 'C08'
    runs = {'quick': 26000, 'thorough': 400000}
    rule = ('1-3 generated conversions run in a pristine process of another interpreter (5 combinations of hash seed, locale, environment, command line and clock at import time) under drawn '
            'ambient settings (time zone, clock with jumps at every reading, locale, environment variables incl. every one the library asks for, argv, cwd with odd files, thread, gc, warning filters, '
            'random state, standard streams, identity of process, host and user, trace functions, interpreter settings, loaded modules, threads, a running event loop; one of the interpreters with -O), compared with the plain process; non-trivial: distinct (operations, settings) with a converted document')
    real = ['creole.* converters in separately started interpreters', 'docutils', 'pygments']
    stub = ['clock (time, datetime)', 'process, host and user identity', 'standard streams', 'os.environ for names the library asks for', 'locale queries']
    assumptions = ["docutils' configuration files and its date directive are excluded for rest2html", 'warnings raised as errors are applied to the converters without docutils', 'debug is off (C10)']
    scratch = None

    def setup(self):
        self.scratch = tempfile.mkdtemp(prefix='sim-c08-')
        for i, names in enumerate((sorted(BAIT), sorted(BAIT)[:5])):
            d = os.path.join(self.scratch, f'd{i}')
            os.mkdir(d)
            for n in names:
                with open(os.path.join(d, n), 'w') as f:
                    f.write(BAIT[n])

    def teardown(self):
        if self.scratch:
            shutil.rmtree(self.scratch, ignore_errors=True)

    def generate(self, r, tier):
        g = r.group
        env = gen.gen_env(g)
        n = pick(r, [1, 2, 2, 3])
        key = [gen.gen_op(g, env, f'tk{k}', size=pick(g, [1, 2, 3, 5])) for k in range(4)]
        lst = [copy.deepcopy(pick(r, key)) for _ in range(n)]
        if maybe(r, .4):
            lst[0] = gen.gen_op(r, env, 'tz', size=pick(r, [2, 4, 7]))
        for o in lst:
            o['opts'].pop('debug', None)
        amb = {}
        for name, p, f in (('tz', .4, lambda: pick(r, ['Asia/Kolkata', 'America/St_Johns', 'UTC', 'XXX-14', 'nonsense'])),
                           ('random', .3, lambda: r.randrange(1000)),
                           ('argv', .4, lambda: pick(r, ARGVS)),
                           ('env', .4, lambda: {pick(r, ['DEBUG', 'CREOLE_DEBUG', 'LANG', 'LC_ALL', 'COLUMNS', 'HOME', 'NO_COLOR', 'SOURCE_DATE_EPOCH', 'PYTHONIOENCODING', 'TERM', 'USER']):
                                                pick(r, ['1', '0', '', 'C', 'de_DE.UTF-8', '/nonexistent']) for _ in range(2)}),
                           ('magic', .5, lambda: pick(r, ['1', '0', '', 'x', 'true'])),
                           ('cwd', .4, lambda: pick(r, ['d0', 'd1', '/', 'gone'])),
                           ('gc', .3, lambda: pick(r, ['off', 'often'])),
                           ('warn', .4, lambda: pick(r, ['error', 'error', 'always', 'ignore'])),
                           ('locale', .4, lambda: pick(r, ['ascii', 'cp1252', 'utf-8', 'ISO-8859-9'])),
                           ('setlocale', .2, lambda: pick(r, ['C', 'C.utf8', 'POSIX'])),
                           ('streams', .3, lambda: {k: pick(r, ['tty', 'ascii', 'none', 'latin-1', 'utf-16', 'utf-8']) for k in ('stdin', 'stdout', 'stderr')}),
                           ('who', .3, lambda: [pick(r, [1, 2, 77, 4242, 65536]), pick(r, ['root', 'runner', 'ci', ''])]),
                           ('tracing', .15, lambda: pick(r, [['trace'], ['profile'], ['trace', 'profile']])),
                           ('settings', .3, lambda: sorted({pick(r, ['decimal', 'logging', 'debuglog', 'switch', 'deeper', 'umask', 'stack', 'digits', 'shallow', 'interactive', 'interactive', 'nobytecode', 'main', 'hooks']) for _ in range(4)})),
                           ('modules', .3, lambda: sorted({pick(r, ['pytest', '_pytest', 'unittest', 'doctest', 'django', 'sphinx', 'IPython', 'ipykernel', 'coverage', 'gevent', 'nose', 'pdb', 'idlelib', 'lxml', 'bs4', 'html5lib']) for _ in range(3)})),
                           ('loop', .1, lambda: True),
                           ('threads', .1, lambda: pick(r, [1, 3])),
                           ('thread', .3, lambda: pick(r, ['MainThread', 'worker-1', ''])),
                           ('clock', .4, lambda: [pick(r, [0, 1, 1e9, 4e9, 253402300000]), pick(r, [0, 1e-6, 1, 5000, 86400 * 400, -3600])])):
            if maybe(r, p):
                amb[name] = f()
        if any(o['fn'] == 'rest2html' for o in lst) and amb.get('warn') == 'error':
            amb['warn'] = 'always'
        if amb.get('streams', {}).get('stderr') == 'none' and any(o['opts'].get('verbose') == 2 for o in lst):
            amb['streams']['stderr'] = 'ascii'  # diagnostics that cannot be written: C10
        if amb.get('clock', [0])[0] > 1e11:
            amb['clock'][1] = min(1, abs(amb['clock'][1]))
        if amb.get('clock', [1, 1])[1] < 0:
            amb['clock'][0] = 1e9
        return {'env': env, 'ops': lst, 'amb': amb, 'server': pick(r, sorted(ambient.VARIANTS) + [None])}

    def execute(self, plan, ctx):
        st = self.new_stats()
        ref = [ctx.refs.get(o, plan['env'], trace=False)[0] for o in plan['ops']]
        amb = dict(plan['amb'])
        if amb.get('cwd') in ('d0', 'd1'):
            amb['cwd'] = os.path.join(self.scratch, amb['cwd'])
        elif amb.get('cwd') == 'gone':
            amb.pop('cwd')
        if plan['server']:
            servers = ctx.cache.setdefault('servers', {})
            if plan['server'] not in servers:
                servers[plan['server']] = ambient.Server(plan['server'])
            out, asked = servers[plan['server']].ask({'spec': plan['env'], 'ops': plan['ops'], 'amb': amb})
        else:
            out, asked = core.in_fork(ambient.run, plan['env'], plan['ops'], amb)
        for k in plan['amb']:
            st['faults'][k] = 1
        st['faults'][f'interpreter {plan["server"] or "same"}'] = 1
        st['conversions'] = len(out)
        st['nontrivial'] = core.jhash(plan) if plan['amb'] and any(o[0] == 'ok' and o[1].strip() for o in out) else None
        st['distinct']['settings'] = {core.jhash([plan['server'], plan['amb']])}
        for op, a, b in zip(plan['ops'], ref, out):
            if a != b:
                return Violation('ambient', f'{op["fn"]}: with {plan["server"]} {plan["amb"]} (environment variables asked for: {asked}) got {core.short(b)}, plain process got {core.short(a)}'), st
        return None, st

    def describe(self, plan):
        return {'ops': [[o['fn'], core.short(o['src'], 200), o['opts']] for o in plan['ops']], 'amb': plan['amb'], 'server': plan['server']}

    def shrink(self, plan):
        for i in range(len(plan['ops'])):
            if len(plan['ops']) > 1:
                yield shrink.replaced(plan, ops=shrink.without(plan['ops'], i))
        if plan['server']:
            yield shrink.replaced(plan, server=None)
        for k in sorted(plan['amb']):
            yield shrink.replaced(plan, amb={a: b for a, b in plan['amb'].items() if a != k})
        for i, op in enumerate(plan['ops']):
            for o in shrink.op_variants(op):
                yield shrink.replaced(plan, ops=plan['ops'][:i] + [o] + plan['ops'][i + 1:])


# ---------------------------------------------------------------------------

STREAMS = ['record', 'none', 'closed', 'EPIPE', 'ENOSPC', 'EIO', 'ascii', 'fdclosed', 'tty']


def make_stream(kind, fail_at=1):
    if kind == 'record':
        return iowatch.Stream()
    if kind == 'tty':
        return iowatch.Stream(kind='tty')
    if kind == 'none':
        return None
    if kind == 'ascii':
        return iowatch.Stream(encoding='ascii')
    if kind == 'fdclosed':
        return iowatch.Stream(fail_at=fail_at, kind='EBADF')
    return iowatch.Stream(fail_at=fail_at, kind=kind)


@register
class C09(Scenario):
    pid = 'C09'
    runs = {'quick': 19600, 'thorough': 250000}
    rule = ('1-3 generated conversions in a pristine process in which every I/O attempt is recorded and denied (audit hook; stat calls of the library), file descriptors 1 and 2 are captured or closed and '
            'sys.stdout/sys.stderr are working, None, closed, failing with EPIPE/ENOSPC/EIO or ASCII only, with Python\'s default warning filters; non-trivial: distinct plan with a converted document')
    real = ['creole.* converters', 'docutils', 'pygments', 'warnings and logging modules']
    stub = ['standard streams', 'all file, socket and process access (denied)']
    assumptions = ["reading Python packages and docutils' own configuration files is allowed", "docutils' reports on invalid ReST are switched off (report_level=5, halt_level=5)"]

    def generate(self, r, tier):
        g = r.group
        env = gen.gen_env(g)
        pool = [self.op(g, env) for _ in range(4)]
        lst = [copy.deepcopy(pick(r, pool)) if maybe(r, .4) else self.op(r, env) for _ in range(pick(r, [1, 1, 2, 3]))]
        return {'env': env, 'ops': lst, 'out': pick(r, STREAMS), 'err': pick(r, STREAMS), 'fd': pick(r, ['capture', 'capture', 'closed']), 'stdin': pick(r, ['none', 'keep', 'closed']),
                'dunder': maybe(r, .5)}

    def op(self, r, env):
        op = gen.gen_op(r, env, 'tk', size=pick(r, [1, 2, 3, 5]))
        o = op['opts']
        o.pop('debug', None)
        if o.get('verbose') == 2:
            o['verbose'] = 1
        if op['fn'] == 'rest2html':
            o['rest'] = dict(o.get('rest') or {}, report_level=5, halt_level=5)
        return op

    def execute(self, plan, ctx):
        st = self.new_stats()
        ref = [ctx.refs.get(o, plan['env'], trace=False)[0] for o in plan['ops']]
        out, texts, fds, seen = core.in_fork(self.run, plan)
        st['faults'] = {f'stdout {plan["out"]}': 1, f'stderr {plan["err"]}': 1, f'fd {plan["fd"]}': 1}
        st['conversions'] = len(out)
        st['nontrivial'] = core.jhash(plan) if any(o[0] == 'ok' and o[1].strip() for o in out) else None
        names = [o['fn'] for o in plan['ops']]
        if seen:
            return Violation('io', f'{names}: {core.short(seen)}'), st
        for n, t in zip(('sys.stdout', 'sys.stderr'), texts):
            if t:
                return Violation('output', f'{names} wrote to {n}: {core.short(t)!r}'), st
        for n, t in zip(('stdout', 'stderr'), fds):
            if t:
                return Violation('output', f'{names} wrote to file descriptor of {n}: {core.short(t)!r}'), st
        for op, a, b in zip(plan['ops'], ref, out):
            if a != b:
                return Violation('result', f'{op["fn"]} with streams {plan["out"]}/{plan["err"]}/fd {plan["fd"]}: got {core.short(b)}, with working streams {core.short(a)}'), st
        return None, st

    def run(self, plan):
        import warnings
        core.ambient_reset()
        warnings.resetwarnings()
        for a, c, m in (('ignore', DeprecationWarning, ''), ('default', DeprecationWarning, '__main__'), ('ignore', PendingDeprecationWarning, ''), ('ignore', ImportWarning, ''), ('ignore', ResourceWarning, '')):
            warnings.filterwarnings(a, category=c, module=m)
        env = ops.Env(plan['env'])
        so, se = make_stream(plan['out']), make_stream(plan['err'])
        mem = []
        for fd in (1, 2):
            m = os.memfd_create(f'fd{fd}')
            os.dup2(m, fd)
            mem.append(m)
        if plan['fd'] == 'closed':
            os.close(1)
            os.close(2)
        if plan['stdin'] == 'none':
            sys.stdin = None
        elif plan['stdin'] == 'closed':
            sys.stdin = iowatch.Stream(fail_at=0, kind='closed')
        watch = iowatch.Watch()
        watch.install()
        sys.stdout, sys.stderr = so, se
        if plan['dunder']:
            sys.__stdout__, sys.__stderr__ = so, se
        out = []
        for op in plan['ops']:
            watch.on = True
            try:
                try:
                    r = ops.run_op(op, env)
                finally:
                    watch.on = False
                out.append(['ok', core.norm(r)])
            except core.HarnessError:
                raise
            except BaseException as e:
                out.append(core.outcome_of_exception(e))
        texts = [s.text() if s is not None else '' for s in (so, se)]
        for s, k in ((so, 0), (se, 1)):
            if s is not None and s.failed and not texts[k]:
                texts[k] = f'<{s.n} failing writes>'
        fds = []
        for m in mem:
            os.lseek(m, 0, os.SEEK_SET)
            fds.append(os.read(m, 4000).decode('utf-8', 'replace'))
        return out, texts, fds, watch.seen

    def describe(self, plan):
        return dict(plan, env=None, ops=[[o['fn'], core.short(o['src'], 200), o['opts']] for o in plan['ops']])

    def shrink(self, plan):
        for i in range(len(plan['ops'])):
            if len(plan['ops']) > 1:
                yield shrink.replaced(plan, ops=shrink.without(plan['ops'], i))
        for k, v in (('out', 'record'), ('err', 'record'), ('fd', 'capture'), ('stdin', 'keep'), ('dunder', False)):
            if plan[k] != v:
                yield shrink.replaced(plan, **{k: v})
        for i, op in enumerate(plan['ops']):
            for o in shrink.op_variants(op):
                if op['fn'] == 'rest2html' and not {'report_level': 5, 'halt_level': 5}.items() <= (o['opts'].get('rest') or {}).items():
                    continue
                yield shrink.replaced(plan, ops=plan['ops'][:i] + [o] + plan['ops'][i + 1:])


# ---------------------------------------------------------------------------

def plain(out):
    return [out[0]] + [re.sub(r" - returns: .*?, type <class '[^']*'>", '', x, flags=re.S) for x in out[1:]]


@register
class C10(Scenario):
    pid = 'C10'
    runs = {'quick': 28800, 'thorough': 300000}
    rule = ('a generated conversion with debug on or verbose=2 while the standard streams (or the stream passed in) work, or fail at a drawn write of the diagnostics with EPIPE/ENOSPC/EIO/closed/ASCII-only, '
            'compared with the same call without diagnostics; non-trivial: distinct plan in which diagnostics were written')
    real = ['creole.* converters with their diagnostics']
    stub = ['standard streams and the stderr argument']
    assumptions = ['verbose=2 may add the returned object to the error report of a macro that returns something else than text']

    def generate(self, r, tier):
        g = r.group
        env = gen.gen_env(g)
        fn = pick(r, ['creole2html'] * 3 + gen.HTML_FNS)
        op = gen.gen_op(r, env, 'tk', fn=fn, size=pick(r, [1, 2, 3]))
        o = op['opts']
        for k in ('debug', 'verbose'):
            o.pop(k, None)
        diag = {}
        if fn == 'creole2html':
            if maybe(r, .5):
                diag['debug'] = True
            if 'debug' not in diag or maybe(r, .5):
                diag['verbose'] = 2
        else:
            diag['debug'] = True
        fault = None
        if maybe(r, .6):
            fault = {'stream': r.randrange(1000), 'at': r.randrange(1000000), 'kind': pick(r, ['EPIPE', 'ENOSPC', 'EIO', 'closed', 'ascii', 'ascii', 'none']), 'sticky': maybe(r, .5)}
        return {'env': env, 'op': op, 'diag': diag, 'own': maybe(r, .5), 'fault': fault}

    def execute(self, plan, ctx):
        st = self.new_stats()
        base = ctx.refs.get(plan['op'], plan['env'], trace=False)[0]
        good, texts, counts, _ = core.in_fork(self.run, plan, None)
        st['diagnostic_writes'] = sum(counts)
        base, good = plain(base), plain(good)
        if base != good:
            return Violation('document', f'{plan["op"]["fn"]} with {plan["diag"]}: {core.short(good)}, without: {core.short(base)}'), st
        own = 'stderr' in self.kwargs(plan)
        if plan['diag'].get('verbose') != 2 and own and texts[2]:
            return Violation('stream', f'stream passed as stderr was written without verbose=2: {core.short(texts[2])!r}'), st
        st['nontrivial'] = core.jhash(plan) if sum(counts) else None
        f = plan['fault']
        if f and sum(counts):
            live = [n for n, c in zip(('out', 'err', 'own'), counts) if c]
            if len(live) > 1:
                live.append('all')
            f = dict(f, stream=live[f['stream'] % len(live)])
            plan = dict(plan, fault=f)
            out, _, _, errs = core.in_fork(self.run, plan, counts)
            out = plain(out)
            st['faults'][f'{f["stream"]} {f["kind"]}'] = 1 if errs else 0
            if out != base and (out[0] == 'ok' or not errs or out not in errs):
                return Violation('faulty stream', f'{plan["op"]["fn"]} with {plan["diag"]} and {f} (stream errors {errs}): {core.short(out)}, without diagnostics: {core.short(base)}'), st
        return None, st

    def kwargs(self, plan):
        return {'stderr': True} if plan['op']['fn'] == 'creole2html' and plan['own'] else {}

    def run(self, plan, counts):
        core.ambient_reset()
        env = ops.Env(plan['env'])
        names = ['out', 'err', 'own']
        streams = {n: iowatch.Stream() for n in names}
        f = plan['fault']
        if counts is not None:
            for n, c in zip(names, counts):
                if f['stream'] in (n, 'all'):
                    at = 1 + f['at'] * c // 1000000
                    if f['kind'] == 'ascii':
                        streams[n] = RecordingErrors(encoding='ascii')
                    elif f['kind'] == 'none':
                        streams[n] = None if n != 'own' else streams[n]
                    else:
                        streams[n] = RecordingErrors(fail_at=at, kind=f['kind'], sticky=f['sticky'])
        op = copy.deepcopy(plan['op'])
        op['opts'].update(plan['diag'])
        op['opts'].update(self.kwargs(plan))
        env.stderr = streams['own']
        sys.stdout, sys.stderr = streams['out'], streams['err']
        try:
            out = ['ok', core.norm(ops.run_op(op, env))]
        except core.HarnessError:
            raise
        except BaseException as e:
            out = core.outcome_of_exception(e)
        errs = []
        for s in streams.values():
            errs += getattr(s, 'errors_raised', [])
        if counts is not None and f['kind'] == 'none' and out[0] == 'exc':
            # a missing stream has no error of its own: attribute access on None
            if "'NoneType' object has no attribute" in out[2]:
                errs.append(out)
        return out, [s.text() if s else '' for s in streams.values()], [s.n if s else 0 for s in streams.values()], errs

    def describe(self, plan):
        return dict(plan, env=None, op=[plan['op']['fn'], core.short(plan['op']['src'], 300), plan['op']['opts']])

    def shrink(self, plan):
        if plan['fault']:
            yield shrink.replaced(plan, fault=None)
        for k in sorted(plan['diag']):
            if len(plan['diag']) > 1:
                yield shrink.replaced(plan, diag={a: b for a, b in plan['diag'].items() if a != k})
        for o in shrink.op_variants(plan['op']):
            yield shrink.replaced(plan, op=o)
        if plan['own']:
            yield shrink.replaced(plan, own=False)


class RecordingErrors(iowatch.Stream):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.errors_raised = []

    def write(self, s):
        try:
            return super().write(s)
        except Exception as e:
            self.errors_raised.append(core.outcome_of_exception(e))
            raise

    def flush(self):
        try:
            return super().flush()
        except Exception as e:
            self.errors_raised.append(core.outcome_of_exception(e))
            raise
