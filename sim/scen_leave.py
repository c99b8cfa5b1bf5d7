"""C25: conversions leave the process as they found it."""
import atexit
import builtins
import codecs
import copy
import csv
import ctypes
import decimal
import faulthandler
import gc
import importlib
import locale
import logging
import os
import random
import resource
import signal
import socket
import sys
import threading
import time
import tracemalloc
import warnings
import _thread

from sim import conc, core, gen, ops, sched, shrink
from sim.gen import maybe, pick
from sim.scen_mem import INTERRUPTS, TaskScenario, op_pool, random_switches
from sim.scenario import Violation, register

# tables and classes of other packages that a conversion has no business to change
FOREIGN = ['html', 'html.parser', 'html.entities', '_markupbase', 're', 'shlex', 'string', 'textwrap', 'inspect', 'urllib.parse', 'xml.sax.saxutils', 'json', 'difflib',
           'traceback', 'warnings', 'codecs', 'io', 'os.path', 'posixpath', 'functools', 'copy', 'docutils.core', 'docutils.nodes', 'docutils.io', 'docutils.frontend',
           'docutils.writers.html4css1', 'docutils.readers.standalone', 'docutils.parsers.rst', 'docutils.utils', 'pygments', 'pygments.lexers', 'pygments.formatters.html', 'mimetypes', 'random', 'os', 'time', 'itertools', 'collections', 'typing', 'docutils.parsers.rst.states',
           'docutils.statemachine', 'docutils.languages', 'docutils.parsers.rst.languages', 'pygments.lexer', 'pygments.util', 'pygments.styles', 'pygments.token']
CLASSES = [('html.parser', 'HTMLParser'), ('_markupbase', 'ParserBase'), ('docutils.writers.html4css1', 'HTMLTranslator'), ('docutils.writers.html4css1', 'Writer'),
           ('docutils.core', 'Publisher'), ('docutils.utils', 'Reporter'), ('pygments.formatters.html', 'HtmlFormatter'), ('shlex', 'shlex'),
           ('docutils.nodes', 'Node'), ('docutils.nodes', 'Element'), ('docutils.nodes', 'Text'), ('docutils.parsers.rst.states', 'Inliner'), ('docutils.parsers.rst.states', 'Body'),
           ('pygments.lexer', 'Lexer'), ('pygments.lexer', 'RegexLexer'), ('json', 'JSONEncoder')]
TABLES = [('html.entities', 'name2codepoint'), ('html.entities', 'codepoint2name'), ('html.entities', 'entitydefs'), ('html.entities', 'html5'), ('urllib.parse', 'uses_netloc'),
          ('urllib.parse', 'uses_relative'), ('docutils.frontend', 'OptionParser.settings_defaults'), ('docutils.writers.html4css1', 'Writer.settings_defaults'),
          ('docutils.parsers.rst', 'Parser.settings_defaults'), ('docutils.readers.standalone', 'Reader.settings_defaults'), ('html.parser', 'HTMLParser.CDATA_CONTENT_ELEMENTS'),
          ('pygments.lexers', 'LEXERS'), ('pygments.formatters', 'FORMATTERS'), ('pygments.styles', 'STYLE_MAP'), ('mimetypes', '_types_map_default'),
          ('docutils.nodes', 'node_class_names'), ('shlex', 'shlex.wordchars'), ('string', 'whitespace')]


def table(mod, path):
    o = sys.modules[mod]
    for part in path.split('.'):
        o = getattr(o, part, None)
    return core.jhash(sorted(map(repr, o.items())) if isinstance(o, dict) else repr(o))


class Observe:
    """What a process shares between its parts."""

    def __init__(self):
        for m in FOREIGN:
            importlib.import_module(m)
        self.loggers = set(logging.root.manager.loggerDict)
        # kept alive: an id that is compared must not be used again
        self.keep = [dict(vars(sys.modules[m])) for m in FOREIGN] + [dict(vars(builtins)), dict(sys.modules)]

    def process(self, foreign=True):
        d = {}
        d['recursion limit'] = sys.getrecursionlimit()
        d['switch interval'] = sys.getswitchinterval()
        d['profile hook'] = repr(sys.getprofile())
        d['threading hooks'] = [repr(getattr(threading, '_trace_hook', None)), repr(getattr(threading, '_profile_hook', None)), threading.stack_size(), id(threading.excepthook)]
        d['int digits'] = sys.get_int_max_str_digits()
        d['sys hooks'] = [id(sys.excepthook), id(sys.displayhook), id(sys.unraisablehook), id(sys.breakpointhook)]
        d['standard streams'] = [id(sys.stdin), id(sys.stdout), id(sys.stderr), id(sys.__stdout__), id(sys.__stderr__)]
        d['sys.path'] = list(sys.path)
        d['sys.argv'] = list(sys.argv)
        d['import hooks'] = [[id(x) for x in sys.meta_path], [id(x) for x in sys.path_hooks]]
        d['dont_write_bytecode'] = sys.dont_write_bytecode
        d['builtins'] = sorted([k, id(v)] for k, v in vars(builtins).items() if k != '_')
        d['warning filters'] = [repr(f) for f in warnings.filters]
        d['warning hooks'] = [id(warnings.showwarning), id(warnings.formatwarning)]
        d['locale'] = locale.setlocale(locale.LC_ALL)
        d['cwd'] = os.getcwd()
        m = os.umask(0o22)
        os.umask(m)
        d['umask'] = m
        d['environ'] = sorted(os.environ.items())
        d['timezone'] = time.tzname
        d['signal handlers'] = [repr(signal.getsignal(n)) for n in range(1, 65) if n not in (9, 19, 32, 33)]
        d['signal mask'] = sorted(map(int, signal.pthread_sigmask(signal.SIG_BLOCK, ())))
        d['timers'] = [signal.getitimer(k)[1] for k in (signal.ITIMER_REAL, signal.ITIMER_VIRTUAL, signal.ITIMER_PROF)] + [signal.getitimer(k)[0] > 0 for k in range(3)]
        d['gc'] = [gc.isenabled(), gc.get_threshold(), gc.get_debug(), [id(x) for x in gc.callbacks]]
        d['atexit'] = atexit._ncallbacks()
        d['logging'] = [logging.root.level, logging.root.manager.disable, [id(h) for h in logging.root.handlers], id(logging.getLoggerClass()), logging.raiseExceptions]
        d['loggers'] = [[n, g.level, g.disabled, g.propagate, [id(h) for h in g.handlers], [id(x) for x in g.filters]] for n, g in sorted(logging.root.manager.loggerDict.items())
                        if isinstance(g, logging.Logger) and n in self.loggers]
        d['logging'] += [id(logging.lastResort), [id(x) for x in logging.root.filters], id(logging.getLogRecordFactory())]
        d['random state'] = core.jhash(repr(random.getstate()))
        d['sockets'] = socket.getdefaulttimeout()
        d['resource limits'] = [resource.getrlimit(n) for n in range(resource.RLIMIT_CPU, resource.RLIMIT_NOFILE + 1)]
        d['priority'] = [os.getpriority(os.PRIO_PROCESS, 0), sorted(os.sched_getaffinity(0))]
        d['diagnosis'] = [faulthandler.is_enabled(), tracemalloc.is_tracing(), getattr(sys, 'tracebacklimit', None), csv.field_size_limit(), sys.getdlopenflags()]
        d['codec errors'] = [id(codecs.lookup_error(n)) for n in ('strict', 'ignore', 'replace', 'xmlcharrefreplace', 'backslashreplace', 'surrogateescape', 'surrogatepass', 'namereplace')]
        d['threads'] = sorted(t.name for t in threading.enumerate() if not isinstance(t, threading._DummyThread))
        fd = os.open('/proc/self/fd', os.O_RDONLY)
        try:
            fds = []
            for n in os.listdir(fd):
                try:
                    fds.append([int(n), os.readlink(n, dir_fd=fd)])
                except OSError:
                    pass
            d['open descriptors'] = sorted(x for x in fds if x[0] != fd and not x[1].endswith('/fd'))
        finally:
            os.close(fd)
        try:
            d['child processes'] = os.waitpid(-1, os.WNOHANG)[0]
        except ChildProcessError:
            d['child processes'] = None
        if not foreign:
            return d
        known = self.keep[-1]
        d['modules'] = sorted(k for k, v in known.items() if sys.modules.get(k) is not v)
        for m, was in zip(FOREIGN, self.keep):
            now = vars(sys.modules[m])
            d['module ' + m] = sorted(k for k, v in was.items() if (callable(v) or type(v) in (str, int, tuple, frozenset, type(core))) and now.get(k) is not v)
        for m, c in CLASSES:
            d[f'class {m}.{c}'] = sorted([k, id(v)] for k, v in vars(getattr(sys.modules[m], c)).items() if callable(v) or type(v) in (str, int, tuple))
        for m, t in TABLES:
            d[f'table {m}.{t}'] = table(m, t)
        return d

    def thread(self):
        c = decimal.getcontext()
        return {'decimal context': [c.prec, str(c.rounding), c.Emin, c.Emax, sorted(str(k) for k, v in c.traps.items() if v)],
                'asyncgen hooks': repr(sys.get_asyncgen_hooks()), 'profile hook': repr(sys.getprofile()), 'origin tracking': sys.get_coroutine_origin_tracking_depth()}


def changed(a, b):
    return sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))


# -- growth ------------------------------------------------------------------------------

class MallInfo(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in ('arena', 'ordblks', 'smblks', 'hblks', 'hblkhd', 'usmblks', 'fsmblks', 'uordblks', 'fordblks', 'keepcost')]


def used(libc):
    gc.collect()
    m = libc.mallinfo2()
    return [sys.getallocatedblocks(), m.uordblks + m.hblkhd]


def grow(env_spec, kinds, n, windows, faults, threads):
    """Allocated blocks and bytes after each window of n conversions, no two documents alike."""
    core.ambient_reset()
    libc = ctypes.CDLL(None)
    libc.mallinfo2.restype = MallInfo
    env = ops.Env(env_spec)
    trace = []
    k = 0
    done = _thread.allocate_lock()

    def one(op, fault):
        if fault is None:
            return ops.outcome(op, env)
        ev, name = fault
        return sched.count_events(lambda: ops.run_op(op, env), faults={ev: lambda: ops.make_exc(name, 'injected')})

    def some(a, b):
        for i in range(a, b):
            op = kinds[i % len(kinds)]
            one(dict(op, src=op['src'].replace('qzq', f'u{i}v')), faults[i % len(faults)] if faults else None)
    for _ in range(windows):
        if threads:
            for a in range(k, k + n, 25):
                done.acquire()

                def body(a=a, b=min(a + 25, k + n)):
                    try:
                        some(a, b)
                    finally:
                        done.release()
                _thread.start_new_thread(body, ())
                done.acquire()
                done.release()
        else:
            some(k, k + n)
        k += n
        env.calls, env.nested_results = [], []
        for f in (sys.stdout, sys.stderr):
            f.seek(0)
            f.truncate()
        trace.append(used(libc))
    return trace


def slope(trace, n):
    """Growth per conversion, in blocks and bytes: the smaller one of the two halves of the windows after the first half."""
    h = len(trace) // 2
    q = h + (len(trace) - h) // 2
    res = []
    for c in (0, 1):
        a, b, z = trace[h - 1][c], trace[q - 1][c], trace[-1][c]
        res.append(min((b - a) / n / (q - h), (z - b) / n / (len(trace) - q)))
    return res


# where the changing part of a document stands
PLACES = [('creole2html', "<<code ext='.zz'>>\nqzq = 1\n<</code>>"), ('creole2html', "<<code ext='.py'>>\nqzq = 1\n<</code>>"), ('creole2html', "<<code ext='.qzq'>>\nx\n<</code>>"), ('creole2html', '<<qzq />> <<qzq>>x<</qzq>>'),
          ('creole2html', '<<echo qzq=1 />> <<echo a="qzq" />>'), ('creole2html', '<<echo>>qzq<</echo>>'), ('creole2html', '<<html>>\n<p>qzq</p>\n<</html>>'), ('creole2html', '<<toc>>\n\n= qzq\n\n== b qzq'), ('creole2html', '[[/qzq|a]] {{/qzq.png|b}} http://h.tld/qzq'),
          ('creole2html', '* qzq\n** b\n\n|=qzq|\n|b|'), ('creole2html', '{{{\nqzq\n}}}\n\n{{{qzq}}}'), ('creole2html', '<<boom qzq=1 />>'), ('creole2html', '<<upper_case qzq=1 />>'), ('creole2html', '<<echo qzq=" />>'),
          ('html', '<qzq>x</qzq>'), ('html', '<p><x-qzq a="1">x</x-qzq></p>'), ('html', '<p qzq="1">x</p>'), ('html', '<a href="/qzq">x</a><img src="/qzq.png" alt="qzq" />'), ('html', '<p>&qzq; x &amp; y</p>'), ('html', '<!-- qzq --><p>x</p>'), ('html', '<pre>qzq</pre><h1>qzq</h1>'),
          ('html', '<table><tr><th>qzq</th></tr><tr><td>qzq</td></tr></table>'), ('html', '<ul><li>qzq<ul><li>x</li></ul></li></ul>'), ('html', '<p>qzq</b></p></i>')]
BLOCKS, BYTES = .12, 2.5  # per conversion; without a leak: below .03 and .1 (bytes with rest2html: below 20)


@register
class C25(TaskScenario):
    pid = 'C25'
    runs = {'quick': 3000, 'thorough': 40000}
    rule = ('process-wide settings (streams, signals, limits, filters, hooks, locale, directory, environment, descriptors, threads, children, tables of other modules) '
            'before and after 1-4 threads of conversions with failures and interrupts at drawn lines; and memory over thousands of distinct documents, also failing, '
            'interrupted and in short-lived threads; non-trivial: a switch, fault or failing conversion took place, or a growth run')
    stub = TaskScenario.stub + ['allocator statistics of CPython and libc (read only)']
    assumptions = ['bounded caches may fill up; tables of docutils that documents extend by design (directives, roles) are not compared']

    def setup(self):
        self.observe = Observe()

    def generate(self, r, tier):
        if maybe(r, .025):
            return self.growth(r)
        env, pool = op_pool(r.group, 3)
        fam = pick(r, pool) if maybe(r, .5) else [o for f in pool for o in f]
        n = pick(r, [1, 1, 1, 2, 2, 3, 4])
        tasks = [[copy.deepcopy(pick(r, fam)) for _ in range(pick(r, [1, 1, 2, 3]))] for _ in range(n)]
        switches = random_switches(r, tasks) if n > 1 else []
        faults = []
        if maybe(r, .7):
            for i, t in enumerate(tasks):
                for j in range(len(t)):
                    if maybe(r, .5):
                        faults.append([i, j, conc.place(r), pick(r, INTERRUPTS + ['RuntimeError', 'MemoryError', 'ValueError', 'RecursionError', 'OSError'])])
        return {'env': env, 'tasks': tasks, 'switches': switches, 'faults': faults, 'opcode': maybe(r.group, .15) and n == 1, 'first': 0,
                'extra': maybe(r, .3)}

    def growth(self, r):
        env = gen.gen_env(r)
        rest = maybe(r, .12)
        kinds = []
        only = pick(r, gen.FNS)
        while len(kinds) < pick(r, [2, 4, 6]):
            fn = 'rest2html' if rest else only if maybe(r, .5) else pick(r, gen.FNS)
            if fn == 'rest2html' and not rest:
                continue
            op = gen.gen_op(r, env, 'qzq', fn=fn, size=pick(r, [1, 1, 2]))
            if not rest and maybe(r, .4):
                k, op['src'] = pick(r, PLACES)
                op['fn'] = 'creole2html' if k != 'html' else pick(r, gen.HTML_FNS)
                op['opts'] = gen.gen_opts(r, op['fn'], env)
                op['opts'].pop('debug', None)
            if len(op['src']) < 300:
                kinds.append(op)
        faults = []
        if maybe(r, .35):
            for _ in range(pick(r, [1, 5, 30])):
                faults.append([pick(r, [1, 3, 10, 30, 100, 300, 1000]) + r.randrange(50), pick(r, INTERRUPTS + ['RuntimeError', 'ValueError', 'MemoryError'])])
            faults += [None] * pick(r, [0, 3, 30])
        return {'mode': 'growth', 'env': env, 'kinds': kinds, 'n': 120 if rest or any('<<code' in o['src'] for o in kinds) else 400, 'windows': 8, 'faults': faults, 'threads': maybe(r, .2)}

    def execute(self, plan, ctx):
        if plan.get('mode') == 'growth':
            return self.execute_growth(plan)
        res, ref = conc.execute(plan, ctx.refs, observe=self.observe)
        st = self.stats_of(plan, res, ref)
        failing = any(x and x[0] == 'exc' for row in res['results'] for x in row)
        st['nontrivial'] = core.jhash([plan['tasks'], res['hash'], res['fired']]) if res['switches'] or res['fired'] or failing else None
        if res['problem']:
            return Violation(res['problem'][0], f'{res["problem"][1]}'), st
        a, b, threads = res['observed']
        what = changed(a, b)
        if what:
            k = what[0]
            return Violation('setting', f'conversions have changed {", ".join(what)}: {k} was {core.short(self.delta(a[k], b[k]))}, is {core.short(self.delta(b[k], a[k]))}'), st
        for i, (x, y) in threads:
            what = changed(x, y)
            if what:
                return Violation('setting', f'conversions have changed {what} of their thread: was {x[what[0]]}, is {y[what[0]]}'), st
        return None, st

    def delta(self, a, b):
        return [x for x in a if x not in b] if isinstance(a, list) and isinstance(b, list) and len(a) > 4 else a

    def execute_growth(self, plan):
        st = self.new_stats()
        n, w = plan['n'], plan['windows']
        faults = [f and tuple(f) for f in plan['faults']]
        st['growth_runs'] = 1
        st['ops'] = n * w
        st['nontrivial'] = core.jhash([plan['kinds'], plan['faults'], plan['threads']])
        for f in faults:
            if f:
                st['faults'][f[1]] = st['faults'].get(f[1], 0) + n * w // len(faults)
        args = (plan['env'], plan['kinds'])
        try:
            # docutils: the allocator's byte count wanders
            limit = 40 if any(o['fn'] == 'rest2html' for o in plan['kinds']) else BYTES
            trace = core.in_fork(grow, *args, n, w, faults, plan['threads'], timeout=300)
            b, m = slope(trace, n)
            if b >= BLOCKS or m >= limit:
                # is it a cache that is still filling up?  Or chance?
                for length in (2 * n, (10 if n > 120 else 6) * n):
                    trace = core.in_fork(grow, *args, length, w, faults, plan['threads'], timeout=800)
                    b, m = slope(trace, length)
                    if b < BLOCKS and m < limit:
                        break
                else:
                    return Violation('growth', f'memory ({"blocks" if b >= BLOCKS else "bytes"}) keeps growing with the number of conversions: over {5 * n * w} conversions after {5 * n * w} others'), st
        except core.Hang as e:
            return Violation('hang', str(e)), st
        return None, st

    def shrink(self, plan):
        if plan.get('mode') != 'growth':
            yield from super().shrink(plan)
            return
        for c in shrink.chunks(plan['kinds']):
            if c:
                yield shrink.replaced(plan, kinds=c)
        if plan['faults']:
            yield shrink.replaced(plan, faults=[])
        if plan['threads']:
            yield shrink.replaced(plan, threads=False)

    def describe(self, plan):
        if plan.get('mode') != 'growth':
            return super().describe(plan)
        return {'growth': [f"{o['fn']}({core.short(o['src'], 80)!r}, {o['opts']})" for o in plan['kinds']], 'documents': plan['n'] * plan['windows'],
                'faults': plan['faults'][:5], 'threads': plan['threads']}
