"""C16-C21 and the README part of C15: README generation, checks and publishing on the simulated file system."""
import copy
import re
from pathlib import Path

from sim import core, gen, ops, shrink, simfs
from sim.gen import maybe, pick
from sim.scen_cli import EXCS, ERRNOS, PPM, footprint, latin, resolve, show
from sim.scenario import Scenario, Violation, register

ROOT = '/home/u/pkg'
OTHER = '/home/u/other'      # another project
WHERE = [('/home/u', 'pkg'), ('/home/u', './pkg/'), (ROOT, '.'), (ROOT, ''), (OTHER, '../pkg'), ('/', 'home/u/pkg'), (OTHER, ROOT + '/'), ('/', '/home/u/other/../pkg'), (ROOT, '../pkg/.')]
NOTE = '\n\n------------\n\n``Note: this file is generated from README.creole 2020-01-01 00:00:00 with "python-creole"``'
BAIT = {'README.creole': 'bait', 'README.rst': 'bait' + NOTE, 'README.md': 'bait' + NOTE, 'README.html': '<p>bait</p>', 'docs.creole': 'bait', 'docs.rst': 'bait', 'README.txt': 'bait', 'Makefile': 'fix-code-style:\n',
        'pyproject.toml': '[tool.poetry]\n', 'setup.py': '', 'creole/__init__.py': '__version__ = "bait"\n'}
SUFFIX = {'rst': '.rst', 'md': '.md'}
FORM = r'\n\n-{12}\n\n``Note: this file is generated from (%s) (\d{4}-\d\d-\d\d \d\d:\d\d:\d\d) with "python-creole"``\Z'
ZONES = {'UTC': 0, 'AAA-5:45': 5 * 3600 + 45 * 60, 'BBB8': -8 * 3600, 'CCC-14': 14 * 3600}
INTERRUPTS = ['KeyboardInterrupt', 'SystemExit', 'Cancelled']
OKOUT = ('capture', 'tty', 'file')
OKERR = ('capture', 'tty', 'file', 'none')


# -- in the simulated process ------------------------------------------------

HOOKED = []


def marks(raising=None):
    """A mark when the validating renderer is done: the text is generated."""
    import markdown
    import readme_renderer.rst
    import creole
    from sim import hook, simos

    def around(f, a, k):
        r = f(*a, **k)
        if r is not None:
            simos.CH.call('mark', 'converted')
        return r

    def fail(f, a, k):
        simos.CH.call('mark', 'raised')
        raise ops.make_exc(raising[1], 'injected converter failure')
    if HOOKED:
        return
    HOOKED.append(1)
    hook.hook(readme_renderer.rst, 'render', around)
    hook.hook(markdown, 'markdown', around)
    if raising:
        hook.hook(readme_renderer.rst if raising[0] == 'render' else creole, raising[0], fail)


def run_tool(kind, target, filename, raising, root=None):
    import creole.setup_utils as su
    marks(raising)
    fn = {('update', 'rst'): 'update_rst_readme', ('update', 'md'): 'update_markdown_readme', ('check', 'rst'): 'assert_rst_readme', ('check', 'md'): 'assert_markdown_readme'}[kind, target]
    getattr(su, fn)(package_root=Path(ROOT if root is None else root), filename=filename)


def run_again(earlier, fn, *args):
    """Somebody used the tools before, in the same process."""
    from sim import simos
    try:
        fn(*args) if earlier is None else run_tool(*earlier)
    except BaseException:
        pass
    simos.CH.call('later')
    return fn(*args)


def run_long(filename, raise_errors, raising, rel):
    import creole.setup_utils as su
    marks(raising)
    k = {} if raise_errors == 'default' else {'raise_errors': raise_errors}
    return su.get_long_description(rel or ROOT, filename, **k)


def run_publish(result):
    import creole
    import creole.publish
    import poetry_publish.publish
    from sim import hook, simos
    marks()
    simos.INFO['calls'] = []

    def upload(f, a, k):
        simos.CH.call('mark', 'upload')
        names = ['package_root', 'version', 'log_filename', 'creole_readme']
        k = dict(zip(names, a), **k)
        simos.INFO['calls'].append([str(k.get('package_root')), str(k.get('version'))])
        if result:
            raise ops.make_exc(result, 'upload failed')
    if 'upload' not in HOOKED:
        HOOKED.append('upload')
        hook.hook(poetry_publish.publish, 'poetry_publish', upload)
    creole.__file__ = f'{ROOT}/creole/__init__.py'
    creole.publish.__file__ = f'{ROOT}/creole/publish.py'
    creole.setup_utils.__file__ = f'{ROOT}/creole/setup_utils.py'
    simos.INFO['version'] = creole.__version__
    creole.publish.publish()


# -- oracle (pristine process, own glue) -----------------------------------------

def body_of(target, text):
    import io
    import creole
    import markdown
    from creole.shared.unknown_tags import raise_unknown_node
    from readme_renderer.rst import render
    core.ambient_reset()
    try:
        html = creole.creole2html(text.strip())
        if target == 'rst':
            body = creole.html2rest(html, unknown_emit=raise_unknown_node)
            if render(body, stream=io.StringIO()) is None:
                return ['fail', 'invalid ReST']
        else:
            body = creole.html2markdown(html, unknown_emit=raise_unknown_node)
            markdown.markdown(body)
        body.encode('utf-8')
    except Exception as e:
        return ['fail', type(e).__name__]
    return ['ok', body]


def long_of(text):
    """-> [result with raise_unknown_node or failure, result with transparent_unknown_nodes or failure]"""
    import creole
    from creole.rest_tools.pypi_rest2html import pypi_rest2html
    from creole.shared.unknown_tags import raise_unknown_node, transparent_unknown_nodes
    out = []
    for emit in (raise_unknown_node, transparent_unknown_nodes):
        core.ambient_reset()
        try:
            rest = creole.html2rest(creole.creole2html(text.strip()), unknown_emit=emit)
            if emit is raise_unknown_node:
                pypi_rest2html(rest)
            out.append(['ok', rest])
        except (Exception, SystemExit) as e:
            out.append(['fail', type(e).__name__])
    return out


def cached(ctx, fn, *args):
    key = (fn.__name__,) + args
    if key not in ctx.cache:
        if len(ctx.cache) > 60:
            ctx.cache.clear()
        ctx.cache[key] = core.in_fork(fn, *args)
    return ctx.cache[key]


def source_text(data):
    """What the README tools read: UTF-8, universal newlines."""
    return data.decode('utf-8').replace('\r\n', '\n').replace('\r', '\n')


def expect(ctx, fs, src, target):
    data = fs.get(src)
    try:
        if data is None or not fs.walk(src, '/').mode & 0o400:
            return ['fail', 'source']
    except simfs.Err:
        return ['fail', 'source']
    try:
        text = source_text(data)
    except UnicodeDecodeError:
        return ['fail', 'UnicodeDecodeError']
    return cached(ctx, body_of, target, text)


def note_time(content, body, filename):
    """The time in the note if content is exactly body and complete note."""
    try:
        text = content.decode('utf-8')
    except (UnicodeDecodeError, AttributeError):
        return None
    if not text.startswith(body):
        return None
    m = re.match(FORM % re.escape(filename), text[len(body):])
    return m and m.group(2)


def verdict(content, body, filename):
    """accept / reject / None (not specified) for a README check."""
    if content is None or content == b'':
        return 'reject'
    try:
        text = content.decode('utf-8')
    except UnicodeDecodeError:
        return 'reject'
    if '\r' in text or '\r' in body:
        return None
    if note_time(content, body, filename):
        return 'accept'
    note = f'\n\n------------\n\n``Note: this file is generated from {filename} '
    if text.startswith(body):
        rest = text[len(body):]
        if note.startswith(rest) or rest.startswith(note[:note.index('from') + 5]) and '\n' not in rest[len(note):].rstrip():
            return None
    # white space counts in the text, not between it and the note
    b = body.rstrip()
    if text.startswith(b) and re.fullmatch(r'-*(``Note:thisfileisgeneratedfrom.*)?', ''.join(text[len(b):].split())):
        return None
    return 'reject'


def civil(ns, tz):
    import datetime
    s = ns // 1000000000 + ZONES[tz]
    return (datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=s)).isoformat(sep=' ')


# -- worlds -------------------------------------------------------------------------

class World:
    def __init__(self, plan):
        self.now = simfs.start_clock()
        sim = simfs.Sim(sorted((p, s) for p, s in plan['files'].items()), clock=self.now)
        self.fs = sim.fs
        self.filename = plan.get('filename', 'README.creole')
        self.src = f'{ROOT}/{self.filename}'
        self.times = set()
        self.note_source()

    def path(self, target):
        return self.src[:self.src.rindex('.')] + SUFFIX[target]

    def note_source(self):
        try:
            n = self.fs.walk(self.src, '/')
        except simfs.Err:
            return
        for tz in ZONES:
            self.times.add(civil(n.mtime, tz))

    def mtime(self):
        try:
            return self.fs.walk(self.src, '/').mtime
        except simfs.Err:
            return None

    def attach(self):
        self.fs.clock = lambda: self.now
        self.fs.full = False
        self.fs.free = None

    def run(self, jobs, faults, switches, earlier=None):
        """jobs: list of (spec, function, args). -> (base or None, sim)"""
        base = None
        if earlier is not None:
            jobs = [(spec, run_again, (earlier[1], fn) + args) for spec, fn, args in jobs]
            sim = self.sim(earlier[0], jobs, (), {}, switches, self.fs)
            self.now = sim.now + 1000000000
            self.attach()
            return None, sim
        if faults:
            base = self.sim(copy.deepcopy(self.fs), jobs, (), {}, switches)

            def lines_of(i):
                s = self.sim(copy.deepcopy(self.fs), jobs, (), {i: [0, '']}, switches)
                return s.procs[i].info.get('lines', 0)
            fl, lines, _ = resolve({'faults': faults}, base, lines_of)
        else:
            fl, lines = (), {}
        sim = self.sim(self.fs, jobs, fl, lines, switches)
        self.now = sim.now + 1000000000
        self.attach()
        return base, sim

    def sim(self, fs, jobs, faults, lines, switches, later=None):
        fs.full = False
        sim = simfs.Sim((), faults, [tuple(s) for s in switches], clock=self.now, fs=fs)
        sim.later = later
        for i, (spec, fn, args) in enumerate(jobs):
            spec = dict(spec)
            if i in lines:
                spec['line'] = lines[i]
            sim.spawn(spec, fn, *args)
        sim.run()
        return sim


def spec_of(step):
    return {'argv': step.get('argv', ['setup.py']), 'cwd': step.get('cwd', '/home/u'), 'locale': step.get('locale', 'utf-8'), 'tz': step.get('tz'), 'chunk': step.get('chunk'),
            'stdout': step.get('stdout', 'capture'), 'stderr': step.get('stderr', 'file'), 'spawn': step.get('spawn', [0])}


class ReadmeScenario(Scenario):
    real = ['creole.setup_utils', 'creole converters', 'readme_renderer, docutils and markdown (validation)', 'io, codecs, pathlib', 'process death: a real SIGKILL of a forked process']
    stub = ['file system, file descriptors and system calls (in-memory)', 'clock and time zone', 'locale encoding', 'standard streams', 'process scheduling (at system calls)']
    assumptions = ['a killed process loses its buffers, but what reached the file system stays (no power loss)']
    judges = ()
    note_pid = None

    def execute(self, plan, ctx):
        st = self.new_stats()
        st['steps'] = len(plan['steps'])
        w = World(plan)
        w.attach()
        v = None
        hist = []
        for i, step in enumerate(plan['steps']):
            v = self.step(w, step, ctx, st, plan)
            hist.append(step['k'])
            if v:
                v.detail = f'step {i} ({step["k"]} {step.get("t", "")}): {v.detail}'
                break
        st['simulated_seconds'] = (w.now - simfs.start_clock()) / 1e9
        if v is None and self.counts(plan, st):
            st['nontrivial'] = core.jhash(plan)
        return v, st

    def counts(self, plan, st):
        return True

    def account(self, st, sims):
        for sim in sims:
            if sim is None:
                continue
            st['system_calls'] = st.get('system_calls', 0) + sim.g
            st['processes'] = st.get('processes', 0) + len(sim.procs)
            st['switches'] = st.get('switches', 0) + sim.nswitch
            st['distinct'].setdefault('system call sequences', set()).add(core.jhash([t[:4] for t in sim.trace]))
            for f in sim.fired:
                self.fault(st, f'{f[4]} {f[5]} at {f[2]}'.replace('  ', ' '))
            for p in sim.procs:
                for f in p.info.get('fired', []):
                    self.fault(st, 'exception at an executed line')

    def fault(self, st, k):
        st['faults'][k] = st['faults'].get(k, 0) + 1

    def step(self, w, s, ctx, st, plan):
        k = s['k']
        if k in ('update', 'check', 'both'):
            return self.tool(w, s, ctx, st, plan)
        w.now += 1000000000
        if k == 'edit':
            w.fs.put(w.src, {'b': s['src']})
            self.fault(st, 'source edited')
        elif k == 'clock':
            w.now = max(10 ** 9, w.now + s['s'] * 1000000000)
            self.fault(st, 'clock jump')
        elif k == 'touch':
            if w.fs.get(w.src) is not None:
                w.fs.walk(w.src, '/').mtime = max(0, w.now + int(s.get('s', 0) * 1000000000))
            self.fault(st, 'source touched')
        elif k == 'rmsrc':
            if w.fs.get(w.src) is not None:
                w.fs.remove(w.src)
            self.fault(st, 'source removed')
        else:
            path = w.path(s['t'])
            data = w.fs.get(path)
            new = self.damage(w, k, s, data, ctx)
            if new is False:
                if data is not None:
                    w.fs.remove(path)
            elif new is not None:
                w.fs.put(path, {'b': new})
            self.fault(st, f'generated file: {k}' + (f' {s["how"]}' if 'how' in s else ''))
        w.note_source()
        return None

    def damage(self, w, k, s, data, ctx):
        if k == 'rm':
            return False
        if k == 'tear':
            return data and data[:s['ppm'] * (len(data) + 1) // PPM]
        how = s['how']
        if how == 'fresh':
            # as a completed update would have written it
            e = expect(ctx, w.fs, w.src, s['t'])
            if e[0] == 'ok':
                return e[1].encode() + (f'\n\n------------\n\n``Note: this file is generated from {w.filename} {civil(w.mtime(), s.get("tz", "UTC"))} with "python-creole"``').encode()
            return None
        if how == 'text':
            return s['b'].encode()
        if data is None:
            return None
        pos = s['ppm'] * (len(data) + 1) // PPM
        cut = data.rfind(b'\n\n------------\n\n')
        if how == 'append':
            return data + s['b'].encode()
        if how == 'prepend':
            return s['b'].encode() + data
        if how == 'insert':
            return data[:pos] + s['b'].encode() + data[pos:]
        if how == 'delete':
            return data[:pos] + data[pos + s.get('n', 1):]
        if how == 'flip':
            return data[:pos] + bytes([data[pos] ^ s.get('bit', 1)]) + data[pos + 1:] if pos < len(data) else data
        if how == 'double':
            return data + data
        if how == 'line':
            lines = data.split(b'\n')
            i = s['ppm'] * len(lines) // PPM
            return b'\n'.join(lines[:i] + lines[i + 1:])
        if how == 'lineend':
            # one line separator becomes another one
            at = [i for i in range(len(data)) if data[i:i + 1] == b'\n']
            if not at:
                return data
            i = at[s['ppm'] * len(at) // PPM]
            return data[:i] + s['sep'].encode() + data[i + 1:]
        if how == 'lineends':
            return data.replace(b'\n', s['sep'].encode())
        if how == 'blanks':
            # white space at the end of a line
            at = [i for i in range(len(data)) if data[i:i + 1] == b'\n']
            if not at:
                return data
            i = at[s['ppm'] * len(at) // PPM]
            return data[:i] + s['sep'].encode() + data[i:]
        if how == 'case':
            return data[:pos] + data[pos:pos + 40].swapcase() + data[pos + 40:]
        if how == 'beforenote' and cut >= 0:
            return data[:cut] + s['b'].encode() + data[cut:]
        if how == 'nonote' and cut >= 0:
            return data[:cut]
        if how == 'notetime' and cut >= 0:
            return data[:cut] + re.sub(rb'\d{4}-\d\d-\d\d \d\d:\d\d:\d\d', b'2001-02-03 04:05:06', data[cut:])
        if how == 'tailbody' and cut >= 0:
            p = s['ppm'] * (cut + 1) // PPM
            return data[:p] + data[cut:]
        if how == 'zeros':
            return data[:pos] + b'\0' * (len(data) - pos)
        return None

    # -- running the tools ---------------------------------------------------
    def earlier(self, w, s, ctx, st, plan):
        if not s.get('earlier'):
            return None
        w2 = copy.copy(w)
        w2.fs = copy.deepcopy(w.fs)
        w2.times = set()
        for c in s['earlier']['changes']:
            ReadmeScenario.step(self, w2, c, ctx, st, plan)
        w.fs.clock = lambda: w.now
        self.fault(st, f'the process has used the tools before ({s["earlier"]["k"]})')
        k = s['earlier']['k']
        return w2.fs, None if k == 'same' else (k, s['earlier']['t'], w.filename, None, s.get('root'))

    def tool(self, w, s, ctx, st, plan):
        targets = ['rst', 'md'] if s['k'] == 'both' else [s['t']]
        kind = 'update' if s['k'] == 'both' else s['k']
        jobs = [(spec_of(s), run_tool, (kind, t, w.filename, s.get('raising'), s.get('root'))) for t in targets]
        before = w.fs.snapshot()
        fs0 = copy.deepcopy(w.fs)
        exps = [expect(ctx, w.fs, w.src, t) for t in targets]
        faults = s.get('faults', [])
        base, sim = w.run(jobs, faults, s.get('switches', []), self.earlier(w, s, ctx, st, plan))
        self.account(st, [base, sim])
        for e in exps:
            if e[0] == 'fail':
                self.fault(st, f'unconvertible ({e[1]})')
        if sim.escapes:
            return Violation('escape', f'access outside of the simulated file system: {sim.escapes[:3]}')
        for i, (t, e) in enumerate(zip(targets, exps)):
            j = Case(self, w, s, kind, t, e, sim, sim.procs[i], before, fs0, base)
            for name in self.judges:
                v = getattr(j, name)()
                if v:
                    return v
        return None

    # -- shrinking and reporting -------------------------------------------------
    def describe(self, plan):
        return {'filename': plan.get('filename'), 'files': {k: core.short(str(v), 200) for k, v in plan['files'].items()}, 'steps': [{k: core.short(str(v), 200) if isinstance(v, str) else v for k, v in s.items()} for s in plan['steps']]}

    def shrink(self, plan):
        for c in shrink.chunks(plan['steps']):
            if c:
                yield shrink.replaced(plan, steps=c)
        for i, s in enumerate(plan['steps']):
            def put(**k):
                return shrink.replaced(plan, steps=plan['steps'][:i] + [dict(s, **k)] + plan['steps'][i + 1:])
            for c in shrink.chunks(s.get('faults', [])):
                yield put(faults=c)
            for c in shrink.chunks(s.get('switches', [])):
                yield put(switches=c)
            for k, v in (('locale', 'utf-8'), ('tz', None), ('chunk', None), ('stdout', 'capture'), ('stderr', 'file'), ('raising', None), ('root', None)):
                if s.get(k, v) != v:
                    yield put(**{k: v})
            if s.get('earlier'):
                yield put(earlier=None)
                for c in shrink.chunks(s['earlier']['changes']):
                    yield put(earlier=dict(s['earlier'], changes=c))
            for k in ('src', 'b'):
                if s.get(k):
                    for t in shrink.texts(s[k]):
                        yield put(**{k: t})
        for f in sorted(plan['files']):
            if 'b' in plan['files'][f]:
                for t in shrink.texts(plan['files'][f]['b']):
                    yield shrink.replaced(plan, files=dict(plan['files'], **{f: dict(plan['files'][f], b=t)}))
            if 'd' not in plan['files'][f]:
                yield shrink.replaced(plan, files={k: v for k, v in plan['files'].items() if k != f})


class Case:
    """One tool run and its verdict by one property."""

    def __init__(self, sc, w, s, kind, target, exp, sim, proc, before, fs0, base):
        self.sc, self.w, self.s, self.kind, self.target, self.exp = sc, w, s, kind, target, exp
        self.sim, self.proc, self.before, self.fs0, self.base = sim, proc, before, fs0, base
        self.path = w.path(target)
        self.old = fs0.get(self.path)
        self.new = w.fs.get(self.path)
        self.fired = [f for f in sim.fired if f[0] == proc.idx] + list(proc.info.get('fired', []))
        self.disk = any(f[4] == 'partial' for f in sim.fired)
        self.status = proc.status
        self.out = proc.info.get('outcome')
        self.why = f'outcome {self.out}, faults {self.fired}'
        if s.get('raising') and any(t[0] == proc.idx and t[2] == 'mark' and t[3] == 'raised' for t in sim.trace):
            self.exp = ['fail', 'raising']

    def undisturbed(self):
        return not self.fired and not self.disk and self.s.get('stdout', 'capture') in OKOUT and self.s.get('stderr', 'file') in OKERR and not self.s.get('obstacle')

    def before_generated(self):
        seen = any(t[2] == 'mark' and t[3] == 'converted' and t[0] == self.proc.idx for t in (self.base or self.sim).trace)
        return seen and not self.proc.converted

    def sources(self):
        a, b = self.fs0.get(self.w.src), self.w.fs.get(self.w.src)
        if a != b:
            return Violation('source', f'source changed from {show(a)} to {show(b)}')
        return None

    # C15
    def only_generated(self):
        if self.status is None:
            return None
        allowed = [self.path] + ([self.path[:-3] + '.html'] if self.target == 'md' else [])
        if self.s['k'] == 'both':
            allowed = [self.w.path('rst'), self.w.path('md'), self.w.path('md')[:-3] + '.html']
        v = footprint(self.before, self.w.fs, allowed, self.fs0)
        if v or self.status:
            return v
        after = self.w.fs.snapshot()
        for p in allowed:
            if p in self.before and p not in after:
                return Violation('removed', f'{p} is gone after success')
        return None

    # C16
    def unharmed(self):
        if self.kind != 'update':
            return None
        if self.exp[0] == 'fail':
            if self.status == 0:
                return Violation('not reported', f'{self.w.src} cannot be converted ({self.exp[1]}) but success is reported')
            if self.new != self.old:
                return Violation('destination', f'{self.w.src} cannot be converted ({self.exp[1]}); {self.path} changed from {show(self.old)} to {show(self.new)}')
        elif self.before_generated() and self.status == 0:
            return Violation('not reported', f'success is reported although generation did not finish; {self.why}')
        elif self.before_generated() and self.new != self.old:
            return Violation('destination', f'{self.why} before generation was finished; {self.path} changed from {show(self.old)} to {show(self.new)}')
        return self.sources()

    # C17
    def completed(self):
        if self.kind != 'update' or self.exp[0] == 'fail':
            return None
        if self.status != 0:
            if self.undisturbed():
                return Violation('failed', f'update without any fault failed: {self.out}')
            return None
        body = self.exp[1]
        t = self.new is not None and note_time(self.new, body, self.w.filename)
        if not t and self.new == self.old and self.edited_note(body):
            return None
        if not t:
            return Violation('incomplete', f'success is reported ({self.why}), but {self.path} was {show(self.old)} and is {show(self.new)}; the text is {show(body.encode())} and a note')
        if self.new != self.old:
            want = civil(self.fs0.walk(self.w.src, '/').mtime, self.s.get('tz') or 'UTC')
            if t != want:
                return Violation('note', f'the note in {self.path} has time {t}, the source was modified {want}')
        elif t not in self.w.times:
            # untouched: the time of an earlier modification
            if t != '2001-02-03 04:05:06':
                return Violation('note', f'the note in {self.path} has time {t}')
        return None

    def edited_note(self, body):
        """The generated text and a note that somebody edited: not specified."""
        text = self.old.decode('utf-8', 'surrogateescape')
        return text.startswith(body) and re.fullmatch(r'\s*-{12}\s*``Note: this file is generated from .* with "python-creole"``\s*', text[len(body):], re.S)

    # C18
    def left_alone(self):
        if self.kind != 'update' or self.exp[0] == 'fail' or self.old is None:
            return None
        if not note_time(self.old, self.exp[1], self.w.filename):
            return None
        if any(len(f) > 3 and f[3] == self.path for f in self.fired):
            return None
        a, b = self.before.get(self.path), self.w.fs.snapshot().get(self.path)
        if a != b:
            return Violation('rewritten', f'{self.path} was up-to-date ({self.why}); {("mtime and inode", a[3:], b and b[3:]) if a[:2] == (b or a)[:2] else (core.short(repr(a)), core.short(repr(b)))}')
        return None

    # C19
    def judged(self):
        if self.kind != 'check':
            return None
        for t in ('rst', 'md'):
            p = self.w.path(t)
            if self.fs0.get(p) != self.w.fs.get(p):
                return Violation('modified', f'the check changed {p} from {show(self.fs0.get(p))} to {show(self.w.fs.get(p))}')
            a, b = self.before.get(p), self.w.fs.snapshot().get(p)
            if a != b:
                return Violation('modified', f'the check touched {p}: {a and a[2:]} -> {b and b[2:]}')
        v = self.sources()
        if v:
            return v
        want = 'reject' if self.exp[0] == 'fail' else verdict(self.old, self.exp[1], self.w.filename)
        if self.status == 0 and want == 'reject':
            return Violation('accepted', f'{self.path} is {show(self.old)} and was accepted; should be {show(self.exp[1].encode()) if self.exp[0] == "ok" else self.exp}; {self.why}')
        if self.status not in (0, None) and want == 'accept' and self.undisturbed():
            return Violation('rejected', f'{self.path} is up-to-date and was rejected: {self.out}')
        return None


# -- generation -----------------------------------------------------------------------

def readme(r, safe=.8):
    d = gen.Creole(r, 'tk', pick(r, [1, 1, 2, 3, 4]), macros=[])
    if maybe(r, safe):
        for k in ('sup', 'sub', 'under', 'small', 'del', 'macro_tag', 'macro_inline', 'macro_block', 'open', 'img', 'img2', 'img3', 'link3', 'table', 'toc', 'ent'):
            d.on[k] = False
        if maybe(r, .5):
            d.on['link'] = d.on['link2'] = False
        if maybe(r, .6):
            d.on['head'] = False
        if maybe(r, .6):
            d.on['strong'] = d.on['em'] = d.on['mono'] = d.on['pre'] = d.on['esc'] = False
            d.on['hr'] = maybe(r, .2)
        t = d.make()
        if maybe(r, .8):
            t = f'{d.word()} text.\n\n{t}\n\n{pick(r, ["The end.", "über", "* item\n* item 2", "end\n\n# one\n# two"])}'
    else:
        t = d.make()
    if maybe(r, .1):
        t = pick(r, ['\n', ' ', '\n\n', '\t']) + t + pick(r, ['\n', '\n\n', ' \n'])
    if maybe(r, .04):
        t = ''
    return t


def source(r, bad=.05):
    b = readme(r).encode()
    if maybe(r, bad):
        pos = r.randrange(len(b) + 1)
        b = b[:pos] + pick(r, [b'\xff', b'\xc3', b'\xe2\x82', b'\xed\xa0\x80']) + b[pos:]
    return latin(b)


MODES = [0o600, 0o640, 0o664, 0o755, 0o666, 0o700]


def world(r, other=.5, bad=.03):
    name = pick(r, ['README.creole'] * 6 + ['docs.creole', 'doc/README.creole', 'README.txt', 'read me.creole', 'README.de.creole', 'my.creole/README.creole', 'README.rst.creole', 'README.md/README.creole'])
    files = {ROOT: {'d': 1}, OTHER: {'d': 1}, f'{ROOT}/{name}': {'b': source(r, bad), 'mtime': 1550000000 + r.randrange(10 ** 8)}}
    src = files[f'{ROOT}/{name}']
    src['mtime'] += pick(r, [0, 0, .25, .5, .75, .999])
    if maybe(r, .3):
        src['mode'] = pick(r, MODES)
    stem = f'{ROOT}/{name[:name.rindex(".")]}'
    for t in ('.rst', '.md', '.html'):
        if maybe(r, .3):
            files[stem + t] = {'b': pick(r, ['', 'old\n', 'old text\n' * 50, '\xff\xfe binary']), 'mtime': 1540000000}
            if maybe(r, .3):
                files[stem + t]['mode'] = pick(r, MODES)
    if maybe(r, .4):
        for f in sorted(BAIT):
            if maybe(r, .8):
                files[f'{OTHER}/{f}'] = {'b': BAIT[f], 'mtime': 1545000000}
    if maybe(r, other):
        for f in ('README', 'README.rst.tmp', 'README.md~', 'README.rst.bak', 'setup.py', '.README.rst.swp', 'README.tmp', 'tmp', 'doc/README.txt', 'CHANGES.rst', 'README.html.bak', 'README', 'README.markdown', 'README.rst.orig'):
            if maybe(r, .35) and f'{ROOT}/{f}' not in files:
                files[f'{ROOT}/{f}'] = {'b': f'bystander {f}', 'mtime': 1500000000}
    return {'filename': name, 'files': files, 'steps': []}


def ambient(r, s):
    if maybe(r, .35):
        s['locale'] = pick(r, ['ascii', 'cp1252', 'latin-1', 'utf-8', 'utf-16', 'koi8-r'])
    if maybe(r, .3):
        s['tz'] = pick(r, sorted(ZONES))
    if maybe(r, .2):
        s['chunk'] = pick(r, [1, 7, 100])
    if maybe(r, .05):
        s['stdout'] = pick(r, ['EPIPE', 'ENOSPC', 'none', 'tty'])
    if maybe(r, .3):
        s['stderr'] = pick(r, ['capture', 'capture', 'tty', 'none', 'EPIPE'])
    if maybe(r, .3):
        s['cwd'], s['root'] = pick(r, WHERE)
    elif maybe(r, .3):
        s['cwd'] = pick(r, ['/', ROOT, OTHER])
    return s


def before(r, s, kinds=('same', 'same', 'update', 'check'), p=.2):
    """The process has used the tools before, with other files."""
    if s.get('faults') or s.get('raising') or not maybe(r, p):
        return s
    t = s.get('t', 'rst')
    c = []
    if maybe(r, .5):
        c.append(edit(r))
    if maybe(r, .7):
        c.append({'k': 'set', 't': t, 'how': 'fresh', 'ppm': 0})
    if not c or maybe(r, .3):
        c.append(pick(r, [damage(r, t), edit(r), {'k': 'touch', 's': pick(r, [3600, -5, 86400 * 400])}]))
    s['earlier'] = {'k': pick(r, kinds), 't': t if maybe(r, .8) else pick(r, ['rst', 'md']), 'changes': c}
    return s


def update(r, t=None, **k):
    return before(r, ambient(r, dict({'k': 'update', 't': t or pick(r, ['rst', 'md'])}, **k)))


def check(r, t=None, **k):
    return before(r, ambient(r, dict({'k': 'check', 't': t or pick(r, ['rst', 'md'])}, **k)))


def both(r):
    s = ambient(r, {'k': 'both', 'switches': [[r.randrange(1, 45), r.randrange(2)] for _ in range(r.randrange(1, 12))]})
    return s


def pre_fault(r):
    k = pick(r, ['read', 'read', 'openr', 'before', 'before', 'line', 'line', 'kill', 'kill', 'exc', 'stat', 'close', 'openw', 'write'])
    ppm = r.randrange(PPM)
    if k == 'line':
        return {'p': 0, 'sel': 'any', 'kind': 'line', 'ppm': ppm, 'e': pick(r, EXCS)}
    if k == 'kill':
        return {'p': 0, 'sel': 'before', 'kind': 'kill', 'ppm': ppm, 'after': maybe(r, .3)}
    if k == 'exc':
        return {'p': 0, 'sel': pick(r, ['before', 'read']), 'kind': 'exc', 'ppm': ppm, 'e': pick(r, EXCS)}
    return {'p': 0, 'sel': k, 'kind': 'errno', 'ppm': ppm, 'e': pick(r, ERRNOS), 'sticky': maybe(r, .3)}


def post_fault(r):
    k = pick(r, ['torn', 'torn', 'kill', 'kill', 'partial', 'errno', 'errno', 'short', 'close', 'exc', 'line'])
    ppm, part = r.randrange(PPM), r.randrange(PPM)
    if k == 'errno':
        return {'p': 0, 'sel': pick(r, ['write', 'tail', 'after']), 'kind': 'errno', 'ppm': ppm, 'e': pick(r, ERRNOS)}
    if k == 'close':
        return {'p': 0, 'sel': 'closew', 'kind': 'errno', 'ppm': ppm, 'e': pick(r, ['EIO', 'ENOSPC', 'EDQUOT'])}
    if k == 'line':
        return {'p': 0, 'sel': 'any', 'kind': 'line', 'ppm': PPM - 1 - min(PPM - 1, int(r.expovariate(1 / 20000))), 'e': pick(r, EXCS)}
    if k == 'exc':
        return {'p': 0, 'sel': pick(r, ['write', 'tail']), 'kind': 'exc', 'ppm': ppm, 'e': pick(r, EXCS), 'after': maybe(r, .3)}
    return {'p': 0, 'sel': pick(r, ['write', 'write', 'tail']), 'kind': k, 'ppm': ppm, 'part': part, 'after': maybe(r, .5)}


def damage(r, t=None):
    t = t or pick(r, ['rst', 'md'])
    ppm = r.randrange(PPM)
    k = pick(r, ['tear', 'tear', 'tear', 'rm', 'set', 'set', 'set', 'set'])
    if k != 'set':
        return {'k': k, 't': t, 'ppm': pick(r, [ppm, ppm, 0, 999999, PPM - 1 - r.randrange(60000)])}
    if maybe(r, .12):
        # white space only
        return {'k': 'set', 't': t, 'how': pick(r, ['prepend', 'insert', 'beforenote', 'append']), 'ppm': ppm, 'b': pick(r, [' ', '\n', '\n\n', '\t', '\r\n', '\u00a0', '\f'])}
    if maybe(r, .15):
        how = pick(r, ['lineend', 'lineend', 'blanks', 'lineends', 'case'])
        return {'k': 'set', 't': t, 'how': how, 'ppm': ppm,
                'sep': pick(r, [' ', '\t', '\x0b', '\f', ' \t']) if how == 'blanks' else pick(r, ['\u2028', '\u2029', '\f', '\x0b', '\x85', '\x1c', '\x1d', '\x1e', ' ', '\n\n', ''])}
    how = pick(r, ['append', 'append', 'prepend', 'insert', 'insert', 'delete', 'flip', 'double', 'line', 'beforenote', 'beforenote', 'nonote', 'notetime', 'tailbody', 'tailbody', 'zeros', 'text', 'fresh'])
    return {'k': 'set', 't': t, 'how': how, 'ppm': ppm, 'n': pick(r, [1, 1, 2, 10, 100]), 'bit': pick(r, [1, 2, 32]),
            'b': pick(r, ['x', ' more text', '\nmore', '\n\nmore text\n', 'ü', '\n\n------------\n\n', '-', '\n\n------------\n\n``Note: x``', '\n'])}


def edit(r):
    k = pick(r, ['edit'] * 5 + ['touch', 'touch', 'clock'])
    if k == 'edit':
        return {'k': 'edit', 'src': source(r, .06)}
    return {'k': k, 's': pick(r, [3600, -3600, 86400 * 400, -86400 * 4000, 1, 40 * 365 * 86400])}


@register
class C16(ReadmeScenario):
    pid = 'C16'
    runs = {'quick': 5400, 'thorough': 40000}
    judges = ('unharmed',)
    rule = ('README updates of an unconvertible source (missing, not UTF-8, unsupported markup, ReST that does not render) or with a system-call error, SIGKILL, exception at a system call or executed line before the '
            'generated text is ready, over drawn previous README states; non-trivial: distinct plan with such a failure')

    def generate(self, r, tier):
        plan = world(r, .1, .15)
        n = pick(r, [1, 1, 2, 3])
        for _ in range(n):
            x = r.random()
            if x < .3:
                plan['steps'].append(update(r))
            elif x < .4:
                plan['steps'].append(edit(r))
            elif x < .5:
                plan['steps'].append(damage(r))
        x = r.random()
        if x < .12:
            plan['steps'].append({'k': 'rmsrc'})
            plan['steps'].append(update(r))
        elif x < .25:
            plan['steps'].append(update(r, raising=[pick(r, ['creole2html', 'html2rest', 'html2markdown', 'render']), pick(r, ['ValueError', 'KeyboardInterrupt', 'RecursionError', 'NotImplementedError', 'SystemExit', 'OSError', 'UnicodeError'])]))
        elif x < .45:
            plan['steps'].append({'k': 'edit', 'src': latin(readme(r, 0).encode())})
            plan['steps'].append(update(r))
        elif x < .52:
            plan['steps'].append({'k': 'edit', 'src': source(r, 1)})
            plan['steps'].append(update(r))
        else:
            plan['steps'].append({'k': 'edit', 'src': source(r, .02)} if maybe(r, .5) else damage(r))
            plan['steps'].append(update(r, faults=[pre_fault(r) for _ in range(pick(r, [1, 1, 2]))]))
        return plan

    def counts(self, plan, st):
        return any(not k.startswith(('source edited', 'source touched', 'clock', 'generated')) for k in st['faults'])


@register
class C17(ReadmeScenario):
    pid = 'C17'
    runs = {'quick': 2200, 'thorough': 30000}
    judges = ('completed', 'verified')
    rule = ('histories of source edits, touches, clock jumps, interrupted, torn and failed updates, manual damage at drawn positions, in drawn locales and time zones, followed by one undisturbed update of each target '
            '(or both at the same time, interleaved at system calls) and a check; non-trivial: distinct plan with a damaged, torn or stale state before the last update')

    def generate(self, r, tier):
        plan = world(r, .1, .02)
        for _ in range(pick(r, [1, 2, 2, 3, 4])):
            x = r.random()
            if x < .2:
                plan['steps'].append(edit(r))
            elif x < .45:
                plan['steps'].append(damage(r))
            elif x < .75:
                plan['steps'].append(update(r, faults=[post_fault(r)]))
            elif x < .9:
                plan['steps'].append(update(r))
            else:
                plan['steps'].append(both(r))
        if maybe(r, .4):
            plan['steps'].append(both(r))
        else:
            t = pick(r, ['rst', 'md'])
            plan['steps'] += [update(r, t), check(r, t)]
        return plan

    def counts(self, plan, st):
        return any(k.startswith('generated') or ' at ' in k or 'edited' in k for k in st['faults'])


def verified(self):
    """A check right after a completed update accepts."""
    if self.kind == 'update' and self.status == 0 and self.exp[0] == 'ok' and '\r' not in self.exp[1]:
        fs = copy.deepcopy(self.w.fs)
        sim = simfs.Sim((), clock=self.w.now, fs=fs)
        sim.spawn(spec_of({'locale': pick_locale(self.s)}), run_tool, 'check', self.target, self.w.filename, None)
        sim.run()
        if sim.procs[0].status != 0:
            return Violation('rejected', f'the check after a completed update fails: {sim.procs[0].info.get("outcome")}')
    return None


def pick_locale(s):
    return {'utf-8': 'ascii', 'ascii': 'cp1252'}.get(s.get('locale', 'utf-8'), 'utf-8')


Case.verified = verified


@register
class C18(ReadmeScenario):
    pid = 'C18'
    runs = {'quick': 3700, 'thorough': 40000}
    judges = ('left_alone',)
    rule = ('an update that meets an up-to-date README, after clock jumps, touches of the source, edits that leave the generated text unchanged, other locales and time zones, updates of the other format, fault-free or '
            'with a fault; the inode (content, times, number) is compared; non-trivial: distinct plan in which an update met an up-to-date README')

    def generate(self, r, tier):
        plan = world(r, .1, 0)
        t = pick(r, ['rst', 'md'])
        plan['steps'].append(update(r, t) if maybe(r, .6) else {'k': 'set', 't': t, 'how': 'fresh', 'tz': pick(r, sorted(ZONES)), 'ppm': 0})
        plan['steps'][0].pop('stdout', None)
        src = plan['files'][f'{ROOT}/{plan["filename"]}']['b']
        for _ in range(pick(r, [1, 1, 2, 3])):
            x = r.random()
            if x < .3:
                plan['steps'].append({'k': pick(r, ['touch', 'clock']), 's': pick(r, [3600, -3600, 86400 * 400, -86400 * 4000, 1, 40 * 365 * 86400, .75, 3600.5])})
            elif x < .45:
                plan['steps'].append({'k': 'edit', 'src': pick(r, [src + '\n', '\n' + src, src, src.replace('\n', '\r\n') if '\r' not in src else src, src + ' '])})
            elif x < .55:
                plan['steps'].append({'k': 'set', 't': t, 'how': 'notetime', 'ppm': 0})
            elif x < .65:
                plan['steps'].append(check(r))
            elif x < .75:
                plan['steps'].append(both(r))
            elif x < .85:
                plan['steps'].append(edit(r))
                plan['steps'].append(update(r, t))
            plan['steps'].append(update(r, t if maybe(r, .8) else None, **({'faults': [pick(r, [pre_fault, post_fault])(r)]} if maybe(r, .2) else {})))
        return plan


@register
class C19(ReadmeScenario):
    pid = 'C19'
    runs = {'quick': 5100, 'thorough': 50000}
    judges = ('judged',)
    rule = ('checks of README files in drawn states (fresh, torn at a drawn byte, one byte, line or text changed, inserted, missing or appended at a drawn place, stale, other note time, missing, empty), in drawn '
            'locales, fault-free or with read faults; non-trivial: every distinct plan')

    def generate(self, r, tier):
        plan = world(r, .1, .04)
        t = pick(r, ['rst', 'md'])
        for _ in range(pick(r, [1, 1, 2, 3])):
            x = r.random()
            if x < .25:
                plan['steps'].append(edit(r))
            if x < .8:
                plan['steps'].append({'k': 'set', 't': t, 'how': 'fresh', 'tz': pick(r, sorted(ZONES)), 'ppm': 0} if maybe(r, .8) else update(r, t))
            if x > .15:
                for _ in range(pick(r, [1, 1, 1, 2])):
                    plan['steps'].append(damage(r, t) if maybe(r, .85) else edit(r))
            plan['steps'].append(check(r, t if maybe(r, .95) else None, **({'faults': [pre_fault(r)]} if maybe(r, .15) else {})))
        return plan


class C15Readme(ReadmeScenario):
    """Part of C15."""
    judges = ('only_generated',)

    def generate(self, r, tier):
        plan = world(r, 1, .08)
        plan['kind'] = 'readme'
        for _ in range(pick(r, [1, 1, 2, 3])):
            x = r.random()
            f = {'faults': [pick(r, [pre_fault, post_fault])(r)]} if maybe(r, .5) else {}
            if x < .5:
                plan['steps'].append(update(r, **f))
            elif x < .75:
                plan['steps'].append(check(r, **f))
            elif x < .85:
                plan['steps'].append(both(r))
            else:
                plan['steps'].append(pick(r, [edit, damage])(r))
        plan['steps'].append(update(r) if maybe(r, .7) else check(r))
        return plan


# -- C20 ---------------------------------------------------------------------------------

ARGVS = [['setup.py'], ['setup.py', 'install'], ['setup.py', 'sdist'], ['setup.py', 'check', '--strict'], ['setup.py', 'upload'], ['setup.py', 'build', 'sdist'], ['setup.py', '--long-description'],
         ['setup.py', '--version'], ['setup.py', 'bdist_wheel'], ['setup.py', 'register'], ['setup.py', 'bdist'], ['setup.py', '--restructuredtext', 'x'], ['pip', 'install', 'checker'], ['check'], ['setup.py', 'develop', '--user']]
RAISE = ('check', 'register', 'sdist', 'bdist', 'upload', '--long-description', '--restructuredtext')


@register
class C20(ReadmeScenario):
    pid = 'C20'
    runs = {'quick': 5000, 'thorough': 50000}
    rule = ('get_long_description over drawn README texts, both error modes and 15 command lines, with every kind of source (missing, directory, unreadable, not UTF-8, unsupported markup, invalid ReST), read errors at drawn '
            'system calls, failing converters and interrupts at drawn executed lines or system calls; non-trivial: distinct plan with a failure')

    def generate(self, r, tier):
        plan = world(r, 0, .1)
        name = f'{ROOT}/{plan["filename"]}'
        if maybe(r, .4):
            plan['files'][name]['b'] = latin(readme(r, 0).encode())
        if maybe(r, .12):  # long ones
            t = plan['files'][name]['b']
            plan['files'][name]['b'] = t + ('\n\n' + pick(r, ['lorem ipsum ', 'x ', '* a\n', '']) * 5).rstrip('\n') * pick(r, [40, 100, 400, 1500]) + pick(r, ['\n\nthe end', '', ' \n'])
        s = {'k': 'long', 'raise': pick(r, [True, False, False, None, 'default', 'default']), 'argv': pick(r, ARGVS), 'locale': pick(r, ['utf-8', 'ascii', 'cp1252']), 'chunk': pick(r, [None, None, 1, 7])}
        k = pick(r, ['none', 'fault', 'fault', 'fault', 'fault', 'interrupt', 'interrupt', 'missing', 'dir', 'mode', 'raising', 'raising', 'stdout', 'rel'])
        if k == 'fault':
            s['faults'] = [{'p': 0, 'sel': pick(r, ['read', 'read', 'openr', 'any', 'close', 'stat']), 'kind': 'errno', 'ppm': r.randrange(PPM), 'e': pick(r, ERRNOS), 'sticky': maybe(r, .3)}]
            if maybe(r, .3):
                s['faults'] = [dict(s['faults'][0], kind='exc', e=pick(r, ['MemoryError', 'RuntimeError', 'ValueError']))]
        elif k == 'interrupt':
            if maybe(r, .6):
                s['faults'] = [{'p': 0, 'sel': 'any', 'kind': 'line', 'ppm': r.randrange(PPM), 'e': pick(r, INTERRUPTS)}]
            else:
                s['faults'] = [{'p': 0, 'sel': pick(r, ['read', 'openr', 'close']), 'kind': 'exc', 'ppm': r.randrange(PPM), 'e': pick(r, INTERRUPTS)}]
        elif k == 'missing':
            del plan['files'][name]
        elif k == 'dir':
            plan['files'][name] = {'d': 1}
        elif k == 'mode':
            plan['files'][name]['mode'] = 0
        elif k == 'raising':
            s['raising'] = [pick(r, ['creole2html', 'html2rest']), pick(r, ['ValueError', 'RecursionError', 'KeyError', 'NotImplementedError', 'UnicodeError', 'RuntimeError', 'OSError', 'AssertionError', 'KeyboardInterrupt', 'SystemExit', 'Cancelled', 'MemoryError'])]
        elif k == 'stdout':
            s['stdout'] = pick(r, ['EPIPE', 'none', 'ENOSPC'])
        elif k == 'rel':
            s['cwd'], s['rel'] = pick(r, [w for w in WHERE if w[1]])
        if maybe(r, .3):
            s['stderr'] = pick(r, ['capture', 'tty'])
        if len(plan['files'].get(name, {}).get('b', '')) > 1500 and s['chunk']:
            s['chunk'] = 1000
        if k in ('none', 'missing', 'mode', 'rel') and maybe(r, .5):
            s['earlier'] = {'k': 'same', 't': 'rst', 'changes': [{'k': 'edit', 'src': source(r, .3)}]}
        plan['steps'] = [s]
        return plan

    def counts(self, plan, st):
        return bool(st['faults']) or plan['steps'][0].get('raising')

    def step(self, w, s, ctx, st, plan):
        job = (spec_of(s), run_long, (w.filename, s['raise'], s.get('raising'), s.get('rel')))
        before = w.fs.snapshot()
        data = w.fs.get(w.src)
        readable = False
        try:
            readable = data is not None and bool(w.fs.walk(w.src, '/').mode & 0o400)
        except simfs.Err:
            pass
        base, sim = w.run([job], s.get('faults', []), [], self.earlier(w, s, ctx, st, plan))
        self.account(st, [base, sim])
        p = sim.procs[0]
        out, value = p.info.get('outcome'), p.info.get('value')
        fired = list(sim.fired) + list(p.info.get('fired', []))
        why = f'raise_errors={s["raise"]!r}, argv {s["argv"]}, faults {fired}'
        if sim.escapes:
            return Violation('escape', f'access outside of the simulated file system: {sim.escapes[:3]}')
        if w.fs.snapshot() != before:
            return Violation('modified', 'the file system was changed')
        text = None
        if readable:
            try:
                text = data.decode('utf-8')
            except UnicodeDecodeError:
                self.fault(st, 'unconvertible (UnicodeDecodeError)')
        else:
            self.fault(st, 'source missing or unreadable')
        strict = s['raise']
        if strict in (None, 'default'):
            strict = len(s['argv']) == 1 or any(a in s['argv'] for a in RAISE)
        exp = ['fail', 'source']
        if text is not None:
            exp = cached(ctx, long_of, text)[0 if strict else 1]
            if exp[0] == 'fail':
                self.fault(st, f'unconvertible ({exp[1]})')
        raised = s.get('raising') and any(t[2] == 'mark' and t[3] == 'raised' for t in sim.trace)
        if raised:
            exp = ['fail', s['raising'][1]]
            self.fault(st, f'converter raises {s["raising"][1]}')
        # interrupts
        intr = [f[-1] for f in fired if f[-1] in INTERRUPTS] + [f['e'] for f in s.get('faults', []) if f['kind'] == 'line' and p.info.get('fired')] + ([s['raising'][1]] if raised and s['raising'][1] in INTERRUPTS else [])
        if intr:
            if out[0] == 'ok' or not out[1].endswith(intr[0]):
                return Violation('interrupt', f'{intr[0]} was raised, but the outcome is {out} {core.short(repr(value))}; {why}')
            return None
        if strict:
            if out[0] == 'ok':
                if exp[0] == 'fail':
                    return Violation('not raised', f'{exp} but a text was returned: {core.short(repr(value))}; {why}')
                if value != exp[1]:
                    return Violation('wrong text', f'returned {core.short(repr(value))}, should be {core.short(repr(exp[1]))}; {why}')
            elif exp[0] == 'ok' and not fired and s.get('stdout', 'capture') == 'capture':
                return Violation('raised', f'raised {out} although everything works; {why}')
            elif out[1] == 'builtins.SystemExit' and out[2] in ('None', '0'):
                return Violation('not raised', f'exit with status 0; {why}')
            return None
        if out[0] != 'ok':
            return Violation('raised', f'raised {out}; {why}')
        if exp[0] == 'ok' and value == exp[1]:
            return None
        if exp[0] == 'ok' and not fired:
            return Violation('wrong text', f'returned {core.short(repr(value))}, should be {core.short(repr(exp[1]))}; {why}')
        if not isinstance(value, str) or not re.match(r'\[?\s*Error', value):
            return Violation('no error note', f'returned {core.short(repr(value))} in spite of {exp if exp[0] == "fail" else fired}; {why}')
        if text is not None and not fired and not value.endswith(text.strip()):
            return Violation('source lost', f'returned {core.short(repr(value))}, which does not end with the source {core.short(repr(text))}; {why}')
        return None


# -- C21 ---------------------------------------------------------------------------------

@register
class C21(ReadmeScenario):
    pid = 'C21'
    runs = {'quick': 4000, 'thorough': 40000}
    rule = ('publish() over drawn README.rst states (fresh, torn, damaged, stale, missing), style tool results (exit status, missing tool, failing start), read faults, SIGKILL and interrupts at drawn system calls and '
            'executed lines, failing upload; non-trivial: every distinct plan')
    real = ['creole.publish', 'creole.setup_utils', 'poetry_publish.utils.subprocess_utils', 'subprocess.check_call', 'creole converters', 'readme_renderer, docutils (validation)']
    stub = ['poetry_publish (the upload step: calls are recorded)', 'child processes (exit status from the plan)', 'file system, system calls, clock, standard streams']
    assumptions = ['the style tool does not change README files itself']

    def generate(self, r, tier):
        plan = world(r, 0, .04)
        data = plan['files'].pop(f'{ROOT}/{plan["filename"]}')
        plan['filename'] = 'README.creole'
        plan['files'][f'{ROOT}/README.creole'] = data
        plan['files'][f'{ROOT}/creole/__init__.py'] = {'b': ''}
        plan['files'][f'{ROOT}/Makefile'] = {'b': 'fix-code-style:\n'}
        if maybe(r, .93):
            plan['files']['/usr/bin/make'] = {'b': '#!', 'mode': pick(r, [0o755] * 12 + [0o644])}
        plan['steps'].append({'k': 'set', 't': 'rst', 'how': 'fresh', 'ppm': 0})
        x = r.random()
        if x < .35:
            plan['steps'].append(damage(r, 'rst'))
        elif x < .45:
            plan['steps'].append(edit(r))
        elif x < .5:
            plan['steps'].append({'k': 'rmsrc'})
        s = ambient(r, {'k': 'publish', 'spawn': [pick(r, [0] * 10 + [1, 2, -9, 'ENOENT', 'EACCES', 'ENOMEM', 127])], 'upload': pick(r, [None] * 6 + ['RuntimeError', 'SystemExit', 'KeyboardInterrupt'])})
        x = r.random()
        if x < .35:
            s['faults'] = [pick(r, [pre_fault, pre_fault, lambda r: {'p': 0, 'sel': 'any', 'kind': 'line', 'ppm': r.randrange(PPM), 'e': pick(r, INTERRUPTS)}])(r)]
            if maybe(r, .2):
                s['faults'].append(pre_fault(r))
        plan['steps'].append(before(r, s))
        return plan

    def step(self, w, s, ctx, st, plan):
        if s['k'] != 'publish':
            return super().step(w, s, ctx, st, plan)
        src = w.fs.get(w.src)
        readme_rst = w.fs.get(w.path('rst'))
        exp = expect(ctx, w.fs, w.src, 'rst')
        job = (spec_of(dict(s, argv=['publish'])), run_publish, (s.get('upload'),))
        base, sim = w.run([job], s.get('faults', []), [], self.earlier(w, s, ctx, st, plan))
        self.account(st, [base, sim])
        p = sim.procs[0]
        out = p.info.get('outcome')
        fired = list(sim.fired) + list(p.info.get('fired', []))
        uploads = [i for i, t in enumerate(sim.trace) if t[2] == 'mark' and t[3] == 'upload']
        style = [(i, t) for i, t in enumerate(sim.trace) if t[2] == 'spawn' and 'fix-code-style' in t[4]]
        want = 'reject' if exp[0] == 'fail' else verdict(readme_rst, exp[1], w.filename)
        tool = plan['files'].get('/usr/bin/make', {}).get('mode', 0) & 0o100
        ok_style = bool(tool) and s['spawn'] == [0]
        why = f'README.rst {want} ({exp[0]}), style tool {"present" if tool else "missing"} {s["spawn"]}, faults {fired}, outcome {out}'
        if want == 'reject':
            self.fault(st, 'gate: README.rst not up-to-date')
        if not ok_style:
            self.fault(st, f'gate: style tool {s["spawn"][0] if tool else "missing"}')
        if s.get('upload'):
            self.fault(st, f'upload raises {s["upload"]}')
        if sim.escapes:
            return Violation('escape', f'access outside of the simulated file system: {sim.escapes[:3]}')
        if len(uploads) > 1:
            return Violation('twice', f'uploaded {len(uploads)} times; {why}')
        if w.fs.get(w.src) != src or w.fs.get(w.path('rst')) != readme_rst:
            return Violation('modified', f'README files were changed; {why}')
        if uploads:
            if want == 'reject':
                return Violation('published', f'uploaded although README.rst is not up-to-date: {show(readme_rst)}; {why}')
            if not ok_style or not style or style[0][0] > uploads[0] or any(t[5] for i, t in style if i < uploads[0] and i == style[-1][0]):
                return Violation('published', f'uploaded without a successful code-style step; {why}')
            calls = p.info.get('calls')
            if calls is not None and calls != [[ROOT, p.info.get('version')]]:
                return Violation('arguments', f'uploaded with {calls}, should be {[ROOT, p.info.get("version")]}')
            if s.get('upload') and p.status == 0:
                return Violation('not reported', f'the upload failed, but success is reported; {why}')
            if not s.get('upload') and p.status not in (0, None) and not fired and s.get('stdout', 'capture') in OKOUT and s.get('stderr', 'file') in OKERR:
                return Violation('failed', f'failed after the upload; {why}')
        elif p.status == 0:
            return Violation('not reported', f'ended without upload and without an error; {why}')
        elif want == 'accept' and ok_style and not fired and s.get('stdout', 'capture') in OKOUT and s.get('stderr', 'file') in OKERR:
            return Violation('failed', f'all gates pass, but nothing was uploaded; {why}')
        intr = [f['e'] for f in s.get('faults', []) if f['kind'] == 'line' and f['e'] in INTERRUPTS]
        if p.info.get('fired') and intr and p.status == 0:
            return Violation('interrupt', f'{intr[0]} was raised, but success is reported; {why}')
        return None
