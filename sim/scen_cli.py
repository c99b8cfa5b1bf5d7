"""C12-C15: the command line tools on the simulated file system."""
import os
import sys

from sim import core, gen, ops, shrink, simfs
from sim.gen import maybe, pick
from sim.scenario import Scenario, Violation, register

CONVS = ['creole2html', 'html2creole', 'html2rest', 'html2textile']
ENCODINGS = [None] * 8 + ['utf-8', 'utf-8', 'latin-1', 'latin-1', 'cp1252', 'utf-16', 'utf-16-le', 'utf-8-sig', 'ascii', 'shift_jis', 'koi8-r', 'UTF8', 'gb18030', 'utf-7', 'utf-32']
ROOT = '/home/u/work'
PPM = 1000000


# -- in the simulated process ------------------------------------------------

def run_cli(conv, raising, earlier=None):
    """The entry point of the console script, with a mark when the converter is done."""
    import creole
    import creole.cmdline
    from sim import hook, simos

    def around(f, a, k):
        if raising:
            simos.CH.call('mark', 'raised')
            raise ops.make_exc(raising, 'injected converter failure')
        r = f(*a, **k)
        simos.CH.call('mark', 'converted')
        return r
    hook.hook(creole, conv, around)
    main = getattr(creole.cmdline, f'cli_{conv}')
    if earlier:
        # the process has called it before, with other files
        argv, sys.argv = sys.argv, sys.argv[:1] + earlier
        try:
            main()
        except BaseException:
            pass
        sys.argv = argv
        simos.CH.call('later')
    main()


def expected(conv, data, encoding):
    """In a pristine process."""
    import creole
    core.ambient_reset()
    try:
        return ['ok', getattr(creole, conv)(data.decode(encoding)).encode(encoding)]
    except Exception as e:
        return ['fail', type(e).__name__]


def ref_expected(ctx, conv, data, encoding):
    key = ('expected', conv, data, encoding)
    if key not in ctx.cache:
        if len(ctx.cache) > 60:
            keep = ctx.cache.pop('servers', None)
            ctx.cache.clear()
            if keep:
                ctx.cache['servers'] = keep
        ctx.cache[key] = core.in_fork(expected, conv, data, encoding)
    return ctx.cache[key]


# -- running ------------------------------------------------------------------

def run_sim(plan, faults=(), lines=None, fs=None):
    earlier = plan.get('earlier')
    sim = simfs.Sim(sorted((earlier['files'] if earlier else plan['files']).items()), faults, [tuple(s) for s in plan.get('switches', ())], free=plan.get('free'), fs=fs)
    if earlier:
        sim.later = simfs.Sim(sorted(plan['files'].items()), free=plan.get('free')).fs
    for i, p in enumerate(plan['procs']):
        spec = {'argv': [f'{p["conv"]}.py'] + p['argv'], 'cwd': p.get('cwd', ROOT), 'locale': p.get('locale', 'utf-8'), 'chunk': p.get('chunk'), 'stdout': p.get('stdout', 'capture'), 'stderr': p.get('stderr', 'file'),
                'stdio': p.get('stdio', 'utf-8'), 'linebuf': p.get('linebuf')}
        if lines and i in lines:
            spec['line'] = lines[i]
        sim.spawn(spec, run_cli, p['conv'], p.get('raising'), earlier and earlier['argv'])
    sim.run()
    return sim


def select(trace, proc, f):
    """Event numbers (of one process) a symbolic fault may hit."""
    sel = f['sel']
    conv = next((i for i, t in enumerate(trace) if t[0] == proc and t[2] == 'mark' and t[3] == 'converted'), None)
    out = []
    for i, t in enumerate(trace):
        if t[0] != proc or t[2] == 'mark':
            continue
        before = conv is None or i < conv
        ok = {
            'any': True, 'before': before, 'after': not before,
            'read': t[2] == 'read', 'write': t[2] == 'write' and not t[3].startswith('<fd'), 'stdout': t[2] == 'write' and t[3].startswith('<fd1'),
            'open': t[2] == 'open', 'openr': t[2] == 'open' and t[4].startswith('r') and '+' not in t[4], 'openw': t[2] == 'open' and ('w' in t[4] or '+' in t[4]),
            'close': t[2] == 'close', 'stat': t[2] in ('stat', 'fstat', 'lseek', 'isatty', 'access'), 'closew': t[2] == 'close' and any(x[2] == 'write' and x[0] == proc and x[3] == t[3] for x in trace),
            'mutate': t[2] in simfs.MUTATIONS and not t[3].startswith('<fd') or t[2] == 'open' and '+' in t[4], 'rename': t[2] in ('rename', 'link', 'unlink', 'fsync', 'chmod', 'utime'),
            'tail': not before and (t[2] in simfs.MUTATIONS or t[2] in ('close', 'fsync') or t[2] == 'open') and not t[3].startswith('<fd'),
        }[sel]
        if ok:
            out.append(t[1])
    return out


def resolve(plan, base, lines_of):
    faults, lines, unresolved = [], {}, 0
    for f in plan.get('faults', ()):
        if f['kind'] == 'line':
            n = lines_of(f['p'])
            if n:
                lines[f['p']] = [1 + f['ppm'] * n // PPM, f['e']]
            continue
        c = select(base.trace, f['p'], f)
        if not c:
            unresolved += 1
            continue
        n = c[f['ppm'] * len(c) // PPM]
        faults.append(dict({k: v for k, v in f.items() if k not in ('sel', 'ppm')}, n=n, ppm=f.get('part', 500000)))
    return faults, lines, unresolved


def content(sim_or_snap, path):
    return sim_or_snap.get(path)


class Judge:
    def __init__(self, plan, ctx):
        self.plan = plan
        self.ctx = ctx
        fs = simfs.Sim(sorted(plan['files'].items())).fs
        self.fs0 = fs
        self.before = fs.snapshot()
        self.procs = []
        for p in plan['procs']:
            d = {}
            d['src'] = absolute(p, p['src'])
            d['dst'] = absolute(p, p['dst'])
            d['data'] = fs.get(d['src'])
            d['old'] = fs.get(d['dst'])
            d['exp'] = ['fail', 'source'] if d['data'] is None or unreadable(fs, d['src']) else ref_expected(ctx, p['conv'], d['data'], 'utf-8' if p['enc'] is None else p['enc'])
            if p.get('raising'):
                d['exp'] = ['fail', 'raising']
            self.procs.append(d)

    def check(self, sim, classes):
        """The first violation of a class the property is about."""
        for i, (p, d) in enumerate(zip(self.plan['procs'], self.procs)):
            for v in self.check_proc(sim, i, p, d):
                if classes is None or v.cls in classes:
                    return v
        return None

    def check_proc(self, sim, i, p, d):
        proc = sim.procs[i]
        final = sim.fs.get(d['dst'])
        who = f'process {i} ({p["conv"]} {p["argv"]})'
        trace = sim.trace
        fired = [f for f in sim.fired if f[0] == i]
        line = [f for f in proc.info.get('fired', [])]
        status = proc.status
        out = proc.info.get('outcome')
        exp = d['exp']
        same = d['src'] == d['dst'] or self.alias(d)
        if not same and sim.fs.get(d['src']) != d['data']:
            yield Violation('source', f'{who}: source changed from {show(d["data"])} to {show(sim.fs.get(d["src"]))}')
        if exp[0] == 'fail':
            if status == 0:
                yield Violation('not reported', f'{who}: cannot be converted ({exp[1]}) but success is reported; destination {show(final)}')
            if final != d['old']:
                yield Violation('destination', f'{who}: cannot be converted ({exp[1]}); destination changed from {show(d["old"])} to {show(final)}')
            return
        complete = exp[1]
        pre = self.before_ready(i, trace, proc)
        if status == 0:
            if pre and line and line[0][1] in ('KeyboardInterrupt', 'SystemExit', 'Cancelled'):
                yield Violation('not reported', f'{who}: {line} before the result was ready, but success is reported')
            if final != complete:
                yield Violation('not reported' if fired and self.early(sim, i, fired) else 'incomplete',
                                f'{who}: success reported, faults {fired}{line}; destination {show(final)}, should be {show(complete)}')
            for f in fired:
                if f[2] == 'close' and f[4] == 'errno' and any(t[0] == i and t[2] == 'write' and t[3] == f[3] for t in trace):
                    yield Violation('close not reported', f'{who}: close of {f[3]} failed with {f[5]} but success is reported')
            return
        hard = fired or line or any(f[4] == 'partial' for f in sim.fired)  # a full disk hits everybody
        if not hard and not self.impeded(p, proc):
            yield Violation('failed', f'{who}: failed without any fault: {out}')
        if pre and final != d['old']:
            yield Violation('destination', f'{who}: {fired}{line} before the result was ready ({out}); destination changed from {show(d["old"])} to {show(final)}')
        if final != d['old'] and not (final is not None and complete.startswith(final)):
            yield Violation('garbage', f'{who}: failed ({out}, faults {fired}{line}); destination {show(final)} is neither the old content {show(d["old"])} nor a prefix of {show(complete)}')

    def early(self, sim, i, fired):
        """Did a fault strike before the converter returned?"""
        mark = next((t[1] for t in sim.trace if t[0] == i and t[2] == 'mark' and t[3] == 'converted'), None)
        return mark is None or any(f[1] <= mark for f in fired)

    def alias(self, d):
        try:
            return self.fs0.walk(d['src'], '/') is self.fs0.walk(d['dst'], '/')
        except simfs.Err:
            return False

    def impeded(self, p, proc):
        """Conditions of the plan (no injected fault) that may make the run fail."""
        return p.get('stdout', 'capture') not in ('capture', 'tty', 'file') or p.get('obstacle') or self.plan.get('free') is not None

    def before_ready(self, i, trace, proc):
        """Did the run end before the converter returned (the result cannot have been ready)?"""
        return i in self.has_mark and not proc.converted


def unreadable(fs, path):
    try:
        n = fs.walk(path, '/')
    except simfs.Err:
        return True
    return n.kind != 'f' or not n.mode & 0o400


def absolute(p, path):
    cwd = p.get('cwd', ROOT)
    return path if path.startswith('/') else cwd + '/' + path


def show(b):
    if b is None:
        return 'missing'
    return f'{len(b)} bytes {core.short(repr(b), 120)}'


def latin(b):
    return b.decode('latin-1')


# -- generation ----------------------------------------------------------------

NAMES = ['a.creole', 'a.html', 'b.txt', 'in put.html', 'sub/x.creole', 'über.txt', 'README.creole', 'a', 'sub/deep/y.html', '.hidden', 'a.creole.html']
BYSTANDERS = ['other.txt', 'a.creole~', 'a.html.bak', 'b.txt.tmp', '.a.html.swp', 'sub/z.bin', 'a.html.tmp', 'tmp', 'out.tmp', 'a.tmp', 'sub/other.html', 'a.rst', 'b.html']


def document(r, conv, enc, big=False):
    lang = 'creole' if conv == 'creole2html' else 'html'
    text = gen.doc(r, lang, 'tk', pick(r, [1, 1, 2, 3, 4]), **({'macros': []} if lang == 'creole' else {}))
    if big:
        size = pick(r, [8192] * 12 + [16384] * 6 + [65536] * 4 + [131072, 270000][:1 + maybe(r, .3)]) + pick(r, [-2, -1, 0, 1, 2, 100])
        word = pick(r, ['lorem ipsum ', 'ümlaut wörd ', 'x ', 'データ '])
        para = (word * 12).strip() + '\n\n'
        if lang == 'html':
            para = f'<p>{(word * 12).strip()}</p>\n'
        n = max(0, size - len(text.encode('utf-8', 'replace'))) // len(para.encode()) + 1
        text = para * n + text
        cut = len(text.encode('utf-8', 'replace')) - size
        if 0 < cut < 200 and maybe(r, .7):
            text = text[cut:] if maybe(r, .3) else text
    if maybe(r, .25):
        text = text.replace('\n', '\r\n')
    if maybe(r, .05):
        text = ''
    return text


def encode(r, text, enc):
    enc = enc or 'utf-8'
    try:
        return text.encode(enc)
    except LookupError:
        return text.encode('utf-8')
    except UnicodeError:
        return text.encode(enc, pick(r, ['replace', 'xmlcharrefreplace', 'ignore']))


def old_content(r, conv):
    k = pick(r, ['missing', 'missing', 'short', 'long', 'empty', 'binary', 'similar'])
    return {'missing': None, 'short': 'old', 'long': 'old content\n' * r.randrange(10, 2000), 'empty': '', 'binary': '\x00\xff\xfe' * 50, 'similar': '<p>old <strong>x</strong></p>\n'}[k]


def base_plan(r, nproc=1, big=.15):
    files = {}
    names = list(NAMES)
    r.shuffle(names)
    for b in BYSTANDERS:
        if maybe(r, .25):
            files[f'{ROOT}/{b}'] = {'b': f'bystander {b}', 'mtime': 1500000000}
    files[ROOT] = {'d': 1}
    files[f'{ROOT}/sub/deep'] = {'d': 1}
    procs = []
    for i in range(nproc):
        conv = pick(r, CONVS)
        enc = pick(r, ENCODINGS)
        src, dst = names.pop(), names.pop()
        if procs and maybe(r, .2):
            src = procs[0]['src']
        text = document(r, conv, enc, maybe(r, big))
        data = encode(r, text, enc)
        if f'{ROOT}/{src}' not in files or files[f'{ROOT}/{src}']['b'].startswith('bystander'):
            files[f'{ROOT}/{src}'] = {'b': latin(data), 'mtime': 1550000000}
        old = old_content(r, conv)
        if old is not None:
            files[f'{ROOT}/{dst}'] = {'b': old, 'mtime': 1540000000}
        else:
            files.pop(f'{ROOT}/{dst}', None)
        p = {'conv': conv, 'src': src, 'dst': dst, 'enc': enc}
        if maybe(r, .2):
            p['src'] = f'{ROOT}/{src}'
        if maybe(r, .2):
            p['dst'] = pick(r, [f'{ROOT}/{dst}', f'./{dst}', f'sub/../{dst}'])
        p['chunk'] = pick(r, [None, None, None, 1 if not big or len(data) < 300 else 4096, 7 if len(data) < 3000 else 1000, 4096, 8191])
        p['stdout'] = pick(r, ['capture', 'tty', 'file', 'EPIPE', 'ENOSPC', 'none']) if maybe(r, .15) else 'capture'
        if maybe(r, .1):
            p['stderr'] = pick(r, ['capture', 'tty', 'none'])
        p['linebuf'] = maybe(r, .4)
        p['locale'] = pick(r, ['utf-8', 'utf-8', 'ascii', 'cp1252', 'latin-1'])
        p['stdio'] = 'utf-8'
        procs.append(p)
    plan = {'files': files, 'procs': procs, 'faults': [], 'switches': []}
    for p in procs:
        arguments(r, p)
    return plan


def arguments(r, p):
    a = [p['src'], p['dst']]
    if p['enc'] is not None:
        a = pick(r, [lambda: a + ['--encoding', p['enc']], lambda: ['--encoding', p['enc']] + a, lambda: [a[0], f'--encoding={p["enc"]}', a[1]]])()
    p['argv'] = a


ERRNOS = ['EIO', 'EACCES', 'ENOSPC', 'EMFILE', 'EINVAL', 'ENOMEM', 'EROFS', 'EDQUOT', 'ESTALE']
EXCS = ['KeyboardInterrupt', 'SystemExit', 'MemoryError', 'Cancelled', 'RuntimeError']


def pre_fault(r, p):
    k = pick(r, ['read', 'read', 'openr', 'before', 'before', 'line', 'line', 'openw', 'stdout', 'stat', 'kill', 'kill', 'exc', 'close'])
    ppm = r.randrange(PPM)
    if k == 'line':
        return {'p': p, 'sel': 'any', 'kind': 'line', 'ppm': ppm, 'e': pick(r, EXCS)}
    if k == 'kill':
        return {'p': p, 'sel': 'before', 'kind': 'kill', 'ppm': ppm, 'after': maybe(r, .3)}
    if k == 'exc':
        return {'p': p, 'sel': pick(r, ['before', 'read', 'openw']), 'kind': 'exc', 'ppm': ppm, 'e': pick(r, EXCS)}
    return {'p': p, 'sel': k, 'kind': 'errno', 'ppm': ppm, 'e': pick(r, ERRNOS), 'sticky': maybe(r, .3)}


def post_fault(r, p):
    k = pick(r, ['errno', 'errno', 'partial', 'torn', 'kill', 'short', 'short', 'close', 'exc', 'line', 'rename'])
    ppm, part = r.randrange(PPM), r.randrange(PPM)
    if k == 'errno':
        return {'p': p, 'sel': pick(r, ['write', 'tail', 'after']), 'kind': 'errno', 'ppm': ppm, 'e': pick(r, ERRNOS), 'sticky': maybe(r, .4)}
    if k == 'close':
        return {'p': p, 'sel': 'closew', 'kind': 'errno', 'ppm': ppm, 'e': pick(r, ['EIO', 'ENOSPC', 'EDQUOT'])}
    if k == 'rename':
        return {'p': p, 'sel': 'rename', 'kind': 'errno', 'ppm': ppm, 'e': pick(r, ERRNOS)}
    if k == 'line':
        return {'p': p, 'sel': 'any', 'kind': 'line', 'ppm': PPM - 1 - min(PPM - 1, int(r.expovariate(1 / 20000))), 'e': pick(r, EXCS)}
    if k == 'exc':
        return {'p': p, 'sel': pick(r, ['write', 'tail']), 'kind': 'exc', 'ppm': ppm, 'e': pick(r, EXCS), 'after': maybe(r, .3)}
    return {'p': p, 'sel': pick(r, ['write', 'write', 'tail']), 'kind': k, 'ppm': ppm, 'part': part, 'after': maybe(r, .5)}


class CliScenario(Scenario):
    real = ['creole.cmdline (console script entry points) with argparse', 'creole converters', 'io.BufferedReader/BufferedWriter/TextIOWrapper, codecs, pathlib, shutil, tempfile',
            'process death: a real SIGKILL of a forked process']
    stub = ['file system, file descriptors and system calls (in-memory)', 'clock', 'standard streams', 'process scheduling (at system calls)']
    assumptions = ['a killed process loses its buffers, but what reached the file system stays (no power loss)']

    def execute(self, plan, ctx):
        st = self.new_stats()
        judge = Judge(plan, ctx)
        key = 'base ' + core.jhash([plan['files'], plan['procs'], plan.get('switches'), plan.get('free')])
        base = run_sim(plan)
        judge.has_mark = {p.idx for p in base.procs if p.converted}
        st['system_calls'] = base.g
        st['simulated_seconds'] = (base.now - base.start) / 1e9
        st['processes'] = len(base.procs)
        v = self.judged(judge, base) or self.extra(plan, judge, base)
        if plan.get('earlier'):
            st['faults']['the process has used the tool before'] = 1
        for p in base.procs:
            if p.info.get('threads'):
                st['threads'] = st.get('threads', 0) + p.info['threads']
        if v is None and plan['faults']:
            def lines_of(i):
                k = key + f' lines {i}'
                if k not in ctx.cache:
                    ctx.cache[k] = run_sim(plan, (), {i: [0, '']}).procs[i].info.get('lines', 0)
                return ctx.cache[k]
            faults, lines, unresolved = resolve(plan, base, lines_of)
            if faults or lines:
                sim = run_sim(plan, faults, lines)
                st['system_calls'] += sim.g
                st['processes'] += len(sim.procs)
                st['simulated_seconds'] += (sim.now - sim.start) / 1e9
                for f in sim.fired:
                    k = f'{f[4]} {f[5]} at {f[2]}'.replace('  ', ' ')
                    st['faults'][k] = st['faults'].get(k, 0) + 1
                for p in sim.procs:
                    for f in p.info.get('fired', []):
                        k = 'exception at an executed line'
                        st['faults'][k] = st['faults'].get(k, 0) + 1
                if sim.fired or any(p.info.get('fired') for p in sim.procs):
                    st['nontrivial'] = core.jhash(plan)
                v = self.judged(judge, sim) or self.extra(plan, judge, sim)
        for i, (p, d) in enumerate(zip(plan['procs'], judge.procs)):
            if d['exp'][0] == 'fail':
                k = f'unconvertible ({d["exp"][1]})'
                st['faults'][k] = st['faults'].get(k, 0) + 1
        if base.nswitch:
            st['switches'] = base.nswitch
        st['distinct']['system call sequences'] = {core.jhash([t[:4] for t in base.trace])}
        if st['nontrivial'] is None and self.interesting(plan, judge, base):
            st['nontrivial'] = core.jhash(plan)
        return v, st

    classes = None

    def judged(self, judge, sim):
        v = judge.check(sim, self.classes)
        return v

    def interesting(self, plan, judge, base):
        return False

    def extra(self, plan, judge, sim):
        if sim.escapes:
            return Violation('escape', f'access outside of the simulated file system: {sim.escapes[:3]}')
        return None

    def describe(self, plan):
        return {'files': {k: core.short(str(v), 120) for k, v in plan['files'].items()}, 'procs': plan['procs'], 'faults': plan['faults'], 'switches': plan['switches'][:10]}

    def shrink(self, plan):
        n = len(plan['procs'])
        for i in range(n):
            if n > 1:
                fl = [dict(f, p=f['p'] - (f['p'] > i)) for f in plan['faults'] if f['p'] != i]
                sw = [[g, max(0, to - (to > i))] for g, to in plan['switches']]
                yield shrink.replaced(plan, procs=shrink.without(plan['procs'], i), faults=fl, switches=sw)
        if plan.get('earlier'):
            yield shrink.replaced(plan, earlier=None)
        for c in shrink.chunks(plan['faults']):
            yield shrink.replaced(plan, faults=c)
        for c in shrink.chunks(plan['switches']):
            yield shrink.replaced(plan, switches=c)
        used = {absolute(p, p[k]) for p in plan['procs'] for k in ('src', 'dst')}
        for f in sorted(plan['files']):
            if f not in used and 'd' not in plan['files'][f] and not any('l' in s or 'h' in s for s in plan['files'].values()):
                yield shrink.replaced(plan, files={k: v for k, v in plan['files'].items() if k != f})
        for i, p in enumerate(plan['procs']):
            for k, v in (('chunk', None), ('stdout', 'capture'), ('linebuf', False), ('locale', 'utf-8')):
                if p.get(k) != v:
                    yield shrink.replaced(plan, procs=plan['procs'][:i] + [dict(p, **{k: v})] + plan['procs'][i + 1:])
            s = absolute(p, p['src'])
            if s in plan['files'] and 'b' in plan['files'][s]:
                for t in shrink.texts(plan['files'][s]['b']):
                    yield shrink.replaced(plan, files=dict(plan['files'], **{s: dict(plan['files'][s], b=t)}))


@register
class C12(CliScenario):
    pid = 'C12'
    classes = ('source', 'not reported', 'destination')
    runs = {'quick': 4200, 'thorough': 60000}
    rule = ('one command-line conversion (4 commands, 15 encodings, any previous destination) that cannot complete: undecodable byte at a drawn position, unknown codec, unencodable result, missing/unreadable source, '
            'raising converter, or a system-call error, SIGKILL or exception at a drawn system call or executed line before the result is ready; non-trivial: distinct plan in which the failure took place')

    def generate(self, r, tier):
        plan = base_plan(r, 1, .12)
        p = plan['procs'][0]
        src = absolute(p, p['src'])
        name = f'{ROOT}/' + p['src'].replace(f'{ROOT}/', '')
        k = pick(r, ['fault'] * 8 + ['bytes', 'bytes', 'codec', 'encode', 'encode', 'missing', 'mode', 'dir', 'raising', 'raising', 'dstdir', 'dstmode', 'dstparent', 'stdout', 'link'])
        f = plan['files'][name]
        if k == 'bytes':
            pos = r.randrange(len(f['b']) + 1)
            f['b'] = f['b'][:pos] + pick(r, ['\xff', '\xc3', '\xe2\x82', '\x80', '\xf0\x9f', '\xed\xa0\x80']) + (f['b'][pos:] if maybe(r, .7) else '')
        elif k == 'codec':
            p['enc'] = pick(r, ['nonsense', 'rot13', 'hex', 'base64', 'utf-99', '', 'idna '])
            p['argv'] = [p['src'], p['dst'], '--encoding', p['enc']]
        elif k == 'encode':
            p['conv'] = pick(r, CONVS[1:])
            p['enc'] = pick(r, ['ascii', 'latin-1', 'cp1252', 'koi8-r', 'shift_jis'])
            t = gen.doc(r, 'html', 'tk', 2) + pick(r, ['<p>&euro;&#9731;</p>', '<b>&#128512;</b>', '&hearts;x', '<p>&#1090;</p>'])
            f['b'] = latin(t.encode(p['enc'], 'ignore'))
            arguments(r, p)
        elif k == 'missing':
            del plan['files'][name]
        elif k == 'mode':
            f['mode'] = 0
        elif k == 'dir':
            plan['files'][name] = {'d': 1}
        elif k == 'raising':
            p['raising'] = pick(r, ['ValueError', 'RecursionError', 'MemoryError', 'KeyboardInterrupt', 'NotImplementedError', 'AssertionError', 'SystemExit', 'UnicodeError', 'OSError', 'RuntimeError'])
        elif k.startswith('dst'):
            p['obstacle'] = k
            dst = f'{ROOT}/' + p['dst'].replace('sub/../', '').replace('./', '').replace(f'{ROOT}/', '')
            if k == 'dstdir':
                plan['files'][dst] = {'d': 1}
            elif k == 'dstmode':
                plan['files'][dst] = {'b': 'old', 'mode': 0o400}
            else:
                plan['files'].pop(dst, None)
                p['dst'] = 'nodir/' + p['dst'].lstrip('/')
                p['enc'] = None
                arguments(r, p)
        elif k == 'stdout':
            p['stdout'] = pick(r, ['EPIPE', 'ENOSPC', 'EIO', 'none'])
        elif k == 'link':
            p['obstacle'] = k
            dst = f'{ROOT}/' + p['dst'].replace('sub/../', '').replace('./', '').replace(f'{ROOT}/', '')
            plan['files'][dst] = {'l': pick(r, ['nowhere/x', dst])}
            plan['faults'] = [pre_fault(r, 0)]
        else:
            plan['faults'] = [pre_fault(r, 0) for _ in range(pick(r, [1, 1, 1, 2]))]
        return plan

    def interesting(self, plan, judge, base):
        return judge.procs[0]['exp'][0] == 'fail' or base.procs[0].status != 0


@register
class C13(CliScenario):
    pid = 'C13'
    classes = ('not reported', 'close not reported', 'incomplete', 'failed', 'garbage')
    runs = {'quick': 2800, 'thorough': 40000}
    rule = ('1-4 command-line conversions on different files, their system calls interleaved by a drawn schedule; reads and writes split into drawn pieces, sizes across buffer boundaries, and write errors, full disk, '
            'failing close, torn writes, SIGKILL at drawn system calls; non-trivial: distinct plan with a split transfer, a switch or a fault that took place')

    def generate(self, r, tier):
        n = pick(r, [1, 1, 1, 2, 2, 3, 4])
        plan = base_plan(r, n, .2 if n == 1 else .08)
        if n > 1:
            for _ in range(r.randrange(1, 14)):
                plan['switches'].append([r.randrange(1, 14 * n), r.randrange(n)])
        x = r.random()
        if x < .6:
            plan['faults'] = [post_fault(r, r.randrange(n)) for _ in range(pick(r, [1, 1, 1, 2, 3]))]
            if any(len(f.get('b', '')) > 20000 for f in plan['files'].values()):
                plan['faults'] = [f for f in plan['faults'] if f['kind'] != 'line']
        elif x < .7:
            plan['free'] = r.randrange(1, 3000)
        elif n == 1 and x < .9:
            p = plan['procs'][0]
            q = dict(p, src=p['src'] if maybe(r, .6) else 'before.in', dst=p['dst'] if maybe(r, .5) else 'before.out', enc=p['enc'] if maybe(r, .5) else pick(r, ENCODINGS))
            arguments(r, q)
            files = dict(plan['files'])
            text = document(r, p['conv'], q['enc'])
            for f in (absolute(p, p['src']), absolute(q, q['src'])):
                files[f] = {'b': latin(encode(r, text, q['enc'])), 'mtime': 1545000000}
            if maybe(r, .2):
                del files[absolute(q, q['src'])]
            plan['earlier'] = {'files': files, 'argv': q['argv']}
        return plan

    def interesting(self, plan, judge, base):
        return base.nswitch or any(p.get('chunk') for p in plan['procs']) or any(len(d['exp'][1]) > 8000 for d in judge.procs if d['exp'][0] == 'ok')


@register
class C14(CliScenario):
    pid = 'C14'
    classes = ('not reported', 'close not reported', 'incomplete', 'failed', 'garbage', 'destination')
    runs = {'quick': 2900, 'thorough': 40000}
    rule = ('a command-line conversion whose destination is its source (same name, other spelling, symbolic link to either side, chain of links, linked directory, hard link), fault-free or with faults as in C12 and '
            'C13; non-trivial: every distinct plan')

    def generate(self, r, tier):
        plan = base_plan(r, 1, .25)
        p = plan['procs'][0]
        name = f'{ROOT}/' + p['src'].replace(f'{ROOT}/', '')
        rel = name[len(ROOT) + 1:]
        kind = pick(r, ['same', 'dot', 'dotdot', 'abs', 'symlink', 'symlink2', 'chain', 'dirlink', 'hardlink', 'abslink', 'slashes', 'linkdotdot', 'linkdotdot'])
        link = f'{ROOT}/link.out'
        other = 'link.out'
        if kind == 'same':
            other = rel
        elif kind == 'dot':
            other = './' + rel
        elif kind == 'dotdot':
            other = 'sub/deep/../../' + rel
        elif kind == 'abs':
            other = name
        elif kind == 'slashes':
            other = './/' + rel.replace('/', '//')
        elif kind in ('symlink', 'symlink2'):
            plan['files'][link] = {'l': rel}
        elif kind == 'abslink':
            plan['files'][link] = {'l': name}
        elif kind == 'chain':
            plan['files'][link] = {'l': 'link2'}
            plan['files'][f'{ROOT}/link2'] = {'l': f'./{rel}'}
        elif kind == 'dirlink':
            plan['files'][f'{ROOT}/zdir'] = {'l': '.'}
            other = 'zdir/' + rel
        elif kind == 'hardlink':
            plan['files'][f'{ROOT}/zlink.out'] = {'h': name}
            other = 'zlink.out'
        elif kind == 'linkdotdot':
            # the real parent of the linked directory is not the one the path seems to name
            decoy = other = 'ldir/../' + os.path.basename(rel)
            plan['files'][f'{ROOT}/' + pick(r, ['sub/deep', 'sub'])] = {'d': 1}
            if rel.startswith('sub/') and '/' not in rel[4:]:
                plan['files'][f'{ROOT}/ldir'] = {'l': 'sub/deep'}
            elif rel.startswith('sub/deep/'):
                plan['files'][f'{ROOT}/sub/deep/er'] = {'d': 1}
                plan['files'][f'{ROOT}/ldir'] = {'l': 'sub/deep/er'}
            else:
                plan['files'][f'{ROOT}/ldir'] = {'l': 'sub'}
            decoy = os.path.normpath(f'{ROOT}/{decoy}')
            if decoy != name and maybe(r, .5):
                plan['files'][decoy] = {'b': 'decoy'}
        p['src'], p['dst'] = rel, other
        if maybe(r, .35) and kind != 'same':
            p['src'], p['dst'] = p['dst'], p['src']
        arguments(r, p)
        x = r.random()
        if x < .35:
            plan['faults'] = [pre_fault(r, 0)]
        elif x < .55:
            plan['faults'] = [post_fault(r, 0)]
        elif x < .62:
            p['raising'] = pick(r, ['ValueError', 'KeyboardInterrupt', 'RecursionError'])
        elif x < .7:
            f = plan['files'][name]
            pos = r.randrange(len(f['b']) + 1)
            f['b'] = f['b'][:pos] + pick(r, ['\xff', '\xc3', '\xe2\x82']) + f['b'][pos:]
        return plan

    def interesting(self, plan, judge, base):
        return True


@register
class C15(CliScenario):
    pid = 'C15'
    classes = ()
    runs = {'quick': 3300, 'thorough': 40000}
    rule = ('1-3 command-line conversions, or README updates and checks, in directories with drawn other files (backup, temporary and similarly named ones), ending in success or in a failure by any fault that leaves '
            'the process alive; the complete file system is compared; non-trivial: distinct plan with other files present')

    def readme(self):
        from sim import scen_readme
        return scen_readme.C15Readme()

    def execute(self, plan, ctx):
        return self.readme().execute(plan, ctx) if plan.get('kind') == 'readme' else super().execute(plan, ctx)

    def describe(self, plan):
        return self.readme().describe(plan) if plan.get('kind') == 'readme' else super().describe(plan)

    def shrink(self, plan):
        return self.readme().shrink(plan) if plan.get('kind') == 'readme' else super().shrink(plan)

    def generate(self, r, tier):
        if maybe(r, .4):
            return self.readme().generate(r, tier)
        if maybe(r, .2):
            return C14().generate(r, tier)
        n = pick(r, [1, 1, 2, 3])
        plan = base_plan(r, n, .05)
        x = r.random()
        if x < .7:
            plan['faults'] = [pick(r, [pre_fault, post_fault])(r, r.randrange(n))]
        if n > 1:
            for _ in range(r.randrange(1, 14)):
                plan['switches'].append([r.randrange(1, 14 * n), r.randrange(n)])
        return plan

    def interesting(self, plan, judge, base):
        return len(plan['files']) > 4

    def extra(self, plan, judge, sim):
        v = super().extra(plan, judge, sim)
        if v:
            return v
        if any(p.status is None for p in sim.procs):
            return None
        return footprint(judge.before, sim.fs, [d['dst'] for d in judge.procs], judge.fs0)


def footprint(before, fs, allowed, fs0):
    """Everything but the allowed destinations is unchanged."""
    ok = set()
    for a in allowed:
        ok.add(os.path.normpath(a))
        ok.update(canonical(fs0, a))
    after = fs.snapshot()
    for path in sorted(set(before) | set(after)):
        if path in ok:
            continue
        a, b = before.get(path), after.get(path)
        if a is None:
            return Violation('extra file', f'{path} was created: {core.short(repr(b), 200)}; allowed {sorted(ok)}')
        if b is None:
            return Violation('lost file', f'{path} is gone; it was {core.short(repr(a), 200)}')
        if a[:3] != b[:3]:
            return Violation('changed file', f'{path} changed from {core.short(repr(a[:3]), 200)} to {core.short(repr(b[:3]), 200)}')
    return None


def canonical(fs, path):
    """All paths of the file a destination refers to."""
    try:
        node = fs.walk(path, '/')
    except simfs.Err:
        return set()
    out = set()

    def rec(n, p):
        for k, v in n.entries.items():
            if v is node:
                out.add(p + '/' + k)
            if v.kind == 'd':
                rec(v, p + '/' + k)
    rec(fs.root, '')
    return out
