"""C24: every macro call and every unknown-tag handler call happens exactly once, in document order."""
import copy
import io
import re
import sys
import _thread

from sim import conc, core, gen, ops, sched, shrink
from sim.conc import PPM
from sim.gen import maybe, pick
from sim.scen_mem import random_switches
from sim.scen_macro import A, B, P, Q
from sim.scenario import Scenario, Violation, register

TAGS = ['t0', 't1', 't2']          # called without text
TEXTS = ['i0', 'i1', 'b0']         # called with text
ERRORS = ['ValueError', 'TypeError', 'TypeError', 'KeyError', 'AttributeError', 'RuntimeError', 'AssertionError', 'OSError', 'StopIteration', 'UnicodeError',
          'RecursionError', 'ImportError', 'NotImplementedError']
INTERRUPTS = ['KeyboardInterrupt', 'SystemExit', 'Cancelled']
ARGS = [('', {}), ('', {}), (' b="x y"', {'b': 'x y'}), (' c=True', {'c': True}), (" d='1'", {'d': 1}), (' e=a f=2', {'e': 'a', 'f': 2}), (' b=" x "', {'b': ' x '}), (' g=None', {'g': None})]
UNKNOWN = ['x-a', 'x-b', 'abbr', 'font']


class Template(gen.Creole):
    """A creole document with placeholders for calls."""
    wild = False

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.calls = []

    def call(self, kind):
        r = self.r
        n = len(self.calls)
        if self.calls and maybe(r, .45):  # the very same call again
            old = [c for c in self.calls if c['kind'] == kind]
            if old:
                self.calls.append(copy.deepcopy(pick(r, old)))
                return f'{P}{n}{Q}'
        name = pick(r, TAGS if kind == 'tag' else TEXTS)
        i = r.randrange(len(ARGS))
        self.calls.append({'name': name, 'kind': kind, 'args': i, 'text': pick(r, ['one', 'two', 'a b', 'Zoë', 'x&y', "it's"])})
        return f'{P}{n}{Q}'

    def macro_tag(self):
        return self.call('tag')

    def macro_inline(self):
        return self.call('inline')

    def macro_block(self):
        return self.call('block')


def build(doc, ids):
    def one(m):
        n = int(m.group(1))
        c = doc['calls'][n]
        args = (f' id={n}' if ids else '') + ARGS[c['args']][0]
        if c['kind'] == 'tag':
            return f'<<{c["name"]}{args}>>'
        if c['kind'] == 'inline':
            return f'<<{c["name"]}{args}>>{c["text"]}<</{c["name"]}>>'
        return f'<<{c["name"]}{args}>>\n{c["text"]}\nline\n<</{c["name"]}>>'
    return re.sub(f'{P}(\\d+){Q}', one, doc['template'])


def expected(doc, n):
    c = doc['calls'][n]
    text = {'tag': None, 'inline': c['text'], 'block': c['text'] + '\nline'}[c['kind']]
    return [c['name'], sorted([k, v] for k, v in ARGS[c['args']][1].items()), text]


class Unknown(gen.Html):
    """An HTML document with unknown elements."""
    wild = False

    def __init__(self, *a, **k):
        super().__init__(*a, broken=False, **k)
        self.seen = 0

    def unknown(self, depth=1):
        n = self.seen
        self.seen += 1
        name = pick(self.r, UNKNOWN)
        inner = self.inline(depth + 1) if maybe(self.r, .8) else ''
        return f'<{name} n="{n}">{inner}</{name}>'

    def span(self, depth):
        if depth <= 3 and maybe(self.r, .3):
            return self.unknown(depth)
        return super().span(depth)

    def text(self):
        return super().text().replace('>', '&gt;')


def make_doc(r, size=None):
    if maybe(r, .6):
        t = Template(r, 'tk', size or pick(r, [1, 2, 3, 4]), macros=[], swarm=maybe(r, .7))
        text = '\n\n'.join(t.block() for _ in range(t.size))
        while len(t.calls) < 2:
            text += '\n\n' + pick(r, ['para ', '* item ', '|a|', '= head\n\n', '# num ', '**b** ']) + t.call(pick(r, ['tag', 'inline'])) + ' end'
        if maybe(r, .3):
            blocks = text.split('\n\n') + ([f'= {pick(r, gen.HEADS)}'] if maybe(r, .6) else [])
            blocks.insert(r.randrange(len(blocks) + 1), pick(r, ['<<toc>>', '<<toc>>', '<<toc depth=2>>']))
            text = '\n\n'.join(blocks)
        return {'fn': 'creole2html', 'template': text, 'calls': t.calls}
    u = Unknown(r, 'tk', size or pick(r, [1, 2, 3, 4]), swarm=maybe(r, .7))
    text = '\n'.join(u.block() for _ in range(u.size))
    while u.seen < 2:
        text += f'<p>a {u.unknown()} b {u.unknown()}</p>'
    return {'fn': pick(r, gen.HTML_FNS), 'src': text}


# what follows the mark in the result of a macro or handler
TAILS = ['\n', 'a\nb', ' ', '  \n\n  ', '<br />', '<br />\nx', '\t\x0b', ' |x|', '**b** //i//', '<<html>>x<</html>>', '<<nope>>', '{{{', '\u2028', 'ä' * 300, '%s {0} \\1 \\g<0>', '&amp; &lt;', '<', '\x00', '</p>', '\\\\', '* a']


class Caller:
    """The macros or the handler of one run, and what they were called with, per thread."""

    def __init__(self, faults, ids=False, tail=''):
        self.tail = tail
        self.log = {}
        self.faults = faults
        self.ids = ids

    def note(self, rec):
        me = self.log.setdefault(_thread.get_ident(), [])
        k = len(me)
        me.append(rec)
        return k

    def macros(self, kind):
        table = {n: self.macro(n) for n in TAGS + TEXTS}
        if kind == 'dict':
            return table
        h = type('Macros', (), {})()
        h.__dict__.update(table)
        return h

    def macro(self, name):
        def call(text='<no text>', id=None, **kw):
            k = self.note([name, sorted([a, b] for a, b in kw.items()), text] + ([id] if self.ids else []))
            f = self.faults.get(str(k))
            if f:
                if f[0] == 'raise':
                    raise ops.make_exc(f[1], f'fault {k}')
                return {'none': None, 'int': 1, 'bytes': b'x'}[f[1]]
            return f'{A}{id if self.ids else k}{B}{self.tail}'
        return call

    def handler(self, emitter, node):
        if node.kind not in UNKNOWN:  # hr, form, unbalanced markup ...
            return emitter.emit_children(node)
        k = self.note([node.kind, node.attrs.get('n')])
        f = self.faults.get(str(k))
        if f:
            if f[0] == 'raise':
                raise ops.make_exc(f[1], f'fault {k}')
            return {'none': None, 'int': 1, 'bytes': b'x'}[f[1]]
        return f'{A}{k}{B}{emitter.emit_children(node)}{self.tail}'


def convert(doc, caller, opts, ids=False):
    import creole
    o = dict(opts)
    times = o.pop('times', 1)
    kind = o.pop('container', 'dict')
    if doc['fn'] == 'creole2html':
        if o.get('verbose') == 2:
            o['stderr'] = io.StringIO()
        macros = caller.macros(kind)
        if times == 1:
            return creole.creole2html(build(doc, ids), macros=macros, **o)
        from creole.emitter.creol2html_emitter import HtmlEmitter
        from creole.parser.creol2html_parser import CreoleParser
        tree = CreoleParser(build(doc, ids), blog_line_breaks=o.get('blog_line_breaks', True)).parse()
        kw = {k: v for k, v in o.items() if k in ('verbose', 'stderr', 'strict')}
        return [HtmlEmitter(tree, macros=macros, **kw).emit() for _ in range(times)][-1]
    return getattr(creole, doc['fn'])(doc['src'], unknown_emit=caller.handler, **{k: v for k, v in o.items() if k == 'debug'})


def outcome(fn):
    try:
        r = fn()
        return ['ok', r if isinstance(r, str) else f'<<{type(r).__name__}>>']
    except sched.Abort:
        raise
    except core.HarnessError:
        raise
    except BaseException as e:
        return core.outcome_of_exception(e)


def base(doc, opts, tail=''):
    """The calls the document makes: [expected records, events, document] or a problem."""
    core.ambient_reset()
    plain = {k: v for k, v in opts.items() if k in ('blog_line_breaks', 'strict')}
    c = Caller({}, ids=True, tail=tail)
    places = []
    if doc['fn'] == 'creole2html':
        out, n, _ = sched.count_events(lambda: convert(doc, c, plain, ids=True), places=places)
        if out[0] != 'ok':
            return ['failed', core.short(out)]
        if '[Error:' in out[1] or '&lt;&lt;/' in out[1] or re.search('&lt;&lt;[tib]\\d', out[1]):  # markup around a call took it apart
            return ['skip']
        active = [int(x) for x in re.findall(f'{A}(\\d+){B}', out[1])]
        if len(set(active)) != len(active):
            return ['skip']
        log = next(iter(c.log.values()), [])
        want = [expected(doc, i) + [i] for i in active]
        if log != want:
            return ['calls', f'document {core.short(build(doc, True), 600)!r} should call {core.short(want, 900)}, called {core.short(log, 900)}']
        return ['ok', [w[:3] for w in want], n, re.sub(f'{A}\\d+{B}', A, out[1]), places]
    import creole
    want = []

    def walk(node):
        if node.kind in UNKNOWN:
            want.append([node.kind, node.attrs.get('n')])
        for child in node.children:
            walk(child)
    out = outcome(lambda: walk(creole.parse_html(doc['src'])))
    if out[0] == 'exc':
        return ['skip']
    out, n, _ = sched.count_events(lambda: convert(doc, c, plain), places=places)
    if out[0] != 'ok':
        return ['skip']
    return ['ok', want, n, out[1], places]


def run(docs, opts, faults, switches, asynchronous, budget, tail=''):
    """In a fork: all documents, one thread each; the log per document."""
    core.ambient_reset()
    sys.setswitchinterval(1000)
    s = sched.Scheduler(budget=budget)
    results = [None] * len(docs)
    logs = [None] * len(docs)
    shared = Caller(faults[0], tail=tail) if opts[0].get('shared') else None

    def body_for(i):
        def body(t):
            c = shared or Caller(faults[i], tail=tail)
            table = {}
            if asynchronous.get(i):
                ev, name = asynchronous[i]
                table = {ev: lambda: ops.make_exc(name, f'injected {i}')}
            s.begin_op(t, switches.get(i, {}), table)
            o = {k: v for k, v in opts[i].items() if k != 'shared'}
            try:
                results[i] = outcome(lambda: convert(docs[i], c, o))
            finally:
                s.end_op(t)
            logs[i] = [c.log.get(t.ident, []), sum(map(len, c.log.values())) if not shared else 0]
        return body
    for i in range(len(docs)):
        s.add(body_for(i))
    s.run(0)
    return {'results': results, 'logs': logs, 'problem': s.problem, 'switches': s.switches, 'hash': s.hash.hexdigest()[:16], 'sites': sorted(s.sites),
            'fired': [[t.idx] + f for t in s.tasks for f in t.fired], 'events': s.total}


def subsequence(a, b):
    it = iter(b)
    return all(any(x == y for y in it) for x in a)


@register
class C24(Scenario):
    pid = 'C24'
    level = 'exploration'
    runs = {'quick': 7000, 'thorough': 150000}
    rule = ('1-3 simulated threads convert generated documents full of (often identical) macro calls or unknown elements; every call is logged per thread, '
            'calls fail as drawn, memory errors and interrupts arrive at drawn lines; non-trivial: at least two calls; distinct by plan')
    real = ['creole.* parsers and emitters']
    stub = ['macros and unknown-tag handlers (recording, fault-injecting)', 'thread scheduling', 'streams']

    def generate(self, r, tier):
        n = pick(r, [1, 1, 1, 2, 3])
        docs = [make_doc(r) for _ in range(n)]
        if n > 1 and maybe(r, .4):
            docs[1] = copy.deepcopy(docs[0])
        opts, faults = [], []
        for d in docs:
            o = {}
            if d['fn'] == 'creole2html':
                o['container'] = pick(r, ['dict', 'object'])
                if maybe(r, .5):
                    o['verbose'] = pick(r, [0, 1, 2, 2])
                if maybe(r, .2):
                    o['strict'] = True
                if maybe(r, .2):
                    o['blog_line_breaks'] = False
                if maybe(r, .1):
                    o['times'] = 2
            if maybe(r, .06):
                o['debug'] = True
            opts.append(o)
            f = {}
            if maybe(r, .5):
                for _ in range(pick(r, [1, 1, 2, 4])):
                    f[str(r.randrange(6))] = ['raise', pick(r, ERRORS)] if maybe(r, .75) else ['ret', pick(r, ['none', 'int', 'bytes'])]
                if maybe(r, .12):
                    f[str(r.randrange(6))] = ['raise', pick(r, INTERRUPTS)]
            faults.append(f)
        if n > 1 and maybe(r, .3):
            opts[0]['shared'] = True
        late = []
        if maybe(r, .25):
            late.append([r.randrange(n), conc.place(r), pick(r, ['MemoryError', 'KeyboardInterrupt', 'Cancelled', 'RuntimeError'])])
        return {'tail': pick(r, TAILS) if maybe(r, .4) else '', 'docs': docs, 'opts': opts, 'faults': faults, 'async': late, 'switches': random_switches(r, [[0]] * n) if n > 1 else []}

    def execute(self, plan, ctx):
        st = self.new_stats()
        bases = [core.in_fork(base, d, o, plan.get('tail', '')) for d, o in zip(plan['docs'], plan['opts'])]
        for b in bases:
            if b[0] in ('failed', 'calls'):
                return Violation(b[0], b[1]), st
        if any(b[0] == 'skip' for b in bases):
            return None, st
        switches, late = {}, {}
        for t, j, ppm, to in plan['switches']:
            if t < len(bases):
                switches.setdefault(t, {})[conc.at(ppm, bases[t][2], bases[t][4])] = to
        for t, ppm, name in plan['async']:
            if t < len(bases):
                late[t] = [conc.at(ppm, bases[t][2], bases[t][4]), name]
        try:
            res = core.in_fork(run, plan['docs'], plan['opts'], plan['faults'], switches, late, 200000 + 60 * sum(b[2] for b in bases), plan.get('tail', ''))
        except core.Hang as e:
            return Violation('hang', str(e)), st
        st['sim_steps'] = res['events']
        st['switches'] = res['switches']
        st['distinct']['interleavings'] = {res['hash']} if res['switches'] else set()
        st['distinct']['preemption_sites'] = set(res['sites'])
        for f in res['fired']:
            st['faults'][f[2]] = st['faults'].get(f[2], 0) + 1
        if res['problem']:
            return Violation(*res['problem']), st
        total = 0
        for i, b in enumerate(bases):
            d, o, want = plan['docs'][i], plan['opts'][i], b[1]
            faults = plan['faults'][0 if plan['opts'][0].get('shared') else i]
            log, everywhere = res['logs'][i]
            total += len(log)
            for k in range(len(log)):
                if str(k) in faults:
                    f = faults[str(k)]
                    st['faults']['call: ' + f[1]] = st['faults'].get('call: ' + f[1], 0) + 1
            out = res['results'][i]
            times = o.get('times', 1) if d['fn'] == 'creole2html' else 1
            where = f'{d["fn"]} {core.short(build(d, False) if "calls" in d else d["src"], 600)!r} with faults {faults}, options {o}'
            if everywhere and everywhere != len(log):
                return Violation('thread', f'{where}: {everywhere - len(log)} calls on another thread'), st
            hit = any(f[0] == i for f in res['fired'])
            full = want * times
            if d['fn'] != 'creole2html':
                # a failing handler ends the conversion
                first = min((int(k) for k in faults if int(k) < len(full)), default=None)
                stop = None if first is None else first + 1
                should = full if stop is None else full[:stop]
                if hit:
                    if not (len(log) <= len(should) and log == should[:len(log)]):
                        return Violation('calls', f'{where}, interrupted: should call (at most) {core.short(should, 900)}, called {core.short(log, 900)}'), st
                elif log != should:
                    return Violation('calls', f'{where}: should call {core.short(should, 900)}, called {core.short(log, 900)}'), st
                continue
            stop = min((int(k) for k, f in faults.items() if int(k) < len(full) and f[1] in INTERRUPTS), default=None)
            should = full if stop is None else full[:stop + 1]
            if hit:
                if not subsequence(log, full):
                    return Violation('calls', f'{where}, with a {res["fired"]} injected: should call at most {core.short(full, 900)}, called {core.short(log, 900)}'), st
                continue
            if log != should:
                return Violation('calls', f'{where}: should call {core.short(should, 900)}, called {core.short(log, 900)}'), st
            if stop is None and out[0] == 'ok':
                got = [int(x) for x in re.findall(f'{A}(\\d+){B}', out[1])]
                lo = len(want) * (times - 1)
                fine = [k for k in range(lo, len(full)) if str(k) not in faults]
                if got != fine:
                    return Violation('place', f'{where}: results of the calls {fine} should stand in this order, but {got} do: {core.short(out[1], 600)!r}'), st
                if fine == list(range(lo, len(full))) and re.sub(f'{A}\\d+{B}', A, out[1]) != b[3]:
                    return Violation('place', f'{where}: {core.short(out[1], 600)!r}, but with other arguments {core.short(b[3], 600)!r}'), st
            elif stop is None:
                return Violation('raised', f'{where}: {core.short(out)}'), st
        st['calls'] = total
        st['nontrivial'] = core.jhash(plan) if total > 1 else None
        return None, st

    def describe(self, plan):
        return {'docs': [core.short(build(d, False) if 'calls' in d else d['src'], 300) for d in plan['docs']], 'faults': plan['faults'], 'async': plan['async'], 'switches': plan['switches'][:6]}

    def shrink(self, plan):
        n = len(plan['docs'])
        if n > 1:
            for i in range(n):
                cut = lambda seq: seq[:i] + seq[i + 1:]  # noqa: E731
                yield shrink.replaced(plan, docs=cut(plan['docs']), opts=cut(plan['opts']), faults=cut(plan['faults']), switches=[], **{'async': []})
        for key in ('switches', 'async'):
            for c in shrink.chunks(plan[key]):
                yield shrink.replaced(plan, **{key: c})
        for i in range(n):
            for k in sorted(plan['faults'][i]):
                f = copy.deepcopy(plan['faults'])
                del f[i][k]
                yield shrink.replaced(plan, faults=f)
            for k in sorted(plan['opts'][i]):
                o = copy.deepcopy(plan['opts'])
                del o[i][k]
                yield shrink.replaced(plan, opts=o)
            d = plan['docs'][i]
            key = 'template' if 'template' in d else 'src'
            for t in shrink.texts(d[key]):
                if key == 'template' and t.count(P) != t.count(Q):
                    continue
                docs = copy.deepcopy(plan['docs'])
                docs[i][key] = t
                yield shrink.replaced(plan, docs=docs)
