"""C06: failing macros are contained."""
import copy
import functools
import io
import re
import sys
import types

from sim import core, gen, ops, shrink
from sim.gen import maybe, pick
from sim.scenario import Scenario, Violation, register

A, B = '\ue000', '\ue001'   # sentinel of a working call
P, Q = '\ue010', '\ue011'   # placeholder of a call in the template

ERRORS = ['ValueError', 'KeyError', 'AttributeError', 'TypeError', 'RuntimeError', 'AssertionError', 'StopIteration', 'OSError', 'IndexError',
          'UnicodeError', 'UnicodeDecodeError', 'NotImplementedError', 'ZeroDivisionError', 'RecursionError', 'MemoryError', 'LookupError', 'Exception',
          'ImportError', 'EOFError', 'DeprecationWarning', 'Unprintable', 'UnprintableType']
INTERRUPTS = ['KeyboardInterrupt', 'SystemExit', 'Cancelled', 'CancelledError']
RETURNS = ['none', 'int', 'bytes', 'list', 'dict', 'bool', 'float', 'object', 'generator', 'exception', 'class', 'hostile', 'falsy', 'bytearray', 'surrogate', 'unprintable']
# none of them is a number
DEPTHS = [' depth=abc', ' depth=1.5', ' depth="x y"', ' depth=', ' depth=1,2', ' depth=x depth2=1', ' depth', ' depth="1', " depth='", ' depth=None1', ' depth=0x1', ' a=1 depth=&lt;']
EMPTY_TOC = '<ul>\n</ul>'
CALLABLES = ['function', 'lambda', 'partial', 'instance', 'bound', 'exec', 'class', 'strsub', 'edited']


class Template(gen.Creole):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.calls = []

    def call(self, kind):
        r = self.r
        n = len(self.calls)
        self.calls.append({'name': pick(r, self.macros), 'kind': kind, 'args': pick(r, ['', '', ' b="x y"', ' c=True', " d='1'"]), 'text': self.word().replace('<', '').replace('"', '')})
        return f'{P}{n}{Q}'

    def macro_tag(self):
        return self.call('tag')

    def macro_inline(self):
        return self.call('inline')

    def macro_block(self):
        return self.call('block')


def build(template, calls, bad):
    """bad: {id: malformed argument text}"""
    def one(m):
        n = int(m.group(1))
        c = calls[n]
        if c['kind'] == 'toc':
            return f'<<toc id={n}{bad.get(n, " depth=0")}>>'
        args = f' id={n}{c["args"]}{bad.get(n, "")}'
        if c['kind'] == 'tag':
            return f'<<{c["name"]}{args}>>'
        if c['kind'] == 'inline':
            return f'<<{c["name"]}{args}>>{c["text"]}<</{c["name"]}>>'
        return f'<<{c["name"]}{args}>>\n{c["text"]}\nline\n<</{c["name"]}>>'
    return re.sub(f'{P}(\\d+){Q}', one, template)


class TwoArgs(TypeError):
    """Its constructor needs more than a message."""

    def __init__(self, a, b):
        super().__init__(a)
        self.b = b


def message(kind, i):
    """What an error says; never <<toc>> or a sentinel."""
    return gen.MESSAGES[kind].replace('{}', f'fault {i}')


def raise_it(name, msg):
    if name == 'TwoArgs':
        raise TwoArgs(msg, 1)
    raise ops.make_exc(name, msg)


def nothing(self, *args):
    raise RuntimeError('hostile result')


class Hostile:
    """Only its repr() works."""
    __str__ = __format__ = __bool__ = __len__ = __iter__ = __eq__ = __getattr__ = __getitem__ = __contains__ = __add__ = __radd__ = __bytes__ = __int__ = nothing
    __hash__ = nothing

    def __repr__(self):
        return '<hostile>'


class Unprintable:
    def __repr__(self):
        raise RuntimeError('no repr')
    __str__ = __repr__


class Falsy:
    def __bool__(self):
        return False


class Text(str):
    """Text with a mind of its own."""

    def __add__(self, other):
        return NotImplemented

    def __html__(self):
        return '<wrong>'

    def __str__(self):
        return 'wrong'

    def __bool__(self):
        return False

    def __repr__(self):
        return 'wrong'


def value(kind):
    return {'none': None, 'int': 3, 'bytes': b'bytes', 'list': ['a'], 'dict': {'a': 1}, 'bool': True, 'float': 1.5, 'object': object(),
            'generator': (x for x in 'ab'), 'exception': ValueError('returned'), 'class': dict,
            'hostile': Hostile(), 'falsy': Falsy(), 'bytearray': bytearray(b'x'), 'surrogate': ('\ud800',), 'unprintable': Unprintable()}[kind]


def make_macro(name, flavour, faults):
    def sentinel(id=None, **kw):
        f = faults.get(str(id))
        if f:
            if f[0] == 'raise':
                raise_it(f[1], message(f[2] if len(f) > 2 else 0, id))
            if f[0] == 'ret':
                return value(f[1])
        return f'{A}{id}{B}'
    sentinel.__name__ = name
    if flavour == 'strsub':
        def text_macro(**kw):
            r = sentinel(**kw)
            return Text(r) if isinstance(r, str) else r
        return text_macro
    if flavour == 'lambda':
        return lambda **kw: sentinel(**kw)
    if flavour == 'partial':
        return functools.partial(sentinel)
    if flavour == 'instance':
        class Callable:
            def __call__(self, **kw):
                return sentinel(**kw)
        return Callable()
    if flavour == 'bound':
        class Holder:
            def macro(self, **kw):
                return sentinel(**kw)
        return Holder().macro
    if flavour == 'exec':
        ns = {'sentinel': sentinel}
        exec(compile('def f(**kw):\n    return sentinel(**kw)\n', '<made up>', 'exec'), ns)
        return ns['f']
    if flavour == 'edited':
        return ops.edited('def f(**kw):\n    return sentinel(**kw)\n', len(name), {'sentinel': sentinel, '__name__': 'edited'})
    if flavour == 'class':
        class Text(str):
            def __new__(cls, **kw):
                return sentinel(**kw)
        return Text
    return sentinel


def rejecting(flavour):
    if flavour == 'lambda':
        return lambda: 'x'
    if flavour == 'exec':
        ns = {'__name__': 'nowhere'}
        exec(compile('def f():\n    return 1\n', '<made up>', 'exec'), ns)
        return ns['f']
    if flavour.startswith('edited'):
        n = int(flavour[6:] or 0)
        return ops.edited('class f:\n    pass\n' if n > 9 else 'def f():\n    return 1\n', n, {'__name__': 'edited'})
    if flavour == 'class':
        ns = {'__name__': '__main__'}
        exec(compile('class C:\n    pass\n', '<made up>', 'exec'), ns)
        return ns['C']
    if flavour == 'instance':
        return len
    if flavour == 'partial':
        return functools.partial(lambda a: a)
    if flavour == 'bound':
        return 'text'.upper

    def reject(only):
        return only
    return reject


def container(kind, names, flavours, faults, status, variant=0):
    """status: name -> ok | missing | none | rejecting | uncallable"""
    table = {}
    for n in names:
        s = status.get(n, 'ok')
        if s == 'missing':
            continue
        if s == 'none':
            table[n] = None
        elif s == 'uncallable':
            table[n] = 'not callable'
        elif s == 'rejecting':
            table[n] = rejecting(flavours[n].replace('edited', f'edited{variant}'))
        else:
            table[n] = make_macro(n, flavours[n], faults)
    if kind == 'dict':
        return table
    if kind == 'ns':
        return types.SimpleNamespace(**table)
    if kind == 'module':
        m = types.ModuleType('my_macros')
        m.__dict__.update(table)
        return m

    class Holder:
        pass
    h = Holder()
    h.__dict__.update(table)
    return h


def convert(plan, faults, status, bad, verbose, own_stream):
    core.ambient_reset()
    import creole
    names = sorted({c['name'] for c in plan['calls'] if c['kind'] != 'toc'})
    tocs = [i for i, c in enumerate(plan['calls']) if c['kind'] == 'toc']
    flavours = {n: plan['flavours'].get(n, 'function') for n in names}
    text = build(plan['template'], plan['calls'], bad)
    stream = io.StringIO()
    err = sys.stderr
    kw = {'verbose': verbose}
    if verbose is None:
        kw = {}
    if own_stream:
        kw['stderr'] = stream
    for k in ('strict', 'blog_line_breaks'):
        if k in plan['opts']:
            kw[k] = plan['opts'][k]
    results = []
    macros = container(plan['container'], names, flavours, faults, status, plan.get('variant', 0))
    for _ in range(plan.get('times', 1)):
        try:
            out = creole.creole2html(text, macros=macros, **kw)
            if tocs and isinstance(out, str):  # the list without entries stands for the working call
                out = out.replace(EMPTY_TOC, f'{A}{tocs[0]}{B}', 1)
            out = ['ok', out] if isinstance(out, str) else ['ok', f'<<{type(out).__name__}>>']
        except BaseException as e:
            out = core.outcome_of_exception(e)
        results.append(out)
    return results, stream.getvalue(), err.getvalue(), sys.stdout.getvalue()


@register
class C06(Scenario):
    pid = 'C06'
    level = 'exploration'
    runs = {'quick': 54000, 'thorough': 400000}
    rule = ('a generated document with macro calls at every kind of position; every call id has a drawn fate (works, one of 20 errors, '
            'non-text result, malformed arguments, missing/None/uncallable/argument-rejecting macro, interrupt); compared with the run in '
            'which all calls work; non-trivial: at least one call really failed; distinct by plan')
    real = ['creole2html with HtmlEmitter/CreoleParser']
    stub = ['macros (generated, fault-injecting)', 'stderr streams (in memory)']
    assumptions = ['no macro result and no error message contains the text <<toc>>', 'a macro named toc given by the caller has the methods of TableOfContent']

    def generate(self, r, tier):
        names = ['m0', 'm1', 'm2', 'other', 'html', 'code'][:r.randrange(1, 7)]
        t = Template(r, 'tk', pick(r, [1, 2, 3, 4]), macros=names, swarm=maybe(r, .7))
        text = '\n\n'.join(t.block() for _ in range(t.size))
        while len(t.calls) < 1:
            text += '\n\n' + pick(r, ['para ', '* item ', '|a|', '= head\n\n']) + t.call(pick(r, ['tag', 'inline', 'block'])) + ' end'
        faults, bad = {}, {}
        if maybe(r, .15):
            blocks = text.split('\n\n')
            blocks.insert(r.randrange(len(blocks) + 1), f'see {P}{len(t.calls)}{Q} here')
            text = '\n\n'.join(blocks)
            t.calls.append({'name': 'toc', 'kind': 'toc', 'args': '', 'text': ''})
        for i in range(len(t.calls)):
            x = r.random()
            if t.calls[i]['kind'] == 'toc':
                if x < .8:
                    bad[str(i)] = pick(r, DEPTHS)
                continue
            if x < .3:
                faults[str(i)] = ['raise', pick(r, ERRORS) if maybe(r, .93) else 'TwoArgs', pick(r, [0, 0, r.randrange(len(gen.MESSAGES))])]
            elif x < .42:
                faults[str(i)] = ['ret', pick(r, RETURNS)]
            elif x < .55:
                bad[str(i)] = pick(r, [' a', ' a="', " a='x", ' a="x y" b', ' \\', ' a= "', ' novalue here', ' 50%', ' %s', ' {0}', ' a="%(x)s', ' \\1'])
        if maybe(r, .08):
            i = r.randrange(len(t.calls))
            if t.calls[i]['kind'] != 'toc':
                faults[str(i)] = ['raise', pick(r, INTERRUPTS)]
        status = {}
        for n in names:
            if maybe(r, .2):
                status[n] = pick(r, ['missing', 'missing', 'none', 'rejecting', 'rejecting', 'uncallable'])
        opts = {}
        if maybe(r, .2):
            opts['strict'] = True
        if maybe(r, .2):
            opts['blog_line_breaks'] = False
        return {'template': text, 'calls': t.calls, 'faults': faults, 'bad': bad, 'status': status, 'flavours': {n: pick(r, CALLABLES) for n in names},
                'container': pick(r, ['dict', 'dict', 'ns', 'module', 'holder']), 'variant': r.randrange(20), 'verbose': pick(r, [None, 0, 0, 1, 1, 2, 2, 2]), 'own_stream': maybe(r, .7),
                'opts': opts, 'times': pick(r, [1, 1, 2])}

    def execute(self, plan, ctx):
        st = self.new_stats()
        v = core.in_fork(self.both, plan)
        viol, info = v
        st['macro_calls'] = info['calls']
        st['contained'] = len(info['failed'])
        for k in info['kinds']:
            st['faults'][k] = st['faults'].get(k, 0) + 1
        st['nontrivial'] = core.jhash(plan) if info['failed'] else None
        return (Violation(*viol) if viol else None), st

    def both(self, plan):
        healthy, _, _, _ = convert(plan, {}, {}, {}, 1, True)
        info = {'calls': 0, 'failed': [], 'kinds': []}
        if healthy[0][0] != 'ok':
            return ['healthy run failed', f'{healthy[0]}'], info
        H = healthy[0][1]
        if '[Error:' in H or EMPTY_TOC in H:  # random markup before a call became part of its tag
            return None, info
        active = [int(x) for x in re.findall(f'{A}(\\d+){B}', H)]
        info['calls'] = len(active)
        faults = {k: f for k, f in plan['faults'].items() if int(k) in active}
        bad = {int(k): b for k, b in plan['bad'].items() if int(k) in active}
        status = plan['status']
        expect_exc = None
        failed = []
        for i in active:
            name = plan['calls'][i]['name']
            s = status.get(name, 'ok')
            if i in bad:
                failed.append(i)
                info['kinds'].append('malformed arguments')
            elif s != 'ok':
                failed.append(i)
                info['kinds'].append(f'{s} macro')
            elif str(i) in faults:
                f = faults[str(i)]
                info['kinds'].append(f[1] if f[0] == 'raise' else 'non-text result')
                if f[0] == 'raise' and f[1] in INTERRUPTS:
                    expect_exc = core.outcome_of_exception(ops.make_exc(f[1], message(0, i)))
                    break
                failed.append(i)
        info['failed'] = failed
        verbose = plan['verbose']
        results, stream, err, stdout = convert(plan, faults, status, bad, verbose, plan['own_stream'])
        loud = verbose != 0
        pattern = self.pattern(H, failed, plan, loud)
        for n, out in enumerate(results):
            if expect_exc is not None:
                if out != expect_exc:
                    return ['interrupt contained', f'macro raised {expect_exc}, creole2html ended with {core.short(out)}'], info
                continue
            if out[0] != 'ok':
                return ['raised', f'call {n}: {core.short(out)} (failing calls {[[i, plan["calls"][i]["name"]] for i in failed]}, verbose={verbose})'], info
            if not pattern.fullmatch(out[1]):
                return ['document', f'call {n}, verbose={verbose}, failing calls {[[i, plan["calls"][i]["name"]] for i in failed]}: got {core.short(out[1], 700)!r}, with all macros working {core.short(H, 700)!r}'], info
        if verbose != 2 and (stream or err):
            return ['stream', f'verbose={verbose}: written to a stream: {core.short(stream or err)!r}'], info
        if plan['own_stream'] and err:
            return ['stream', f'sys.stderr written although the caller passed a stream: {core.short(err)!r}'], info
        if stdout:
            return ['stream', f'stdout written: {core.short(stdout)!r}'], info
        return None, info

    def pattern(self, H, failed, plan, loud):
        parts, pos = [], 0
        for i in failed:
            s = f'{A}{i}{B}'
            k = H.index(s, pos)
            parts.append((H[pos:k], i))
            pos = k + len(s)
        rx = []
        prev = False
        for seg, i in parts:
            rx.append(self.seg(seg, prev, True))
            if loud:
                rx.append(r'\s*\[Error:[^\ue000]*?' + re.escape(plan['calls'][i]['name']) + r'[^\ue000]*?\]\s*')
            else:
                rx.append(r'\s*')
            prev = True
        rx.append(self.seg(H[pos:], prev, False))
        return re.compile(''.join(rx), re.S)

    def seg(self, s, left, right):
        if left:
            s = s.lstrip()
        if right:
            s = s.rstrip()
        return re.escape(s)

    def describe(self, plan):
        return {'template': core.short(build(plan['template'], plan['calls'], {int(k): v for k, v in plan['bad'].items()}), 400), 'faults': plan['faults'],
                'status': plan['status'], 'container': plan['container'], 'verbose': plan['verbose']}

    def shrink(self, plan):
        for k in sorted(plan['faults']):
            yield shrink.replaced(plan, faults={a: b for a, b in plan['faults'].items() if a != k})
        for k in sorted(plan['bad']):
            yield shrink.replaced(plan, bad={a: b for a, b in plan['bad'].items() if a != k})
        for k in sorted(plan['status']):
            yield shrink.replaced(plan, status={a: b for a, b in plan['status'].items() if a != k})
        for t in shrink.texts(plan['template']):
            if t.count(P) == t.count(Q):
                yield shrink.replaced(plan, template=t)
        if plan['times'] > 1:
            yield shrink.replaced(plan, times=1)
        if plan['opts']:
            yield shrink.replaced(plan, opts={})
        for n, f in sorted(plan['flavours'].items()):
            if f != 'function':
                yield shrink.replaced(plan, flavours=dict(plan['flavours'], **{n: 'function'}))
