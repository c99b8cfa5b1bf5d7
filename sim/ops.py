"""Operations (plain JSON) and their execution against the real code in /repo."""
import copy
import functools
import io
import sys
import threading
import types

from sim import core
from sim.core import outcome_of_exception


class Cancelled(BaseException):
    """A custom interrupt."""


EXC = {'ValueError': ValueError, 'KeyError': KeyError, 'AttributeError': AttributeError, 'TypeError': TypeError,
       'RuntimeError': RuntimeError, 'AssertionError': AssertionError, 'StopIteration': StopIteration, 'OSError': OSError,
       'IndexError': IndexError, 'UnicodeError': UnicodeError, 'NotImplementedError': NotImplementedError, 'ZeroDivisionError': ZeroDivisionError,
       'RecursionError': RecursionError, 'MemoryError': MemoryError, 'LookupError': LookupError, 'Exception': Exception,
       'KeyboardInterrupt': KeyboardInterrupt, 'SystemExit': SystemExit, 'GeneratorExit': GeneratorExit, 'Cancelled': Cancelled,
       'ImportError': ImportError, 'EOFError': EOFError, 'ArithmeticError': ArithmeticError, 'Warning': Warning, 'DeprecationWarning': DeprecationWarning}


def make_exc(name, msg):
    if name == 'CancelledError':
        import asyncio
        return asyncio.CancelledError(msg)
    if name == 'SystemExit':
        return SystemExit(77)
    if name == 'UnicodeDecodeError':
        return UnicodeDecodeError('utf-8', b'\xff', 0, 1, msg)
    if name == 'Unprintable':
        return Unprintable(msg)
    if name == 'UnprintableType':
        return UnprintableType(msg)
    return EXC[name](msg)


class Env:
    """The caller-owned objects of one process."""

    def __init__(self, spec):
        self.spec = spec
        self.nested_results = []
        self.handlers = {}
        self.calls = []          # macro calls of the running operation
        self.fail_call = None    # (index, factory): that macro call raises
        self.on_macro = None
        self.containers = {k: self.container(v) for k, v in (spec.get('macros') or {}).items()}
        self.rules = {k: make_rules(v) for k, v in (spec.get('rules') or {}).items()}
        self.trees = None
        self.const = spec.get('nested_const')
        self.local = threading.local()

    # -- macros ------------------------------------------------------------
    def macro(self, name, spec):
        from creole.shared import example_macros
        b = spec['b']
        env = self

        if b == 'html':
            inner = example_macros.html
        elif b == 'pre':
            inner = example_macros.pre
        elif b == 'code':
            inner = example_macros.code
        elif b == 'code_plain':
            def inner(ext, text):
                return example_macros.pre(text)
            inner.__name__ = inner.__qualname__ = 'code'
        elif b == 'echo':
            def inner(text=None, **kw):
                return f'[{name}:{text}:{sorted(kw.items())!r}]'
        elif b == 'upper':
            def inner(text, a=None):
                return f'[{(text or "").upper()}|{a}]'
        elif b == 'const':
            def inner(**kw):
                return spec['v']
        elif b == 'raise':
            def inner(**kw):
                raise make_exc(spec['exc'], spec.get('msg', f'boom in {name}'))
        elif b == 'ret':
            v = spec['v']
            if isinstance(v, dict):
                v = v['bytes'].encode()

            def inner(**kw):
                return v
        elif b == 'toc':
            class inner:
                def __call__(self, **kw):
                    return '[own toc]'

                def add_headline(self, level, content):
                    pass

                def emit(self, document):
                    return document + '[own toc end]'
            return inner()
        elif b == 'nest':
            def inner(text=None, **kw):
                return f'[{name}:{env.nested(spec["id"])}:{text}]'
        elif b == 'rec':
            def inner(text=None, **kw):
                return f'[{name}:{env.recursive(spec["ids"])}:{text}]'
        elif b == 'bare':
            return bare(env, name, spec['kind'])
        elif b == 'flaky':
            state = {'n': 0}

            def inner(text=None, **kw):
                i = state['n']
                state['n'] += 1
                if i in spec['fail']:
                    raise make_exc(spec['exc'], f'flaky {i}')
                return f'[{name}:{text}:{sorted(kw.items())!r}]'
        else:
            raise core.HarnessError(f'unknown behaviour {b}')

        def wrapped(*args, **kw):
            n = len(env.calls)
            rec = [name, 'entered']
            env.calls.append(rec)
            if env.fail_call is not None and env.fail_call[0] == n:
                raise env.fail_call[1]()
            r = inner(*args, **kw)
            rec[1] = 'ok'
            return r
        wrapped.__name__ = name
        wrapped.__qualname__ = name
        return wrapped

    def container(self, spec):
        macros = {k: self.macro(k, v) for k, v in spec['macros'].items()}
        kind = spec['kind']
        if kind == 'dict':
            return macros
        if kind == 'dictsub':
            class Macros(dict):
                pass
            return Macros(macros)
        if kind == 'ns':
            return types.SimpleNamespace(**macros)
        if kind == 'class':
            class Holder:
                pass
            for k, v in macros.items():
                setattr(Holder, k, staticmethod(v) if isinstance(v, types.FunctionType) else v)
            return Holder
        if kind == 'slots':
            class Slots:
                __slots__ = sorted(macros)
            s = Slots()
            for k, v in macros.items():
                setattr(s, k, v)
            return s
        raise core.HarnessError(kind)

    # -- nested conversions ------------------------------------------------
    def nested(self, i):
        if self.const is not None:
            return show(self.const[str(i)])
        out = outcome(self.spec['nested'][str(i)], self)
        self.nested_results.append([i, out])
        return show(out)

    def recursive(self, ids):
        """The conversion for the present depth of nesting in this thread."""
        d = getattr(self.local, 'depth', self.spec.get('depth0', 0))
        if d >= len(ids):
            return 'leaf'
        self.local.depth = d + 1
        try:
            return self.nested(ids[d])
        finally:
            self.local.depth = d

    # -- observation -------------------------------------------------------
    def snapshot(self):
        snap = {}
        for k, c in self.containers.items():
            snap['macros ' + k] = snap_container(c)
        for k, r in self.rules.items():
            snap['rules ' + k] = sorted([a, str(b)] for a, b in vars(r).items() if not a.startswith('_'))
        return snap


NOW_ON_DISK = ['def f(a):\n    return (1\n', 'def f(a):\n  """abc\n', 'x = """\ndef f(a):\n', '\x00\n', 'def f(a): $ ?\n    "abc\n', 'def f(a):\n        x\n    y\n  z\n', '\tdef f\n  x\n', '\n', '']


def edited(source, variant, ns):
    """f of a module whose source file was edited after the import."""
    import linecache
    name = f'<my_macros {variant}>'
    if source.startswith('class'):  # inspect needs the module
        m = types.ModuleType(f'my_macros_{variant}')
        m.__file__ = name
        sys.modules[m.__name__] = m
        ns['__name__'] = m.__name__
    exec(compile(source, name, 'exec'), ns)
    text = NOW_ON_DISK[variant % len(NOW_ON_DISK)]
    linecache.cache[name] = (len(text), None, text.splitlines(True), name)
    return ns['f']


class Unprintable(Exception):
    def __str__(self):
        raise ValueError('no text')


class UnprintableType(TypeError):
    def __str__(self):
        raise RecursionError('no text')


def bare(env, name, kind):
    """Callables that reject surplus arguments, without a wrapper around them."""
    def note():
        env.calls.append([name, 'ok'])
        return f'[{name}]'
    if kind == 'lambda':
        return lambda text: note()
    if kind == 'exec':
        ns = {'note': note, '__name__': 'nowhere'}
        exec(compile('def f(text):\n    return note()\n', '<made up>', 'exec'), ns)
        return ns['f']
    if kind == 'partial':
        return functools.partial(lambda pre, text: note(), 'x')
    if kind == 'builtin':
        return len
    if kind == 'class':
        class T(str):
            def __new__(cls, text):
                return str.__new__(cls, note())
        return T
    if kind.startswith('edited'):
        return edited('def f(text):\n    return note()\n', int(kind[6:]), {'note': note, '__name__': 'edited'})
    if kind == 'gone':  # its source file does not exist (any more)
        ns = {'note': note, '__name__': 'gone'}
        exec(compile('def f(text):\n    return note()\n', '/nonexistent/dir/my_macros.py', 'exec'), ns)
        return ns['f']

    class Callable:
        def __call__(self, text):
            return note()
    return Callable()


def show(out):
    return out[1] if out[0] == 'ok' else '!' + out[1] + ' ' + out[2]


def snap_container(c):
    if isinstance(c, dict):
        items = list(c.items())
    elif isinstance(c, type) or hasattr(c, '__dict__'):
        items = sorted((k, v) for k, v in vars(c).items() if not k.startswith('__'))
    else:
        items = [(k, getattr(c, k, '<gone>')) for k in c.__slots__]
    return [[str(k), id(v)] for k, v in items]


def make_rules(spec):
    from creole.parser.creol2html_rules import BlockRules
    r = BlockRules(blog_line_breaks=spec['blog'])
    if spec.get('drop'):
        drop = [getattr(r, d, None) for d in spec['drop']]
        rules = getattr(r, 'rules', None)
        if rules is not None and None not in drop:
            r.rules = type(rules)(x for x in rules if x not in drop)
    return r


def unknown_emit(name, env):
    from creole.shared import unknown_tags as u
    if isinstance(name, dict) and 'mark' in name:
        return lambda emitter, node: f'[{name["mark"]}:{node.kind}:{emitter.emit_children(node)}]'
    if isinstance(name, dict):  # nested conversion inside the handler: the same one for all conversions
        key = repr(sorted(name.items()))
        if key in env.handlers:
            return env.handlers[key]

        def handler(emitter, node):
            inner = env.recursive(name['rec']) if 'rec' in name else env.nested(name['nest'])
            if name.get('children', True):
                return f'[{node.kind}:{inner}:{emitter.emit_children(node)}]'
            return f'[{node.kind}:{inner}]'
        return env.handlers.setdefault(key, handler)
    return {'raise': u.raise_unknown_node, 'transparent': u.transparent_unknown_nodes, 'html_macro': u.use_html_macro,
            'preformat': u.preformat_unknown_nodes, 'escape': u.escape_unknown_nodes}[name]


def parse_tree(spec):
    import creole
    if spec['lang'] == 'creole':
        from creole.parser.creol2html_parser import CreoleParser
        kw = {}
        if spec.get('wiki'):
            kw['blog_line_breaks'] = False
        return CreoleParser(spec['src'], **kw).parse()
    try:
        return creole.parse_html(spec['src'])
    except Exception:  # a document that cannot be parsed
        return creole.parse_html('<p>a <b>x</b></p><ul><li>y</li></ul>')


def run_op(op, env):
    import creole
    fn, src, o = op['fn'], op.get('src'), op.get('opts') or {}
    env.calls = []
    kw = {}
    if fn == 'creole2html' or (fn == 'emit' and op['fmt'] == 'html'):
        m = o.get('macros')
        if m is not None:
            if isinstance(m, dict):
                kw['macros'] = env.container(m)
            else:
                kw['macros'] = env.containers[m]
        for k in ('strict', 'verbose'):
            if k in o:
                kw[k] = o[k]
        if 'stderr' in o:
            kw['stderr'] = env.stderr
    if fn == 'creole2html':
        if o.get('block_rules') is not None:
            b = o['block_rules']
            kw['block_rules'] = make_rules(b) if isinstance(b, dict) else env.rules[b]
        for k in ('blog_line_breaks', 'debug'):
            if k in o:
                kw[k] = o[k]
        r = creole.creole2html(src, **kw)
    elif fn in ('html2creole', 'html2rest', 'html2textile', 'html2markdown'):
        for k in ('debug', 'strict'):
            if k in o:
                kw[k] = o[k]
        if 'unknown_emit' in o:
            kw['unknown_emit'] = unknown_emit(o['unknown_emit'], env)
        r = getattr(creole, fn)(src, **kw)
    elif fn == 'rest2html':
        from creole.rest_tools.clean_writer import rest2html
        r = rest2html(src, **(o.get('rest') or {}))
    elif fn == 'pypi_rest2html':
        from creole.rest_tools.pypi_rest2html import pypi_rest2html
        r = pypi_rest2html(src)
    elif fn == 'emit':
        tree = env.trees[op['tree']]
        if op['fmt'] == 'html':
            from creole.emitter.creol2html_emitter import HtmlEmitter
            r = HtmlEmitter(tree, **kw).emit()
        else:
            if 'unknown_emit' in o:
                kw['unknown_emit'] = unknown_emit(o['unknown_emit'], env)
            if 'strict' in o and op['fmt'] in ('creole', 'markdown'):
                kw['strict'] = o['strict']
            if 'debug' in o:
                kw['debug'] = o['debug']
            r = emitter_class(op['fmt'])(tree, **kw).emit()
    else:
        raise core.HarnessError(f'unknown fn {fn}')
    if not isinstance(r, str):
        return f'<<{type(r).__name__}>> {r!r}'
    return str(r)


def emitter_class(fmt):
    import creole
    return {'creole': creole.CreoleEmitter, 'rest': creole.ReStructuredTextEmitter,
            'textile': creole.TextileEmitter, 'markdown': creole.MarkdownEmitter}[fmt]


def outcome(op, env):
    try:
        return ['ok', core.norm(run_op(op, env))]
    except core.HarnessError:
        raise
    except Exception as e:
        return outcome_of_exception(e)
    except SystemExit as e:
        return outcome_of_exception(e)


def env_for(op, spec):
    """The part of the environment an operation can see (for reference runs)."""
    d = {}
    o = op.get('opts') or {}
    if isinstance(o.get('macros'), str):
        d['macros'] = {o['macros']: spec['macros'][o['macros']]}
    if isinstance(o.get('block_rules'), str):
        d['rules'] = {o['block_rules']: spec['rules'][o['block_rules']]}
    if op['fn'] == 'emit':
        d['trees'] = {str(op['tree']): spec['trees'][str(op['tree'])]}
    for k in ('nested_const', 'depth0'):
        if k in spec:
            d[k] = spec[k]
    return d


def reference(op, spec, opcode=False, trace=True, extra=()):
    """[outcome, events, macro calls, events per place] of one operation as first call of a process."""
    from sim import sched
    core.ambient_reset()
    env = Env(spec)
    if op['fn'] == 'emit':
        env.trees = {k: parse_tree(v) for k, v in spec['trees'].items()}
    places = []
    if trace:
        out, n, _ = sched.count_events(lambda: core.norm(run_op(op, env)), opcode=opcode, extra=extra, places=places)
    else:
        out, n = outcome(op, env), 0
    return [out, n, copy.deepcopy(env.calls), places]


class Refs:
    """Reference outcomes, each from a process of its own."""

    def __init__(self):
        self.cache = {}
        self.forks = 0

    def get(self, op, spec, opcode=False, trace=True, extra=()):
        sub = env_for(op, spec)
        key = core.jhash([op, sub, opcode, trace, list(extra)])
        if key not in self.cache:
            if len(self.cache) > 5000:
                self.cache.clear()
            self.forks += 1
            self.cache[key] = core.in_fork(reference, op, sub, opcode, trace, extra)
        return self.cache[key]
