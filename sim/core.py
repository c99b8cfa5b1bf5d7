"""Process model, seeds, forks, plans.

One integer (VERIF_SEED) decides everything: run i of property P uses
random.Random(sha256(seed, P, i)) to draw a *plan* (plain JSON), and executing a
plan is a pure function of the plan and of the code in /repo.  The plan is the
replay file.  Every execution happens in a child forked from a *pristine* process:
one that has imported the library but never called it.
"""
import gc
import hashlib
import json
import os
import pickle
import random
import re
import select
import signal
import sys
import time as _time

REPO = os.environ.get('SIM_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM_DIR = os.path.dirname(os.path.abspath(__file__))
CREOLE = os.path.join(REPO, 'creole') + os.sep
real_monotonic = _time.monotonic
real_write = os.write
real_read = os.read


class HarnessError(Exception):
    """The harness (not the code under test) failed."""


class Hang(Exception):
    """A child used up its wall time."""


GROUP = 12


def rng_for(seed, pid, i):
    h = hashlib.sha256(f'{seed}:{pid}:{i}'.encode()).digest()
    r = random.Random(int.from_bytes(h[:8], 'big'))
    if isinstance(i, int):
        # runs of one group draw their operations from a common pool
        r.group = rng_for(seed, pid, f'group {i // GROUP}')
    return r


def jhash(obj):
    return hashlib.sha256(json.dumps(obj, sort_keys=True, default=str).encode()).hexdigest()[:16]


_ADDR = re.compile(r'0x[0-9a-fA-F]{5,}')


def norm(text):
    return _ADDR.sub('0xADDR', text)


def outcome_of_exception(e):
    name = f'{type(e).__module__}.{type(e).__qualname__}'
    try:
        if isinstance(e, SystemExit):
            msg = repr(e.code)
        else:
            msg = str(e)
    except Exception as err:  # broken __str__
        msg = f'<str failed: {type(err).__name__}>'
    return ['exc', name, norm(msg)]


SITE = None


def ambient_reset():
    """The same in every child, whoever runs the check."""
    import io
    sys.stdout = io.StringIO()
    sys.stderr = io.StringIO()
    sys.argv = ['sim']
    random.seed(0)


def short(o, n=300):
    s = o if isinstance(o, str) else repr(o)
    return s if len(s) <= n else s[:n] + f'...({len(s)} chars)'


# ---------------------------------------------------------------------------
# forked execution

STATS_FORKS = [0]


def in_fork(fn, *args, timeout=120):
    """Run fn(*args) in a forked child; return its (pickled) result."""
    STATS_FORKS[0] += 1
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            try:
                data = pickle.dumps(('ok', fn(*args)))
            except BaseException as e:  # harness failure inside the child
                import traceback
                data = pickle.dumps(('err', f'{type(e).__name__}: {e}\n{traceback.format_exc()}'))
            deliver(w, data)
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    deadline = real_monotonic() + timeout
    try:
        while True:
            left = deadline - real_monotonic()
            ready = select.select([r], [], [], max(0, left))[0] if left > 0 else []
            if not ready:
                os.kill(pid, signal.SIGKILL)
                raise Hang(f'no result within {timeout} s')
            b = real_read(r, 1 << 16)
            if not b:
                break
            chunks.append(b)
    finally:
        os.close(r)
        _, status = os.waitpid(pid, 0)
    data = b''.join(chunks)
    if not data:
        raise HarnessError(f'child died without result (wait status {status})')
    kind, value = pickle.loads(data)
    if kind == 'err':
        raise HarnessError(value)
    return value


def deliver(fd, data):
    view = memoryview(data)
    while view:
        n = real_write(fd, view)
        view = view[n:]


# ---------------------------------------------------------------------------
# the pristine process

_booted = []


def boot(before_import=None):
    """Import everything, call nothing of the library."""
    if _booted:
        return
    _booted.append(1)
    sys.dont_write_bytecode = True
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter('ignore')
    os.environ.setdefault('TZ', 'UTC')
    _time.tzset()
    # Locks that the library creates must be visible to the scheduler:
    import threading
    from sim import sched
    sched.install_locks()
    import pkgutil
    import importlib
    # third-party modules first (real locks for them), so that only /repo sees SimLock
    with sched.real_locks():
        import asyncio, concurrent.futures, html.parser, logging, shlex, json, tempfile, queue, inspect  # noqa
        import traceback, pprint, difflib, argparse, codecs, uuid, decimal, copy, contextlib, functools, weakref  # noqa
        import markdown, readme_renderer.rst, docutils.core, docutils.io, docutils.readers.doctree  # noqa
        import docutils.writers.html4css1, docutils.parsers.rst, docutils.transforms  # noqa
        import pygments, pygments.lexers, pygments.formatters  # noqa
        for enc in ('utf-8', 'latin-1', 'cp1252', 'utf-16', 'utf-16-le', 'utf-32', 'utf-8-sig', 'ascii', 'shift_jis', 'gb18030', 'cp437', 'iso8859-15', 'koi8-r', 'utf-7', 'mbcs'):
            try:
                ''.encode(enc)
            except LookupError:
                pass
        # docutils and pygments load parts of themselves on first use:
        docutils.core.publish_parts(
            source='A\n=\n\n`l <http://a.b>`_ *e* **s** ``c``\n\n- x\n\n.. image:: a.png\n\n.. figure:: b.png\n\n::\n\n  lit\n\n:a: b\n\n+---+\n| a |\n+---+\n\n.. code:: python\n\n   x=1\n\n:foo:`x`\n',
            writer_name='html4css1', settings_overrides={'report_level': 5, '_disable_config': True})
        readme_renderer.rst.render('A\n=\n\ntext\n')
        # a small set of lexers: guessing one would otherwise load 500 modules in every child
        keep = ('PythonLexer', 'JavascriptLexer', 'HtmlLexer', 'BashLexer', 'CLexer', 'TextLexer', 'JsonLexer', 'IniLexer')
        for name in list(pygments.lexers.LEXERS):
            if name not in keep:
                del pygments.lexers.LEXERS[name]
        list(pygments.lexers._iter_lexerclasses(plugins=False))
        pygments.lexers.guess_lexer('x')
        markdown.markdown('# x\n\ny')
        pygments.highlight('x=1', pygments.lexers.get_lexer_by_name('py'), pygments.formatters.HtmlFormatter())
    from sim import simclock
    simclock.install()
    before = set(sys.modules)
    if before_import is not None:
        before_import()
    import creole
    if 'creole' in before:
        raise HarnessError('something imports creole before the locks are replaced')
    import poetry_publish.publish, poetry_publish.utils.subprocess_utils  # noqa  (imports creole itself)
    if not os.path.realpath(creole.__file__).startswith(os.path.realpath(REPO) + os.sep):
        raise HarnessError(f'creole was imported from {creole.__file__}, not from {REPO}')
    for m in pkgutil.walk_packages(creole.__path__, 'creole.', onerror=lambda name: None):
        if not (m.name + '.').startswith('creole.tests.'):
            importlib.import_module(m.name)
    warm_caches()
    gc.collect()
    gc.freeze()


def used_by_conversions():
    """In a child: which stdlib regex-cache entries and third-party modules do conversions pull in?"""
    import random
    import re
    from sim import gen, ops
    ambient_reset()
    before = set(sys.modules)
    keys = []
    env = ops.Env({})
    for fn in ('creole2html', 'html2creole', 'html2rest', 'html2textile', 'html2markdown', 'rest2html', 'pypi_rest2html'):
        for i in range(6):
            src = gen.doc(random.Random(i), gen.LANG.get(fn, 'html'), 't', 4)
            ops.outcome({'fn': fn, 'src': src, 'opts': {'rest': {'report_level': 5}} if fn == 'rest2html' else {}}, env)
            if fn == 'creole2html':
                ops.outcome({'fn': fn, 'src': src, 'opts': {'blog_line_breaks': False}}, env)
            keys.append([k for k in re._cache if isinstance(k, tuple) and k[0] is str])
    flat = []
    for ks in keys:
        for k in ks:
            if k not in flat:
                flat.append(k)
    mods = [m for m in sys.modules if m not in before and not m.startswith('creole')]
    return [(k[1], int(k[2])) for k in flat], mods


def warm_caches():
    import re
    import importlib
    patterns, mods = in_fork(used_by_conversions)
    for m in mods:
        importlib.import_module(m)
    for p, f in patterns[-400:]:
        re.compile(p, f)
