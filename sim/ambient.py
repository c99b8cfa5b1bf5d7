"""Ambient settings of one simulated process (C08) and the servers that run it in another interpreter."""
import gc
import json
import locale
import os
import random
import subprocess
import sys
import threading
import time
import warnings

from sim import core, ops, simclock

MAGIC = None        # value of every environment variable the library asks for
ASKED = []

VARIANTS = {
    'c-locale': {'env': {'PYTHONHASHSEED': '1', 'LC_ALL': 'C', 'LANG': 'C', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0', 'TZ': 'America/St_Johns'}, 'magic': None, 'argv': ['prog'], 'clock': 0},
    'env-1': {'env': {'PYTHONHASHSEED': '77', 'LC_ALL': 'C.UTF-8', 'TZ': 'Asia/Kolkata', 'HOME': '/nonexistent', 'PYTHONIOENCODING': 'ascii'}, 'magic': '1', 'argv': ['setup.py', '--debug', '-v', '--strict', 'check'], 'clock': 86400 * 365 * 60},
    'env-0': {'env': {'PYTHONHASHSEED': '4242', 'LC_ALL': 'POSIX', 'TZ': 'UTC', 'COLUMNS': '20', 'NO_COLOR': '1', 'CI': 'true'}, 'magic': '0', 'argv': ['/usr/bin/pytest', '-q'], 'clock': 1e9},
    'hash': {'env': {'PYTHONHASHSEED': '31337', 'LANG': 'de_DE.UTF-8', 'TZ': 'Europe/Berlin', 'PYTHONUTF8': '1'}, 'magic': 'x', 'argv': [''], 'clock': 1.7e9},
    'optimized': {'env': {'PYTHONHASHSEED': '5', 'LC_ALL': 'C.UTF-8', 'TZ': 'UTC', 'TERM': 'xterm-256color', 'FORCE_COLOR': '1'}, 'magic': None, 'argv': ['prog'], 'clock': 5e8, 'flags': ['-O']},
}


def by_creole():
    f = sys._getframe(2)
    while f is not None:
        fn = f.f_code.co_filename
        if fn.startswith(core.CREOLE):
            return True
        if not (fn.startswith('<frozen') or fn.endswith('/os.py') or fn.endswith('_collections_abc.py') or fn.endswith('posixpath.py')):
            return False
        f = f.f_back
    return False


def install_environ():
    cls = type(os.environ)
    orig = cls.__getitem__

    def getitem(self, key):
        try:
            return orig(self, key)
        except KeyError:
            if MAGIC is not None and by_creole():
                ASKED.append(str(key))
                return MAGIC
            raise
    cls.__getitem__ = getitem


def apply(amb):
    """In a fork."""
    global MAGIC
    MAGIC = amb.get('magic')
    if 'tz' in amb:
        os.environ['TZ'] = amb['tz']
        time.tzset()
    if 'random' in amb:
        random.seed(amb['random'])
    if 'argv' in amb:
        sys.argv = list(amb['argv'])
    for k, v in (amb.get('env') or {}).items():
        os.environ[k] = v
    if amb.get('cwd'):
        os.chdir(amb['cwd'])
    if 'gc' in amb:
        if amb['gc'] == 'off':
            gc.disable()
        else:
            gc.unfreeze()
            gc.set_threshold(1, 1, 1)
    if 'warn' in amb:
        warnings.resetwarnings()
        warnings.simplefilter(amb['warn'])
    if 'locale' in amb:
        enc = amb['locale']
        locale.getpreferredencoding = lambda do_setlocale=True: enc
        locale.getencoding = lambda: enc
        locale.getlocale = lambda category=None: ('de_DE', enc)
        locale.getdefaultlocale = lambda envvars=None: ('de_DE', enc)
        real_conv = locale.localeconv
        locale.localeconv = lambda: dict(real_conv(), decimal_point=',', thousands_sep='.', grouping=[3, 3, 0])
    if 'setlocale' in amb:
        try:
            locale.setlocale(locale.LC_ALL, amb['setlocale'])
        except locale.Error:
            pass
    if 'streams' in amb:
        apply_streams(amb['streams'])
    if 'who' in amb:
        apply_identity(amb['who'])
    if 'settings' in amb:
        apply_settings(amb['settings'])
    if 'modules' in amb:
        apply_modules(amb['modules'])
    if 'clock' in amb:
        base, step = amb['clock']
        n = [0]

        def now():
            n[0] += 1
            return base + step * n[0]
        simclock.set_clock(now)


def apply_streams(kinds):
    import io
    for name, kind in kinds.items():
        if kind == 'none':
            s = None
        else:
            class Stream(io.TextIOWrapper):
                def isatty(self, tty=kind == 'tty'):
                    return tty
            s = Stream(io.BytesIO(), encoding={'tty': 'utf-8'}.get(kind, kind), errors='backslashreplace')
        setattr(sys, name, s)


def apply_identity(who):
    """Process, host and user."""
    import getpass
    import multiprocessing
    import platform
    import socket
    n, name = who
    os.getpid = lambda: n
    os.getppid = lambda: n - 1
    os.getuid = os.geteuid = lambda: n % 2000
    os.cpu_count = multiprocessing.cpu_count = lambda: n % 64 + 1
    os.getlogin = getpass.getuser = lambda: name
    socket.gethostname = platform.node = lambda: name
    os.get_terminal_size = lambda fd=1: os.terminal_size((n % 90 + 7, 5))


def apply_tracing(kinds):
    if 'trace' in kinds:
        def tracer(frame, event, arg):
            return tracer
        sys.settrace(tracer)
    if 'profile' in kinds:
        sys.setprofile(lambda frame, event, arg: None)


def apply_settings(names):
    import decimal
    import logging
    if 'decimal' in names:
        decimal.getcontext().prec = 2
    if 'logging' in names:
        logging.disable(logging.CRITICAL)
    if 'debuglog' in names:
        logging.root.setLevel(1)
        logging.root.addHandler(logging.NullHandler())
    if 'switch' in names:
        sys.setswitchinterval(1e-6)
    if 'deeper' in names:
        sys.setrecursionlimit(3000)
    if 'umask' in names:
        os.umask(0o777)
    if 'stack' in names:
        threading.stack_size(2 ** 20)
    if 'digits' in names:
        sys.set_int_max_str_digits(0)
    if 'shallow' in names:
        sys.getrecursionlimit = lambda: 150     # what it says: a conversion may need more
    if 'interactive' in names:
        sys.ps1, sys.ps2 = '>>> ', '... '
        sys.last_value = ValueError('earlier')
    if 'nobytecode' in names:
        sys.dont_write_bytecode = not sys.dont_write_bytecode
    if 'main' in names:
        import types
        sys.modules['__main__'] = types.ModuleType('__main__')
    if 'hooks' in names:
        sys.excepthook = sys.displayhook = lambda *a: None


def apply_modules(names):
    """Somebody else imported these."""
    import types
    for n in names:
        sys.modules.setdefault(n, types.ModuleType(n))


def run(spec, op_list, amb):
    """In a pristine fork: the outcomes of the operations under these settings."""
    core.ambient_reset()
    apply(amb)
    env = ops.Env(spec)
    out = []

    def body():
        for op in op_list:
            if op['fn'] == 'emit' and env.trees is None:
                env.trees = {k: ops.parse_tree(v) for k, v in spec['trees'].items()}
            try:
                out.append(['ok', core.norm(ops.run_op(op, env))])
            except core.HarnessError:
                raise
            except BaseException as e:
                out.append(core.outcome_of_exception(e))
        sys.settrace(None)
        sys.setprofile(None)

    plain = body
    if amb.get('tracing'):
        def body():
            apply_tracing(amb['tracing'])
            plain()
    if amb.get('loop'):
        inner = body

        def body():
            import asyncio

            async def main():
                inner()
            asyncio.run(main())
    stop = threading.Event()
    for i in range(amb.get('threads', 0)):
        threading.Thread(target=stop.wait, name=f'other-{i}', daemon=True).start()
    if amb.get('thread'):
        t = threading.Thread(target=body, name=amb['thread'])
        t.start()
        t.join()
    else:
        body()
    stop.set()
    return out, sorted(set(ASKED))


class Server:
    """Another interpreter with other settings, pristine as ours."""

    def __init__(self, name):
        v = VARIANTS[name]
        env = {k: x for k, x in os.environ.items() if k in ('PATH', 'HOME') or k.startswith('SIM_')}
        env['PYTHONDONTWRITEBYTECODE'] = '1'
        env.update(v['env'])
        self.p = subprocess.Popen([sys.executable, '-u', *v.get('flags', ()), os.path.join(core.SIM_DIR, 'envserver.py'), name], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, cwd='/')
        self.ask(None)

    def ask(self, req):
        if req is not None:
            self.p.stdin.write(json.dumps(req).encode() + b'\n')
            self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise core.HarnessError('the server of another environment died')
        r = json.loads(line)
        if 'error' in r:
            raise core.HarnessError(r['error'])
        return r['r']


def serve(name):
    v = VARIANTS[name]
    out = os.dup(1)
    os.dup2(2, 1)

    def before():
        global MAGIC
        install_environ()
        MAGIC = v['magic']
        sys.argv = list(v['argv'])
        if v['clock']:
            simclock.set_clock(lambda: v['clock'])
    core.boot(before)
    ASKED.clear()
    core.deliver(out, b'{"r": "ready"}\n')
    for line in sys.stdin.buffer:
        req = json.loads(line)
        try:
            r = {'r': core.in_fork(run, req['spec'], req['ops'], req['amb'])}
        except BaseException as e:
            r = {'error': f'{type(e).__name__}: {e}'}
        core.deliver(out, json.dumps(r).encode() + b'\n')
