"""Sees (and denies) every I/O attempt of a conversion; standard streams that fail (C09, C10)."""
import errno
import io
import os
import sys

from sim import core

WRITE_FLAGS = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
DENY = ('socket.', 'subprocess.', 'os.system', 'os.exec', 'os.fork', 'os.posix_spawn', 'os.spawn', 'os.remove', 'os.rename', 'os.mkdir', 'os.rmdir',
        'os.chmod', 'os.chown', 'os.link', 'os.symlink', 'os.truncate', 'os.utime', 'os.chdir', 'os.putenv', 'os.unsetenv', 'os.kill', 'os.lockf', 'os.setxattr', 'os.chflags',
        'shutil.', 'tempfile.', 'sqlite3.', 'urllib.', 'http.', 'ftplib.', 'smtplib.', 'webbrowser.', 'syslog.', 'shelve.', 'signal.', 'pty.', 'fcntl.', 'mmap.', 'dbm')
LOOK = ('os.listdir', 'os.scandir', 'os.walk', 'glob.')


def package_roots():
    import sysconfig
    roots = set(sysconfig.get_paths().values()) | {sys.prefix, sys.base_prefix + '/lib', '/usr/lib/python3', core.CREOLE}
    roots |= {p for p in sys.path if p and p not in (core.REPO, core.VERIF, core.SIM_DIR)}
    return sorted({os.path.realpath(r) for r in roots if r and os.path.realpath(r) != '/'} | {r for r in roots if r and r != '/'})


class Watch:
    def __init__(self):
        self.roots = [r.rstrip('/') + '/' for r in package_roots()]
        self.on = False
        self.seen = []

    def package(self, path):
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        if not isinstance(path, str):
            return isinstance(path, int)
        p = os.path.abspath(path)
        return any((p + '/').startswith(r) for r in self.roots) or p.startswith('/usr/share/zoneinfo')

    def docutils_conf(self, path):
        return str(path).endswith(('docutils.conf', '.docutils'))

    def hook(self, event, args):
        if not self.on:
            return
        if event == 'open':
            path, mode, flags = args
            writes = (isinstance(flags, int) and flags & WRITE_FLAGS) or (isinstance(mode, str) and set(mode) & set('wax+'))
            if self.docutils_conf(path) and not writes:
                return
            if writes or not self.package(path):
                self.deny(f'open {path!r} {mode!r}', path)
        elif event.startswith(LOOK):
            if args and args[0] is not None and not self.package(args[0]):
                self.deny(f'{event} {args[0]!r}', args[0])
        elif event.startswith(DENY):
            self.deny(f'{event} {core.short(repr(args), 120)}', None)

    def deny(self, what, path):
        self.seen.append(core.norm(what))
        raise PermissionError(errno.EACCES, 'denied by the simulation', path if isinstance(path, str) else None)

    def patch_stat(self):
        """stat and friends raise no audit event: watch direct calls from library code."""
        watch = self
        for name in ('stat', 'lstat', 'access', 'readlink'):
            orig = getattr(os, name)

            def f(path, *a, _orig=orig, _name=name, **k):
                if watch.on and not watch.package(path) and not watch.docutils_conf(path) and asked_by_library():
                    watch.on = False
                    try:
                        watch.seen.append(f'os.{_name} {path!r}')
                    finally:
                        watch.on = True
                return _orig(path, *a, **k)
            setattr(os, name, f)

    def install(self):
        self.patch_stat()
        sys.addaudithook(self.hook)


def asked_by_library():
    f = sys._getframe(2)
    while f is not None:
        fn = f.f_code.co_filename
        if fn.startswith(core.CREOLE):
            return True
        if not (fn.startswith('<frozen') or fn.endswith(('/os.py', 'posixpath.py', 'genericpath.py', 'pathlib.py'))):
            return False
        f = f.f_back
    return False


class StreamError(OSError):
    pass


class Stream(io.TextIOBase):
    """Records; fails from the n-th write on."""

    def __init__(self, fail_at=None, kind='EPIPE', encoding='utf-8', sticky=True):
        self.parts = []
        self.n = 0
        self.fail_at = fail_at
        self.kind = kind
        self.enc = encoding
        self.failed = 0
        self.sticky = sticky

    @property
    def encoding(self):
        return self.enc

    @property
    def errors(self):
        return 'strict'

    def writable(self):
        return True

    def isatty(self):
        return self.kind == 'tty'

    def fileno(self):
        raise io.UnsupportedOperation('fileno')

    def error(self):
        self.failed += 1
        if self.kind == 'closed':
            raise ValueError('I/O operation on closed file.')
        raise OSError(getattr(errno, self.kind), 'stream failure by the simulation')

    def write(self, s):
        if not isinstance(s, str):
            raise TypeError(f'write() argument must be str, not {type(s).__name__}')
        self.n += 1
        if self.fail_at is not None and (self.n >= self.fail_at if self.sticky else self.n == self.fail_at):
            self.error()
        if self.enc != 'utf-8':
            try:
                s.encode(self.enc)
            except UnicodeEncodeError:
                self.failed += 1
                raise
        self.parts.append(s)
        return len(s)

    def flush(self):
        if self.fail_at is not None and self.n >= self.fail_at and self.sticky and self.kind != 'closed':
            self.error()

    def text(self):
        return ''.join(self.parts)
