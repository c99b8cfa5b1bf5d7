"""Client side of the simulated operating system: replaces os.*, open, io.*, subprocess."""
import builtins
import errno
import gc
import io
import locale
import os
import random
import shutil
import stat
import subprocess
import sys
import tempfile
import threading
import time
import warnings

from sim import core, iowatch, ops, sched, simclock, simfs
from sim.simfs import FD0, NODIR, _real

CH = None
INFO = {}
SPEC = None
ROOTS = []
real_open, real_FileIO = io.open, io.FileIO


def call(*msg):
    r = CH.call(*msg)
    if r[0] == 'ok':
        return r[1]
    if r[0] == 'exc':
        raise ops.make_exc(r[1], 'injected at a system call')
    path = msg[1] if len(msg) > 1 and isinstance(msg[1], str) else None
    if path is not None:
        raise OSError(r[1], os.strerror(r[1]), path)
    raise OSError(r[1], os.strerror(r[1]))


def name(path):
    p = os.fspath(path)
    return os.fsdecode(p) if isinstance(p, bytes) else p


def package(path):
    return path.startswith('/') and any((os.path.normpath(path) + '/').startswith(r) for r in ROOTS)


def mine(fd):
    return isinstance(fd, int) and (fd >= FD0 or fd in (1, 2))


def nodirfd(k):
    for n in ('dir_fd', 'src_dir_fd', 'dst_dir_fd'):
        if k.get(n) is not None:
            raise OSError(errno.ENOTSUP, 'dir_fd in the simulation')


def escape(what):
    CH.call('escape', what)
    raise OSError(errno.EROFS, os.strerror(errno.EROFS), what)


# -- os functions -------------------------------------------------------------

def s_open(path, flags, mode=0o777, *, dir_fd=None):
    nodirfd({'dir_fd': dir_fd})
    p = name(path)
    if package(p):
        if flags & iowatch.WRITE_FLAGS:
            escape(f'open for writing {p}')
        return _real['open'](p, flags, mode)
    return call('open', p, flags & ~os.O_CLOEXEC, mode)


def s_read(fd, n):
    return call('read', fd, n) if mine(fd) else _real['read'](fd, n)


def s_write(fd, data):
    return call('write', fd, bytes(data)) if mine(fd) else _real['write'](fd, data)


def s_close(fd):
    return call('close', fd) if mine(fd) else _real['close'](fd)


def s_lseek(fd, pos, how=0):
    return call('lseek', fd, pos, how) if mine(fd) else _real['lseek'](fd, pos, how)


def result(st):
    mode, ino, dev, nlink, uid, gid, size, mtime = st
    sec = mtime // 1000000000
    return os.stat_result((mode, ino, dev, nlink, uid, gid, size, sec, sec, sec), {
        'st_atime': mtime / 1e9, 'st_mtime': mtime / 1e9, 'st_ctime': mtime / 1e9, 'st_atime_ns': mtime, 'st_mtime_ns': mtime, 'st_ctime_ns': mtime,
        'st_blksize': 4096, 'st_blocks': (size + 511) // 512, 'st_rdev': 0})


def s_fstat(fd):
    return result(call('fstat', fd)) if mine(fd) else _real['fstat'](fd)


def s_stat(path, *, dir_fd=None, follow_symlinks=True):
    nodirfd({'dir_fd': dir_fd})
    if isinstance(path, int):
        return s_fstat(path)
    p = name(path)
    if package(p):
        return _real['stat'](p, follow_symlinks=follow_symlinks)
    return result(call('stat', p, bool(follow_symlinks)))


def s_lstat(path, *, dir_fd=None):
    return s_stat(path, dir_fd=dir_fd, follow_symlinks=False)


def s_access(path, mode, *, dir_fd=None, effective_ids=False, follow_symlinks=True):
    p = name(path)
    return _real['access'](p, mode) if package(p) else call('access', p, mode)


def s_listdir(path='.'):
    p = name(path)
    return _real['listdir'](p) if package(p) else [e[0] for e in call('listdir', p)]


class Entry:
    def __init__(self, d, e):
        self.name, self.kind, self.ino = e
        self.path = os.path.join(d, self.name)

    def __fspath__(self):
        return self.path

    def inode(self):
        return self.ino

    def is_symlink(self):
        return self.kind == 'l'

    def is_junction(self):
        return False

    def is_dir(self, *, follow_symlinks=True):
        if self.kind == 'l' and follow_symlinks:
            return os.path.isdir(self.path)
        return self.kind == 'd'

    def is_file(self, *, follow_symlinks=True):
        if self.kind == 'l' and follow_symlinks:
            return os.path.isfile(self.path)
        return self.kind == 'f'

    def stat(self, *, follow_symlinks=True):
        return s_stat(self.path, follow_symlinks=follow_symlinks)


class Scan:
    def __init__(self, items):
        self.it = iter(items)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self.it = iter(())


def s_scandir(path='.'):
    p = name(path)
    if package(p):
        return _real['scandir'](p)
    return Scan([Entry(p, e) for e in call('listdir', p)])


def changing(op, nargs):
    def f(path, *a, **k):
        nodirfd(k)
        p = name(path)
        rest = [name(x) if isinstance(x, (str, bytes, os.PathLike)) else x for x in a[:nargs - 1]]
        for x in [p] + [y for y in rest if isinstance(y, str)]:
            if package(x):
                escape(f'{op} {x}')
        return call(op, p, *rest)
    f.__name__ = op
    return f


def s_mkdir(path, mode=0o777, *, dir_fd=None):
    nodirfd({'dir_fd': dir_fd})
    p = name(path)
    if package(p):
        escape(f'mkdir {p}')
    call('mkdir', p, mode)


def s_chmod(path, mode, *, dir_fd=None, follow_symlinks=True):
    if isinstance(path, int):
        return call('fchmod', path, mode)
    p = name(path)
    if package(p):
        escape(f'chmod {p}')
    call('chmod', p, mode)


def s_utime(path, times=None, *, ns=None, dir_fd=None, follow_symlinks=True):
    p = name(path)
    if package(p):
        escape(f'utime {p}')
    if ns is not None:
        t = ns[1]
    elif times is not None:
        t = int(times[1] * 1000000000)
    else:
        t = None
    call('utime', p, t)


def s_truncate(path, length):
    if isinstance(path, int):
        return call('ftruncate', path, length)
    p = name(path)
    if package(p):
        escape(f'truncate {p}')
    call('truncate', p, length)


def s_readlink(path, *, dir_fd=None):
    p = name(path)
    return _real['readlink'](p) if package(p) else call('readlink', p)


def s_fsync(fd):
    return call('fsync', fd) if mine(fd) else None


def s_urandom(n):
    return call('random', n)


def s_nothing(*a, **k):
    return None


def unsupported(what, no=errno.ENOTSUP):
    def f(*a, **k):
        raise OSError(no, os.strerror(no))
    f.__name__ = what
    return f


def denied(what):
    def f(*a, **k):
        escape(f'{what} {core.short(repr(a), 100)}')
    f.__name__ = what
    return f


# -- files ----------------------------------------------------------------------

class SimRaw(io.RawIOBase):
    """Like io.FileIO, on a simulated descriptor."""

    def __init__(self, fd, mode, name=None, closefd=True):
        self._fd = fd
        self._r = 'r' in mode or '+' in mode
        self._w = any(c in mode for c in 'wax+')
        self._mode = mode
        self.closefd = closefd
        if name is not None:
            self.name = name

    @property
    def mode(self):
        if self._r and self._w:
            return 'rb+'
        return 'wb' if self._w else 'rb'

    def check(self):
        if self.closed:
            raise ValueError('I/O operation on closed file')

    def fileno(self):
        self.check()
        return self._fd

    def readable(self):
        self.check()
        return self._r

    def writable(self):
        self.check()
        return self._w

    def seekable(self):
        self.check()
        return self._fd >= FD0 or SPEC.get({1: 'stdout', 2: 'stderr'}.get(self._fd)) == 'file'

    def isatty(self):
        self.check()
        return call('isatty', self._fd)

    def readinto(self, b):
        self.check()
        if not self._r:
            raise io.UnsupportedOperation('not readable')
        data = call('read', self._fd, len(b))
        b[:len(data)] = data
        return len(data)

    def write(self, b):
        self.check()
        if not self._w:
            raise io.UnsupportedOperation('not writable')
        n = call('write', self._fd, bytes(b), True)
        self.count += n
        return n

    count = 0

    def seek(self, pos, how=0):
        self.check()
        if self._fd < FD0 and self.seekable():  # a redirected standard stream; only used to ask for the position
            return self.count
        return call('lseek', self._fd, pos, how)

    def tell(self):
        return self.seek(0, 1)

    def truncate(self, size=None):
        self.check()
        if not self._w:
            raise io.UnsupportedOperation('truncate')
        if size is None:
            size = self.tell()
        call('ftruncate', self._fd, size)
        return size

    def close(self):
        if self.closed:
            return
        try:
            super().close()
        finally:
            if self.closefd:
                call('close', self._fd)


def raw_open(file, mode, closefd=True, opener=None):
    plain = mode.replace('b', '').replace('t', '')
    if len([c for c in plain if c in 'rwax']) != 1 or set(plain) - set('rwax+') or plain.count('+') > 1:
        raise ValueError(f"invalid mode: '{mode}'")
    plus = '+' in mode
    flags = {'r': os.O_RDONLY, 'w': os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 'a': os.O_WRONLY | os.O_CREAT | os.O_APPEND, 'x': os.O_WRONLY | os.O_CREAT | os.O_EXCL}[plain.replace('+', '')]
    if plus:
        flags = flags & ~os.O_WRONLY | os.O_RDWR
    if isinstance(file, int):
        fd = file
    elif opener is not None:
        fd = opener(file, flags | os.O_CLOEXEC)
        if not mine(fd):
            return None, fd
    else:
        if not closefd:
            raise ValueError('Cannot use closefd=False with file name')
        fd = call('open', name(file), flags | NODIR, 0o666)
    raw = SimRaw(fd, mode, file, closefd)
    if 'a' in mode:
        call('lseek', fd, 0, 2)
    return raw, fd


def s_file_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if isinstance(file, int) and not mine(file):
        return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if not isinstance(file, int):
        p = os.fspath(file)
        if not isinstance(p, (str, bytes)):
            raise TypeError('path')
        if package(name(file)):
            if any(c in mode for c in 'wax+'):
                escape(f'open {name(file)} {mode}')
            return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        file = p
    binary = 'b' in mode
    if binary and (encoding is not None or errors is not None or newline is not None):
        raise ValueError("binary mode doesn't take an encoding, errors or newline argument")
    if binary and 't' in mode:
        raise ValueError("can't have text and binary mode at once")
    if not binary and buffering == 0:
        raise ValueError("can't have unbuffered text I/O")
    raw, fd = raw_open(file, mode, closefd, opener)
    if raw is None:
        return real_open(fd, mode, buffering, encoding, errors, newline, closefd)
    try:
        if buffering == 0:
            return raw
        size = 8192 if buffering in (-1, 1) else buffering
        if '+' in mode:
            buf = io.BufferedRandom(raw, size)
        elif raw._w:
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if binary:
            return buf
        if encoding is None or encoding == 'locale':
            encoding = SPEC.get('locale', 'utf-8')
        text = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering=buffering == 1)
        text.mode = mode
        return text
    except BaseException:
        raw.close()
        raise


class SimFileIO(SimRaw):
    def __new__(cls, file, mode='r', closefd=True, opener=None):
        if isinstance(file, int) and not mine(file) or not isinstance(file, int) and package(name(file)):
            return real_FileIO(file, mode, closefd, opener)
        raw, fd = raw_open(file, mode, closefd, opener)
        return raw


# -- processes ---------------------------------------------------------------------

def s_system(cmd):
    r = call('spawn', [os.fsdecode(cmd)], os.environ.get('PATH', os.defpath), True)
    return r << 8 if r >= 0 else -r


class SimPopen:
    def __init__(self, args, *a, **k):
        self.args = args
        argv = [os.fspath(x) for x in ([args] if isinstance(args, (str, bytes, os.PathLike)) else args)]
        argv = [os.fsdecode(x) for x in argv]
        if k.get('executable'):
            argv[0] = os.fsdecode(k['executable'])
        env = k.get('env')
        self.stdin = self.stdout = self.stderr = None
        self.pid = 4242
        try:
            self.returncode = call('spawn', argv, (os.environ if env is None else env).get('PATH', os.defpath), bool(k.get('shell')))
        except OSError as e:
            raise OSError(e.errno, e.strerror, argv[0]) from None
        self.text = bool(k.get('text') or k.get('universal_newlines') or k.get('encoding'))
        self.pipes = k

    def communicate(self, input=None, timeout=None):
        e = '' if self.text else b''
        return (e if self.pipes.get('stdout') == subprocess.PIPE else None, e if self.pipes.get('stderr') == subprocess.PIPE else None)

    def wait(self, timeout=None):
        return self.returncode

    def poll(self):
        return self.returncode

    def kill(self):
        pass
    terminate = kill

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def install():
    o = {'open': s_open, 'read': s_read, 'write': s_write, 'close': s_close, 'lseek': s_lseek, 'fstat': s_fstat, 'stat': s_stat, 'lstat': s_lstat, 'access': s_access,
         'listdir': s_listdir, 'scandir': s_scandir, 'mkdir': s_mkdir, 'chmod': s_chmod, 'utime': s_utime, 'truncate': s_truncate, 'readlink': s_readlink,
         'rmdir': changing('rmdir', 1), 'unlink': changing('unlink', 1), 'remove': changing('unlink', 1), 'rename': changing('rename', 2), 'replace': changing('rename', 2),
         'link': changing('link', 2), 'symlink': changing('symlink', 2), 'fsync': s_fsync, 'fdatasync': s_fsync, 'ftruncate': s_truncate, 'fchmod': s_chmod, 'sync': s_nothing,
         'dup': lambda fd: call('dup', fd) if mine(fd) else _real['dup'](fd), 'isatty': lambda fd: call('isatty', fd) if mine(fd) else False,
         'pread': lambda fd, n, off: call('pread', fd, n, off), 'pwrite': lambda fd, b, off: call('pwrite', fd, bytes(b), off),
         'getcwd': lambda: call('getcwd'), 'getcwdb': lambda: os.fsencode(call('getcwd')), 'chdir': lambda path: call('chdir', name(path)), 'umask': lambda m: call('umask', m),
         'urandom': s_urandom, 'getpid': lambda: 1000 + IDX, 'getppid': lambda: 1, 'get_terminal_size': unsupported('get_terminal_size', errno.ENOTTY), 'sendfile': unsupported('sendfile', errno.ENOTSOCK),
         'copy_file_range': unsupported('copy_file_range', errno.ENOSYS), 'chown': s_nothing, 'lchown': s_nothing, 'fchown': s_nothing, 'posix_fallocate': s_nothing, 'posix_fadvise': s_nothing,
         'set_inheritable': lambda fd, b: None if mine(fd) else _real['set_inheritable'](fd, b), 'get_inheritable': lambda fd: False, 'lockf': s_nothing, 'set_blocking': s_nothing,
         'listxattr': lambda *a, **k: [], 'getxattr': unsupported('getxattr'), 'setxattr': unsupported('setxattr'), 'getlogin': lambda: 'user',
         'system': s_system, 'kill': denied('kill'), 'mkfifo': denied('mkfifo'), 'mknod': denied('mknod')}
    for n in ('fork', 'forkpty', 'posix_spawn', 'posix_spawnp', 'execv', 'execve', 'chroot', 'fchdir', 'killpg', 'statvfs', 'memfd_create'):
        o[n] = denied(n)
    for n, f in o.items():
        if hasattr(os, n):
            setattr(os, n, f)
    for s in (os.supports_follow_symlinks,):
        s.update({s_stat, s_utime, s_chmod, s_access})
    os.supports_fd.update({s_stat, s_chmod})
    builtins.open = s_file_open
    io.open = s_file_open
    io.open_code = lambda p: s_file_open(p, 'rb')
    import _io
    _io.open = s_file_open
    io.FileIO = SimFileIO
    _io.FileIO = SimFileIO
    import fcntl
    fcntl.flock = fcntl.lockf = s_nothing
    shutil._USE_CP_SENDFILE = False
    shutil._use_fd_functions = False
    tempfile.tempdir = None
    tempfile._name_sequence = ('sim%06d' % (1000 * IDX + i) for i in range(1000))
    rr = random.Random(IDX)
    random.seed(IDX)
    random.SystemRandom.random = lambda self: rr.random()
    random.SystemRandom.getrandbits = lambda self, k: rr.getrandbits(k)
    enc = SPEC.get('locale', 'utf-8')
    locale.getpreferredencoding = lambda do_setlocale=True: enc
    locale.getencoding = lambda: enc
    subprocess.Popen = SimPopen
    simclock.set_clock(lambda: call('clock'), lambda s: call('sleep', float(s)))


GUARD = ('os.remove', 'os.rename', 'os.mkdir', 'os.rmdir', 'os.chmod', 'os.chown', 'os.link', 'os.symlink', 'os.truncate', 'os.utime', 'os.system', 'os.exec', 'os.fork', 'os.posix_spawn',
         'os.kill', 'socket.connect', 'socket.bind', 'socket.sendto', 'socket.getaddrinfo', 'socket.gethostby', 'urllib.Request', 'sqlite3.connect')


def guard(event, args):
    """Whatever reaches the real system in spite of the patches is refused."""
    if event == 'open':
        path, mode, flags = args
        if isinstance(flags, int) and flags & iowatch.WRITE_FLAGS and not isinstance(path, int):
            CH.call('escape', f'real open for writing {path!r}')
            raise PermissionError(errno.EACCES, 'refused by the simulation')
    elif event.startswith(GUARD):
        CH.call('escape', f'real {event} {core.short(repr(args), 100)}')
        raise PermissionError(errno.EACCES, 'refused by the simulation')


def main(channel, idx, spec, target, args):
    global CH, SPEC, IDX, ROOTS
    CH, SPEC, IDX = channel, spec, idx
    core.ambient_reset()
    ROOTS = [r.rstrip('/') + '/' for r in iowatch.package_roots() + [core.VERIF, core.REPO]]
    if spec.get('tz'):
        os.environ['TZ'] = spec['tz']
        time.tzset()
    os.environ['HOME'] = '/home'
    for k in ('TMPDIR', 'TEMP', 'TMP'):
        os.environ.pop(k, None)
    install()
    sys.addaudithook(guard)
    warnings.simplefilter('ignore')
    sys.argv = list(spec.get('argv', ['prog']))
    enc = spec.get('stdio', 'utf-8')
    sys.stdin = io.StringIO()
    out = err = None
    if spec.get('stdout') != 'none':
        out = io.TextIOWrapper(io.BufferedWriter(SimRaw(1, 'w', '<stdout>', False)), enc, 'strict', line_buffering=spec.get('stdout') == 'tty' or bool(spec.get('linebuf')))
    if spec.get('stderr') != 'none':
        err = io.TextIOWrapper(io.BufferedWriter(SimRaw(2, 'w', '<stderr>', False)), enc, 'backslashreplace', line_buffering=True)
    sys.stdout, sys.stderr = out, err
    sys.__stdout__, sys.__stderr__ = out, err
    info = INFO
    value = None

    def body():
        return target(*args)
    try:
        lf = spec.get('line')
        if lf is not None:
            res, n, fired = sched.count_events(body, faults={lf[0]: lambda: ops.make_exc(lf[1], 'injected interrupt')} if lf[0] else {})
            info['lines'] = n
            info['fired'] = [[f[0], str(f[1]), str(f[2])] for f in fired]
            if res[0] == 'ok':
                value, res = res[1], ['ok']
        else:
            value = body()
            res = ['ok']
    except BaseException as e:
        res = core.outcome_of_exception(e)
    if res[0] == 'ok':
        status = 0
    elif res[1] == 'builtins.SystemExit':
        code = res[2]
        status = 0 if code in ('None', '0') else int(code) if code.lstrip('-').isdigit() else 1
    else:
        status = 1
    info['outcome'] = res
    info['value'] = value if isinstance(value, (str, int, float, bytes, bool, type(None), list, dict)) else f'<{type(value).__name__}> {value}'
    try:
        if sys.stdout is not None and not sys.stdout.closed:
            sys.stdout.flush()
    except BaseException:
        status = status or 120
    gc.collect()  # files that were never closed
    threads = [t.name for t in threading.enumerate() if t is not threading.main_thread()]
    info['threads'] = len(threads)
    CH.call('exit', status, info)
    os._exit(0)
