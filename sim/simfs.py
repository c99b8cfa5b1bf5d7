"""Simulated file system and processes.

The server (in the worker) owns an in-memory inode file system, the clock and the
schedule.  Every simulated process is a forked pristine process whose system calls
(os.*, open, io.*) are requests to the server; it runs only while the server waits for
its next request, so exactly one process runs at any time and the server decides every
interleaving.  A crash is a real SIGKILL at a system call: buffered data is lost, no
cleanup runs.  Reading installed packages goes to the real file system, read-only.
"""
import errno
import hashlib
import marshal
import os
import select
import signal
import stat as statmod
import struct
import sys
import time

from sim import core, sched

E = errno
_real = {n: getattr(os, n) for n in dir(os) if callable(getattr(os, n))}
real_read, real_write, real_close, real_kill, real_waitpid = os.read, os.write, os.close, os.kill, os.waitpid
FD0 = 100000
O_ACC = os.O_RDONLY | os.O_WRONLY | os.O_RDWR
NODIR = 1 << 40
MUTATIONS = ('write', 'truncate', 'ftruncate', 'mkdir', 'rmdir', 'unlink', 'rename', 'link', 'symlink', 'chmod', 'utime')


class Err(Exception):
    def __init__(self, no):
        self.no = no


class Inode:
    __slots__ = ('kind', 'data', 'entries', 'target', 'mode', 'mtime', 'ino', 'nlink')

    def __init__(self, kind, ino, mode, mtime):
        self.kind, self.ino, self.mode, self.mtime = kind, ino, mode, mtime
        self.data = bytearray()
        self.entries = {}
        self.target = ''
        self.nlink = 1


class Open:
    __slots__ = ('inode', 'flags', 'pos', 'path', 'sink')

    def __init__(self, inode, flags, path, sink=None):
        self.inode, self.flags, self.path, self.sink = inode, flags, path, sink
        self.pos = 0


class FS:
    def __init__(self, clock):
        self.clock = clock
        self.n = 1
        self.root = self.new('d', 0o755)
        self.full = False
        self.free = None

    def new(self, kind, mode):
        self.n += 1
        return Inode(kind, self.n, mode, self.clock())

    # -- paths -----------------------------------------------------------
    def walk(self, path, cwd, follow=True, parent=False, depth=0):
        """-> inode, or (directory, last name, inode or None) with parent=True"""
        if depth > 30:
            raise Err(E.ELOOP)
        if path == '':
            raise Err(E.ENOENT)
        if '\0' in path:
            raise Err(E.EINVAL)
        full = path if path.startswith('/') else cwd.rstrip('/') + '/' + path
        parts = [p for p in full.split('/') if p not in ('', '.')]
        must_dir = full.endswith('/') or full.endswith('/.')
        stack = [self.root]
        for i, name in enumerate(parts):
            last = i == len(parts) - 1
            d = stack[-1]
            if d.kind != 'd':
                raise Err(E.ENOTDIR)
            if not d.mode & 0o100:
                raise Err(E.EACCES)
            if len(name.encode('utf-8', 'surrogateescape')) > 255:
                raise Err(E.ENAMETOOLONG)
            if name == '..':
                if len(stack) > 1:
                    stack.pop()
                if last and parent:
                    return stack[-1], '..', stack[-1]
                continue
            node = d.entries.get(name)
            if node is None:
                if last and parent and not must_dir:
                    return d, name, None
                if last and parent:
                    return d, name, None
                raise Err(E.ENOENT)
            if node.kind == 'l' and (not last or follow or must_dir):
                base = '/' + '/'.join(self.names(stack))
                rest = parts[i + 1:]
                target = node.target if node.target.startswith('/') else base.rstrip('/') + '/' + node.target
                return self.walk(target + ('/' + '/'.join(rest) if rest else '') + ('/' if must_dir and not rest else ''), '/', follow, parent, depth + 1)
            if last and parent:
                if must_dir and node.kind != 'd':
                    raise Err(E.ENOTDIR)
                return d, name, node
            stack.append(node)
        node = stack[-1]
        if must_dir and node.kind != 'd':
            raise Err(E.ENOTDIR)
        if parent:
            return node, '.', node
        return node

    def names(self, stack):
        out = []
        for a, b in zip(stack, stack[1:]):
            for k, v in a.entries.items():
                if v is b:
                    out.append(k)
                    break
        return out

    # -- set-up and inspection (no faults) ---------------------------------
    def put(self, path, spec):
        parts = path.strip('/').split('/')
        d = self.root
        for p in parts[:-1]:
            if p not in d.entries:
                d.entries[p] = self.new('d', 0o755)
            d = d.entries[p]
        if 'd' in spec:
            node = d.entries.get(parts[-1]) or self.new('d', spec.get('mode', 0o755))
            node.mode = spec.get('mode', 0o755)
        elif 'l' in spec:
            node = self.new('l', 0o777)
            node.target = spec['l']
        elif 'h' in spec:
            node = self.walk(spec['h'], '/')
            node.nlink += 1
        else:
            old = d.entries.get(parts[-1])
            node = old if old is not None and old.kind == 'f' else self.new('f', spec.get('mode', 0o644))
            node.data[:] = spec['b'].encode('latin-1') if isinstance(spec['b'], str) else spec['b']
            node.mtime = self.clock()
        if 'mtime' in spec:
            node.mtime = int(spec['mtime'] * 1000000000)
        d.entries[parts[-1]] = node

    def remove(self, path):
        d, name, node = self.walk(path, '/', follow=False, parent=True)
        d.entries.pop(name, None)

    def get(self, path):
        try:
            n = self.walk(path, '/')
        except Err:
            return None
        return bytes(n.data) if n.kind == 'f' else None

    def snapshot(self):
        out = {}

        def rec(node, path):
            if node.kind == 'd':
                out[path or '/'] = ('d', node.mode)
                for k in sorted(node.entries):
                    rec(node.entries[k], path + '/' + k)
            elif node.kind == 'l':
                out[path] = ('l', node.target)
            else:
                out[path] = ('f', bytes(node.data), node.mode, node.mtime, node.ino)
        rec(self.root, '')
        return out


class Proc:
    def __init__(self, idx, spec):
        self.idx, self.spec = idx, spec
        self.cwd = spec.get('cwd', '/')
        self.umask = 0o022
        self.fds = {}
        self.n = 0
        self.pending = None
        self.done = False
        self.status = None      # exit status; None: killed
        self.info = {}
        self.converted = False
        self.streams = {1: bytearray(), 2: bytearray()}
        self.buf = b''
        self.rnd = 0
        for fd in (1, 2):
            self.fds[fd] = Open(None, os.O_WRONLY, f'<fd{fd}>', spec.get('stdout' if fd == 1 else 'stderr', 'capture'))


def start_clock():
    return 1600000000 * 1000000000


class Sim:
    def __init__(self, files, faults=(), switches=(), clock=None, fs=None, free=None):
        self.now = clock if clock is not None else start_clock()
        self.fs = fs or FS(lambda: self.now)
        self.fs.clock = lambda: self.now
        self.fs.free = free
        if fs is None:
            for d in ('/tmp', '/etc', '/home'):
                self.fs.put(d, {'d': 1})
            for p, spec in sorted(files, key=lambda f: 'h' in f[1]):
                self.fs.put(p, spec)
        self.faults = {(f['p'], f['n']): f for f in faults}
        self.sticky = []
        self.switches = dict(switches)
        self.trace = []
        self.procs = []
        self.escapes = []
        self.fired = []
        self.g = 0
        self.nswitch = 0
        self.start = self.now

    # -- processes ---------------------------------------------------------
    def spawn(self, spec, target, *args):
        p = Proc(len(self.procs), spec)
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                real_close(r1)
                real_close(w2)
                for q in self.procs:
                    if not q.done:
                        real_close(q.r)
                        real_close(q.w)
                from sim import simos
                simos.main(Channel(r2, w1), p.idx, spec, target, args)
                code = 0
            except BaseException:
                import traceback
                traceback.print_exc(file=sys.__stderr__)
            finally:
                os._exit(code)
        real_close(w1)
        real_close(r2)
        p.pid, p.r, p.w = pid, r1, w2
        self.procs.append(p)
        return p

    def run(self, timeout=60):
        end = core.real_monotonic() + timeout
        try:
            for p in self.procs:
                if not p.done and p.pending is None:
                    self.receive(p, end)
            cur = 0
            last = None
            while True:
                alive = [p for p in self.procs if not p.done]
                if not alive:
                    return
                if self.g in self.switches:
                    cur = self.switches[self.g]
                p = next((q for q in alive if q.idx == cur), alive[0])
                cur = p.idx
                if last is not None and last != p.idx and len(self.procs) > 1:
                    self.nswitch += 1
                last = p.idx
                self.step(p, end)
        finally:
            for p in self.procs:
                if not p.done:
                    self.kill(p)

    def receive(self, p, end):
        while True:
            if len(p.buf) >= 4:
                n = struct.unpack('<I', p.buf[:4])[0]
                if len(p.buf) >= 4 + n:
                    p.pending = marshal.loads(p.buf[4:4 + n])
                    p.buf = p.buf[4 + n:]
                    return
            left = end - core.real_monotonic()
            if left <= 0 or not select.select([p.r], [], [], left)[0]:
                raise core.Hang('a simulated process does not come to a system call')
            b = real_read(p.r, 1 << 16)
            if not b:
                self.reap(p)
                raise core.HarnessError('a simulated process died outside the simulation')
            p.buf += b

    def reply(self, p, msg):
        data = marshal.dumps(msg)
        core.deliver(p.w, struct.pack('<I', len(data)) + data)

    def kill(self, p):
        try:
            real_kill(p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.reap(p)

    def reap(self, p):
        real_waitpid(p.pid, 0)
        real_close(p.r)
        real_close(p.w)
        p.done = True
        p.fds.clear()

    # -- one request ---------------------------------------------------------
    def step(self, p, end):
        op, *args = p.pending
        p.pending = None
        if op == 'exit':
            p.status = args[0]
            p.info.update(args[1])
            self.reply(p, ('ok', None))
            self.reap(p)
            return
        if op in ('clock', 'mark', 'sleep', 'random', 'escape', 'fdpath', 'later'):
            self.reply(p, ('ok', getattr(self, 'meta_' + op)(p, *args)))
            self.receive(p, end)
            return
        self.g += 1
        p.n += 1
        self.now += 1000000
        rec = [p.idx, p.n, op, self.path_of(p, op, args), self.detail(op, args), '']
        self.trace.append(rec)
        f = self.faults.get((p.idx, p.n)) or self.sticky_fault(op, rec)
        try:
            if f:
                msg = self.faulty(p, op, args, f, rec)
                if msg is None:
                    return  # killed
            else:
                msg = ('ok', self.do(p, op, args))
        except Err as e:
            rec[5] = E.errorcode.get(e.no, str(e.no))
            msg = ('err', e.no)
        self.reply(p, msg)
        self.receive(p, end)

    def sticky_fault(self, op, rec):
        for f, o, path in self.sticky:
            if o == op and path == rec[3]:
                return f
        return None

    def faulty(self, p, op, args, f, rec):
        kind = f['kind']
        if kind not in ('partial', 'short') or op in ('write', 'read'):
            self.fired.append([p.idx, p.n, op, rec[3], kind, f.get('e', '')])
        rec[5] = f'fault {kind} {f.get("e", "")}'
        if kind == 'errno':
            if f.get('sticky') and not any(s[0] is f for s in self.sticky):
                self.sticky.append((f, op, rec[3]))
            if op == 'close':
                p.fds.pop(args[0], None)
            raise Err(getattr(E, f['e']))
        if kind == 'exc':
            # io's raw write accounts for what was written before it looks for signals: there is no "after" for its
            # buffered caller, which would otherwise write the same data again
            if f.get('after') and not (op == 'write' and len(args) > 2):
                try:
                    self.do(p, op, args)
                except Err:
                    pass
            return ('exc', f['e'])
        if kind == 'kill':
            if f.get('after'):
                try:
                    self.do(p, op, args)
                except Err:
                    pass
            self.kill(p)
            return None
        if kind == 'torn':
            if op == 'write':
                n = len(args[1]) * f.get('ppm', 500000) // 1000000
                try:
                    self.do(p, op, [args[0], args[1][:n]])
                except Err:
                    pass
            self.kill(p)
            return None
        if kind == 'partial':
            if op == 'write':
                n = len(args[1]) * f.get('ppm', 500000) // 1000000
                self.fs.full = True
                if n:
                    self.fs.full = False
                    r = self.do(p, op, [args[0], args[1][:n]])
                    self.fs.full = True
                    return ('ok', r)
            return ('ok', self.do(p, op, args))
        if kind == 'short':
            if op == 'write' and len(args[1]) > 1:
                return ('ok', self.do(p, op, [args[0], args[1][:max(1, len(args[1]) * f.get('ppm', 500000) // 1000000)]]))
            if op == 'read' and args[1] > 1:
                return ('ok', self.do(p, op, [args[0], max(1, f.get('ppm', 500000) * 40 // 1000000)]))
            return ('ok', self.do(p, op, args))
        raise core.HarnessError(f'fault {kind}')

    def path_of(self, p, op, args):
        if op in ('read', 'write', 'close', 'lseek', 'ftruncate', 'fsync', 'fstat', 'dup', 'isatty', 'pread', 'pwrite'):
            o = p.fds.get(args[0])
            return o.path if o else f'<bad fd {args[0]}>'
        if op == 'spawn':
            return '<process>'
        if op == 'rename':
            return self.absolute(p, args[1])
        if op in ('link', 'symlink'):
            return self.absolute(p, args[1])
        return self.absolute(p, args[0]) if args and isinstance(args[0], str) else ''

    def detail(self, op, args):
        if op == 'open':
            fl = args[1]
            d = ['r', 'w', 'rw'][fl & 3] if fl & 3 < 3 else '?'
            return d + ''.join(c for b, c in ((os.O_CREAT, '+c'), (os.O_TRUNC, '+t'), (os.O_EXCL, '+x'), (os.O_APPEND, '+a')) if fl & b)
        if op == 'write':
            return f'{len(args[1])} bytes'
        if op == 'read':
            return f'<= {args[1]}'
        if op == 'rename':
            return f'from {args[0]}'
        if op == 'spawn':
            return ' '.join(map(str, args[0]))
        return ''

    def absolute(self, p, path):
        return os.path.normpath(path if path.startswith('/') else p.cwd + '/' + path)

    # -- meta requests -------------------------------------------------------
    def meta_clock(self, p):
        return self.now / 1e9

    def meta_sleep(self, p, secs):
        self.now += int(max(0, secs) * 1e9)

    def meta_mark(self, p, what):
        if what == 'converted':
            p.converted = True
        self.trace.append([p.idx, p.n, 'mark', what, '', ''])

    def meta_escape(self, p, what):
        self.escapes.append([p.idx, what])

    def meta_later(self, p):
        """The files become those of a later moment."""
        self.fs = self.later
        self.fs.clock = lambda: self.now
        for fd in [fd for fd in p.fds if p.fds[fd].inode is not None]:
            del p.fds[fd]
        p.converted = False
        p.info.pop('spawned', None)
        del self.trace[:]

    def meta_fdpath(self, p, fd):
        o = p.fds.get(fd)
        return o.path if o else None

    def meta_random(self, p, n):
        p.rnd += 1
        out = b''
        while len(out) < n:
            out += hashlib.sha256(f'{p.idx}:{p.rnd}:{len(out)}'.encode()).digest()
        return out[:n]

    # -- system calls ----------------------------------------------------------
    def do(self, p, op, args):
        return getattr(self, 'do_' + op)(p, *args)

    def fd(self, p, fd):
        o = p.fds.get(fd)
        if o is None:
            raise Err(E.EBADF)
        return o

    def touch(self, node):
        node.mtime = self.now

    def do_open(self, p, path, flags, mode):
        nodir = flags & NODIR
        flags &= ~NODIR
        acc = flags & O_ACC
        write = acc in (os.O_WRONLY, os.O_RDWR)
        d, name, node = self.fs.walk(path, p.cwd, follow=not flags & os.O_NOFOLLOW, parent=True)
        if node is None:
            if not flags & os.O_CREAT:
                raise Err(E.ENOENT)
            if path.endswith('/'):
                raise Err(E.EISDIR)
            if not d.mode & 0o200:
                raise Err(E.EACCES)
            if self.fs.full or self.fs.free == 0:
                raise Err(E.ENOSPC)
            node = self.fs.new('f', mode & ~p.umask & 0o777)
            d.entries[name] = node
            self.touch(d)
        else:
            if flags & os.O_CREAT and flags & os.O_EXCL:
                raise Err(E.EEXIST)
            if node.kind == 'l':
                raise Err(E.ELOOP)
            if node.kind == 'd' and (write or nodir):
                raise Err(E.EISDIR)
            if flags & getattr(os, 'O_DIRECTORY', 0) and node.kind != 'd':
                raise Err(E.ENOTDIR)
            if write and not node.mode & 0o200 or acc in (os.O_RDONLY, os.O_RDWR) and not node.mode & 0o400:
                raise Err(E.EACCES)
            if flags & os.O_TRUNC and write:
                self.truncate(node, 0)
        fd = FD0
        while fd in p.fds:
            fd += 1
        p.fds[fd] = Open(node, flags, self.absolute(p, path))
        return fd

    def truncate(self, node, n):
        if n < len(node.data):
            del node.data[n:]
        else:
            node.data.extend(b'\0' * (n - len(node.data)))
        self.touch(node)

    def do_read(self, p, fd, n):
        o = self.fd(p, fd)
        if o.inode is None or o.flags & O_ACC == os.O_WRONLY:
            raise Err(E.EBADF)
        if o.inode.kind == 'd':
            raise Err(E.EISDIR)
        c = p.spec.get('chunk')
        if c:
            n = min(n, max(1, c))
        b = bytes(o.inode.data[o.pos:o.pos + n])
        o.pos += len(b)
        return b

    def do_write(self, p, fd, data, io=False):
        o = self.fd(p, fd)
        if o.sink is not None:
            k = o.sink
            if k in ('EPIPE', 'ENOSPC', 'EIO', 'EBADF'):
                raise Err(getattr(E, k))
            p.streams[1 if o.path == '<fd1>' else 2] += data
            return len(data)
        if o.flags & O_ACC == os.O_RDONLY:
            raise Err(E.EBADF)
        if self.fs.full:
            raise Err(E.ENOSPC)
        c = p.spec.get('chunk')
        if c:
            data = data[:max(1, c)]
        if o.flags & os.O_APPEND:
            o.pos = len(o.inode.data)
        new = max(0, o.pos + len(data) - len(o.inode.data))
        if self.fs.free is not None and new > self.fs.free:
            room = self.fs.free + len(data) - new
            if room <= 0:
                raise Err(E.ENOSPC)
            data = data[:room]
            new = self.fs.free
        if self.fs.free is not None:
            self.fs.free -= new
        if o.pos > len(o.inode.data):
            o.inode.data.extend(b'\0' * (o.pos - len(o.inode.data)))
        o.inode.data[o.pos:o.pos + len(data)] = data
        o.pos += len(data)
        self.touch(o.inode)
        return len(data)

    def do_pread(self, p, fd, n, off):
        o = self.fd(p, fd)
        return bytes(o.inode.data[off:off + n])

    def do_pwrite(self, p, fd, data, off):
        o = self.fd(p, fd)
        pos, o.pos = o.pos, off
        n = self.do_write(p, fd, data)
        o.pos = pos
        return n

    def do_lseek(self, p, fd, off, how):
        o = self.fd(p, fd)
        if o.inode is None:
            raise Err(E.ESPIPE)
        new = off + (0 if how == 0 else o.pos if how == 1 else len(o.inode.data))
        if new < 0:
            raise Err(E.EINVAL)
        o.pos = new
        return new

    def do_ftruncate(self, p, fd, n):
        o = self.fd(p, fd)
        if o.flags & O_ACC == os.O_RDONLY:
            raise Err(E.EINVAL)
        self.truncate(o.inode, n)

    def do_truncate(self, p, path, n):
        node = self.fs.walk(path, p.cwd)
        if node.kind == 'd':
            raise Err(E.EISDIR)
        if not node.mode & 0o200:
            raise Err(E.EACCES)
        self.truncate(node, n)

    def do_fsync(self, p, fd):
        self.fd(p, fd)

    def do_close(self, p, fd):
        self.fd(p, fd)
        del p.fds[fd]

    def do_dup(self, p, fd):
        o = self.fd(p, fd)
        new = FD0
        while new in p.fds:
            new += 1
        p.fds[new] = o
        return new

    def do_isatty(self, p, fd):
        return self.fd(p, fd).sink == 'tty'

    def st(self, node):
        kind = {'d': statmod.S_IFDIR, 'f': statmod.S_IFREG, 'l': statmod.S_IFLNK}[node.kind]
        size = len(node.data) if node.kind == 'f' else 4096
        return [kind | node.mode, node.ino, 77, node.nlink, 0, 0, size, node.mtime]

    def do_fstat(self, p, fd):
        o = self.fd(p, fd)
        if o.inode is None:
            return [statmod.S_IFIFO | 0o600, 1, 78, 1, 0, 0, 0, self.start]
        return self.st(o.inode)

    def do_stat(self, p, path, follow):
        return self.st(self.fs.walk(path, p.cwd, follow=follow))

    def do_access(self, p, path, mode):
        try:
            n = self.fs.walk(path, p.cwd)
        except Err:
            return False
        return all(n.mode & b for m, b in ((os.R_OK, 0o400), (os.W_OK, 0o200), (os.X_OK, 0o100)) if mode & m)

    def do_listdir(self, p, path):
        n = self.fs.walk(path, p.cwd)
        if n.kind != 'd':
            raise Err(E.ENOTDIR)
        if not n.mode & 0o400:
            raise Err(E.EACCES)
        return [[k, v.kind, v.ino] for k, v in n.entries.items()]

    def target(self, p, path):
        d, name, node = self.fs.walk(path, p.cwd, follow=False, parent=True)
        if not d.mode & 0o200:
            raise Err(E.EACCES)
        return d, name, node

    def do_mkdir(self, p, path, mode):
        d, name, node = self.target(p, path)
        if node is not None:
            raise Err(E.EEXIST)
        d.entries[name] = self.fs.new('d', mode & ~p.umask & 0o777)
        self.touch(d)

    def do_rmdir(self, p, path):
        d, name, node = self.target(p, path)
        if node is None:
            raise Err(E.ENOENT)
        if node.kind != 'd':
            raise Err(E.ENOTDIR)
        if node.entries:
            raise Err(E.ENOTEMPTY)
        del d.entries[name]

    def do_unlink(self, p, path):
        d, name, node = self.target(p, path)
        if node is None:
            raise Err(E.ENOENT)
        if node.kind == 'd':
            raise Err(E.EISDIR)
        node.nlink -= 1
        del d.entries[name]
        self.touch(d)

    def do_rename(self, p, src, dst):
        d, name, node = self.target(p, src)
        if node is None:
            raise Err(E.ENOENT)
        d2, name2, node2 = self.target(p, dst)
        if node2 is node:
            return
        if node2 is not None:
            if node2.kind == 'd' and node.kind != 'd':
                raise Err(E.EISDIR)
            if node2.kind != 'd' and node.kind == 'd':
                raise Err(E.ENOTDIR)
            if node2.kind == 'd' and node2.entries:
                raise Err(E.ENOTEMPTY)
            node2.nlink -= 1
        del d.entries[name]
        d2.entries[name2] = node
        self.touch(d)
        self.touch(d2)

    def do_link(self, p, src, dst):
        node = self.fs.walk(src, p.cwd, follow=False)
        d, name, old = self.target(p, dst)
        if old is not None:
            raise Err(E.EEXIST)
        node.nlink += 1
        d.entries[name] = node

    def do_symlink(self, p, src, dst):
        d, name, old = self.target(p, dst)
        if old is not None:
            raise Err(E.EEXIST)
        n = self.fs.new('l', 0o777)
        n.target = src
        d.entries[name] = n

    def do_readlink(self, p, path):
        n = self.fs.walk(path, p.cwd, follow=False)
        if n.kind != 'l':
            raise Err(E.EINVAL)
        return n.target

    def do_chmod(self, p, path, mode):
        self.fs.walk(path, p.cwd).mode = mode & 0o777

    def do_fchmod(self, p, fd, mode):
        self.fd(p, fd).inode.mode = mode & 0o777

    def do_utime(self, p, path, ns):
        self.fs.walk(path, p.cwd).mtime = self.now if ns is None else ns

    def do_getcwd(self, p):
        return p.cwd

    def do_chdir(self, p, path):
        n = self.fs.walk(path, p.cwd)
        if n.kind != 'd':
            raise Err(E.ENOTDIR)
        p.cwd = self.absolute(p, path)

    def do_umask(self, p, mask):
        old, p.umask = p.umask, mask
        return old

    def executable(self, p, prog, dirs):
        """As execvp(): the error where the program cannot be started."""
        err = E.ENOENT
        for path in [prog] if '/' in prog else [f'{d or "."}/{prog}' for d in dirs.split(':')]:
            try:
                n = self.fs.walk(path, p.cwd)
            except Err:
                continue
            if n.kind == 'f' and n.mode & 0o111:
                return 0
            err = E.EACCES
        return err

    def do_spawn(self, p, args, dirs='/bin:/usr/bin', shell=False):
        """A child process of the tool: its exit status is in the plan."""
        words = args[0].split() if shell else args
        err = self.executable(p, words[0] if words else '', dirs)
        if err and shell:
            return 127 if err == E.ENOENT else 126
        if err:
            raise Err(err)
        k = p.info.setdefault('spawned', 0)
        p.info['spawned'] = k + 1
        res = p.spec.get('spawn', [0])
        r = res[min(k, len(res) - 1)]
        if isinstance(r, str):
            raise Err(getattr(E, r))
        return r


class Channel:
    """Client side."""

    def __init__(self, r, w):
        self.r, self.w = r, w
        self.buf = b''
        self.lock = sched._real_allocate()

    def call(self, *msg):
        with self.lock:
            return self.locked_call(msg)

    def locked_call(self, msg):
        data = marshal.dumps(msg)
        core.deliver(self.w, struct.pack('<I', len(data)) + data)
        while True:
            if len(self.buf) >= 4:
                n = struct.unpack('<I', self.buf[:4])[0]
                if len(self.buf) >= 4 + n:
                    r = marshal.loads(self.buf[4:4 + n])
                    self.buf = self.buf[4 + n:]
                    return r
            b = real_read(self.r, 1 << 16)
            if not b:
                os._exit(4)
            self.buf += b
