"""Deterministic scheduler for real threads.

Exactly one thread owns the baton.  A trace function counts executed lines (or
opcodes) of the library's own frames; the plan says at which count of which task
the baton moves on, and to whom.  Locks created by the library are replaced by
SimLock, so that a thread waiting for a lock hands the baton on as well.
"""
import _thread
import contextlib
import hashlib
import sys
import threading
import time

from sim.core import CREOLE, HarnessError, outcome_of_exception

_real_allocate = _thread.allocate_lock
_real_Lock = threading.Lock
_real_RLock = threading.RLock
CURRENT = None  # the running Scheduler of this process
_TESTS = CREOLE + 'tests'


class SimLock:
    """threading.Lock / RLock look-alike that yields to the scheduler when contended."""

    def __init__(self, reentrant=False):
        self._re = reentrant
        self._owner = None
        self._count = 0
        self._real = _real_RLock() if reentrant else _real_allocate()

    def acquire(self, blocking=True, timeout=-1):
        s = CURRENT
        if s is None or s.current_thread_task() is None:
            return self._real.acquire(blocking, timeout)
        me = s.current_thread_task()
        while self._count and not (self._re and self._owner is me):
            if not blocking:
                return False
            if timeout is not None and timeout >= 0:
                s.lock_timeouts += 1
                return False  # the simulated clock runs past the timeout
            s.block_on(self)
        self._owner = me
        self._count += 1
        return True

    def release(self):
        s = CURRENT
        if s is None or s.current_thread_task() is None:
            return self._real.release()
        if not self._count:
            raise RuntimeError('release unlocked lock')
        self._count -= 1
        if not self._count:
            self._owner = None

    def _is_owned(self):
        s = CURRENT
        if s is None or s.current_thread_task() is None:
            return self._real._is_owned() if self._re else self._real.locked()
        return bool(self._count) and self._owner is s.current_thread_task()

    def _release_save(self):
        s = CURRENT
        if s is None or s.current_thread_task() is None:
            return self._real._release_save() if self._re else self._real.release()
        state = self._count
        self._count, self._owner = 0, None
        return state

    def _acquire_restore(self, state):
        s = CURRENT
        if s is None or s.current_thread_task() is None:
            return self._real._acquire_restore(state) if self._re else self._real.acquire()
        self.acquire()
        self._count = state or 1

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return bool(self._count) or (not self._re and self._real.locked())

    def _at_fork_reinit(self):
        self._count, self._owner = 0, None
        self._real = _real_RLock() if self._re else _real_allocate()


def install_locks():
    threading.Lock = lambda: SimLock()
    threading.RLock = lambda *a, **k: SimLock(True)


@contextlib.contextmanager
def real_locks():
    a, b = threading.Lock, threading.RLock
    threading.Lock, threading.RLock = _real_Lock, _real_RLock
    try:
        yield
    finally:
        threading.Lock, threading.RLock = a, b


class Abort(BaseException):
    """Ends all simulated threads after a deadlock or an exhausted step budget."""


class Task:
    def __init__(self, idx, body):
        self.idx = idx
        self.body = body
        self.baton = _real_allocate()
        self.baton.acquire()
        self.n = 0              # own events
        self.op_n = 0           # own events within the current operation
        self.done = False
        self.waiting = None     # SimLock
        self.switch = {}        # op event -> target task (current operation)
        self.faults = {}        # op event -> exception factory (current operation)
        self.calls = {}         # op event -> function to call there (current operation)
        self.fired = []
        self.active = False
        self.leave = _real_allocate()
        self.leave.acquire()
        self.error = None
        self.ident = None
        self.child = None       # in a forked child that goes on: where to report


class Scheduler:
    def __init__(self, opcode=False, budget=None, extra=()):
        self.tasks = []
        self.extra = tuple(extra)  # further files whose lines count
        self.opcode = opcode
        self.finished = _real_allocate()
        self.finished.acquire()
        self.total = 0
        self.budget = budget
        self.problem = None
        self.switches = 0
        self.sites = set()
        self.lock_timeouts = 0
        self.lock_blocks = 0
        self.hash = hashlib.sha256()
        self.first = None       # (code, line) -> where it was executed, if wanted
        self._files = {}
        self._by_ident = {}

    # -- set-up ------------------------------------------------------------
    def add(self, body):
        t = Task(len(self.tasks), body)
        self.tasks.append(t)
        return t

    def current_thread_task(self):
        return self._by_ident.get(_thread.get_ident())

    def run(self, first=0):
        global CURRENT
        CURRENT = self
        # every thread switches tracing on before the first one runs and off after the last
        # one is done: CPython 3.12 does not like it to be toggled while others run
        self._ready = _real_allocate()
        self._gone = 0
        for t in self.tasks:
            self._ready.acquire()
            _thread.start_new_thread(self._main, (t,))
        self._ready.acquire()
        self.tasks[first].baton.release()
        self.finished.acquire()
        for t in self.tasks:
            t.leave.release()
        while self._gone < len(self.tasks):
            time.sleep(0.0005)
        CURRENT = None
        for t in self.tasks:
            if t.error is not None:
                raise t.error

    def _main(self, t):
        t.ident = _thread.get_ident()
        self._by_ident[t.ident] = t
        self.trace_on(t)
        self._ready.release()
        t.baton.acquire()
        try:
            if self.problem is None:
                t.body(t)
        except Abort:
            pass
        except BaseException as e:
            t.error = e
        t.active = False
        t.done = True
        nxt = self._runnable(None)
        if nxt is not None:
            nxt.baton.release()
        elif all(x.done for x in self.tasks):
            self.finished.release()
        else:  # only waiting tasks are left
            self._deadlock()
            next(x for x in self.tasks if not x.done).baton.release()
        t.leave.acquire()
        sys.settrace(None)
        self._gone += 1

    def begin_op(self, t, switch=None, faults=None, calls=None):
        t.op_n = 0
        t.switch = switch or {}
        t.faults = faults or {}
        t.calls = calls or {}
        t.active = True
        if sys.gettrace() is None:  # a raising trace function removes itself
            self.trace_on(t)

    def end_op(self, t):
        t.active = False
        t.switch = {}
        t.faults = {}
        t.calls = {}

    def trace_on(self, t):
        if self.opcode:
            # CPython 3.12 delivers opcode events only if a frame asked for them before settrace()
            sys._getframe().f_trace_opcodes = True
        sys.settrace(self.tracer(t))

    # -- tracing -----------------------------------------------------------
    def tracer(self, t):
        files = self._files
        opcode = self.opcode
        extra = self.extra
        tick = self.tick

        def local(frame, event, arg):
            if event == 'line' or event == 'opcode':
                tick(t, frame)
            return local

        def glob(frame, event, arg):
            code = frame.f_code
            mine = files.get(code)
            if mine is None:
                fn = code.co_filename
                mine = files[code] = code.co_name != '<module>' and (
                    (fn.startswith(CREOLE) and not fn.startswith(_TESTS)) or (extra and fn.endswith(extra)))
            if not mine:
                return None
            if opcode:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            tick(t, frame)
            return local
        return glob

    def tick(self, t, frame):
        if not t.active:
            return
        if self.problem is not None:
            raise Abort()
        t.n += 1
        t.op_n += 1
        self.total += 1
        if self.budget is not None and self.total > self.budget:
            self.problem = ('no-progress', f'{self.total} steps without completing (budget {self.budget})')
            raise Abort()
        if self.first is not None:
            at = self.first.setdefault((frame.f_code, frame.f_lineno), [])
            if len(at) < 6:
                at.append(t.op_n)
            else:
                at[5] = t.op_n
        if t.calls:
            f = t.calls.pop(t.op_n, None)
            if f is not None:
                t.fired.append([t.op_n, f.kind, self.site(frame)])
                t.active = False
                try:
                    f()
                finally:
                    t.active = True
        if t.faults:
            f = t.faults.pop(t.op_n, None)
            if f is not None:
                exc = f()
                exc.sim_fired = [t.op_n, type(exc).__name__, self.site(frame)]
                t.fired.append(exc.sim_fired)
                raise exc
        if t.switch:
            to = t.switch.pop(t.op_n, None)
            if to is not None:
                self.switch_to(t, to, self.site(frame))

    def site(self, frame):
        fn = frame.f_code.co_filename
        if fn.startswith(CREOLE):
            fn = fn[len(CREOLE):]
        else:
            fn = '/'.join(fn.split('/')[-2:])
        return f'{fn}:{frame.f_lineno}'

    def _runnable(self, me, prefer=None):
        k = len(self.tasks)
        start = prefer if prefer is not None else (me.idx + 1 if me else 0)
        for d in range(k):
            x = self.tasks[(start + d) % k]
            if x is not me and not x.done and (x.waiting is None or not x.waiting._count):
                return x
        return None

    def switch_to(self, t, to, site):
        nxt = self._runnable(t, prefer=to % len(self.tasks))
        if nxt is None:
            return
        self.switches += 1
        self.sites.add(site)
        self.hash.update(f'{t.idx}@{site}>{nxt.idx};'.encode())
        self._hand(t, nxt)

    def _hand(self, t, nxt):
        nxt.baton.release()
        t.baton.acquire()
        if self.problem is not None:
            raise Abort()

    def block_on(self, lock):
        t = self.current_thread_task()
        if self.problem is not None:
            raise Abort()
        t.waiting = lock
        self.lock_blocks += 1
        nxt = self._runnable(t)
        if nxt is None:
            self._deadlock()
            raise Abort()
        self._hand(t, nxt)
        t.waiting = None

    def _deadlock(self):
        if self.problem is None:
            self.problem = ('deadlock', 'every unfinished thread waits for a lock')
        for t in self.tasks:
            t.waiting = None


def count_events(fn, opcode=False, faults=None, limit=None, extra=(), places=None):
    """Run fn() in this thread; return (outcome, number of library events, fired).

    places (a list) gets for each executed line the numbers of the first five events there and of the last one.
    """
    s = Scheduler(opcode=opcode, budget=limit, extra=extra)
    if places is not None:
        s.first = {}
    t = Task(0, None)
    s.tasks.append(t)
    t.faults = faults or {}
    t.active = True
    old, old_hook = sys.gettrace(), sys.unraisablehook
    if faults:
        def hook(u):  # the interpreter drops what is raised in a generator being finalised or a __del__
            f = getattr(u.exc_value, 'sim_fired', None)
            if f is not None:
                t.fired[:] = [x for x in t.fired if x is not f]
            else:
                old_hook(u)
        sys.unraisablehook = hook
    s.trace_on(t)
    try:
        try:
            out = ['ok', fn()]
        finally:
            sys.settrace(old)
            sys.unraisablehook = old_hook
            if places is not None:
                places += s.first.values()
    except Abort:
        out = ['abort', s.problem]
    except HarnessError:
        raise
    except BaseException as e:
        out = outcome_of_exception(e)
    return out, t.op_n, t.fired
