"""The clock seam: installed before creole is imported, passes through until a simulation sets it."""
import datetime as _dt
import time as _t

real = {n: getattr(_t, n) for n in ('time', 'time_ns', 'monotonic', 'monotonic_ns', 'perf_counter', 'perf_counter_ns', 'process_time',
                                    'localtime', 'gmtime', 'ctime', 'strftime', 'sleep')}
_now = None      # () -> seconds since the epoch
_slept = None    # (seconds) -> None


def set_clock(now, slept=None):
    global _now, _slept
    _now, _slept = now, slept


def _s(n):
    def f():
        return _now() if _now else real[n]()
    f.__name__ = n
    return f


def _ns(n):
    def f():
        return int(_now() * 1000000000) if _now else real[n]()
    f.__name__ = n
    return f


def _conv(n):
    def f(secs=None):
        if secs is None and _now:
            secs = _now()
        return real[n](secs)
    f.__name__ = n
    return f


def _strftime(fmt, t=None):
    if t is None:
        t = _t.localtime()
    return real['strftime'](fmt, t)


def _sleep(secs):
    if _now is None:
        return real['sleep'](secs)
    if _slept:
        _slept(secs)


class _Meta(type(_dt.datetime)):
    def __instancecheck__(cls, obj):
        return isinstance(obj, cls.__mro__[1])

    def __subclasscheck__(cls, sub):
        return issubclass(sub, cls.__mro__[1])


def install():
    for n in ('time', 'monotonic', 'perf_counter', 'process_time'):
        setattr(_t, n, _s(n))
    for n in ('time_ns', 'monotonic_ns', 'perf_counter_ns'):
        setattr(_t, n, _ns(n))
    for n in ('localtime', 'gmtime', 'ctime'):
        setattr(_t, n, _conv(n))
    _t.strftime = _strftime
    _t.sleep = _sleep
    real_dt, real_d = _dt.datetime, _dt.date

    class datetime(real_dt, metaclass=_Meta):
        @classmethod
        def now(cls, tz=None):
            return cls.fromtimestamp(_t.time(), tz)

        @classmethod
        def utcnow(cls):
            return cls.fromtimestamp(_t.time(), _dt.timezone.utc).replace(tzinfo=None)

        @classmethod
        def today(cls):
            return cls.now()

    class date(real_d, metaclass=_Meta):
        @classmethod
        def today(cls):
            return cls.fromtimestamp(_t.time())
    for c in (datetime, date):
        c.__module__ = 'datetime'
        c.__qualname__ = c.__name__
    _dt.datetime, _dt.date = datetime, date
