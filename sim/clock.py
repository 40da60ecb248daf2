"""Seam for clocks and randomness: installed once per process, before the code under test is imported, so that it is
met whichever way the code gets at the clock (time.*, datetime.*, 'from time import ...') or at random numbers.
While a simulated world is running it supplies them; otherwise the real ones are used."""

import datetime
import os
import random
import time

_R = {n: getattr(time, n) for n in ("time", "time_ns", "monotonic", "monotonic_ns", "perf_counter", "perf_counter_ns",
                                    "sleep", "localtime", "gmtime", "ctime", "strftime", "asctime")}
_urandom = os.urandom
world = None  # the running one


def _on():
    w = world
    return w if w is not None and w.on else None


def now():
    w = _on()
    return w.sim_time() if w else _R["time"]()


def _mono(real, k):
    def fn():
        w = _on()
        if not w:
            return real()
        w.mono += 0.001 + max(0.0, w.tick())
        return w.mono if k == 1 else int(w.mono * k)

    return fn


def _sleep(s):
    w = _on()
    if not w:
        return _R["sleep"](s)
    w.now += s
    w.mono += s
    return None


def _urand(n):
    w = _on()
    return w.entropy.randbytes(n) if w else _urandom(n)


class _DT(datetime.datetime):
    @classmethod
    def now(cls, tz=None):
        return cls.fromtimestamp(now(), tz)

    @classmethod
    def utcnow(cls):
        return cls.fromtimestamp(now(), datetime.timezone.utc).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return cls.fromtimestamp(now())


class _D(datetime.date):
    @classmethod
    def today(cls):
        return cls.fromtimestamp(now())


def install():
    if time.time is now:
        return
    time.time = now
    time.time_ns = lambda: int(now() * 10 ** 9)
    for n in ("monotonic", "perf_counter"):
        setattr(time, n, _mono(_R[n], 1))
        setattr(time, n + "_ns", _mono(_R[n + "_ns"], 10 ** 9))
    time.sleep = _sleep
    time.localtime = lambda s=None: _R["localtime"](now() if s is None else s)
    time.gmtime = lambda s=None: _R["gmtime"](now() if s is None else s)
    time.ctime = lambda s=None: _R["ctime"](now() if s is None else s)
    time.strftime = lambda f, t=None: _R["strftime"](f, time.localtime() if t is None else t)
    time.asctime = lambda t=None: _R["asctime"](time.localtime() if t is None else t)
    _DT.__name__ = _DT.__qualname__ = "datetime"
    _D.__name__ = _D.__qualname__ = "date"
    datetime.datetime, datetime.date = _DT, _D
    os.urandom = _urand


def enter(w):
    global world
    old, world = world, w
    random.seed("%s|random" % w.cfg.get("seed", 0))
    return old


def leave(old):
    global world
    world = old
