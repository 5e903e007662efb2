# -*- coding: utf-8 -*-
"""Runtime contract checks: the same contracts, evaluated on the real code (imported from /repo) for generated inputs.
They find concrete failing inputs; they are bounded and never counted as proved."""
import contextlib
import importlib
import io
import os
import shutil
import sys
import tempfile


class Broken(Exception):
    """the contract does not hold for this input"""


def require(cond, msg, *a):
    if not cond:
        raise Broken(msg % a if a else msg)


KEEP = []       # set: the next case runs in the same copy of the package as the one before it


def fresh():
    """a fresh copy of the package under test (class level state reset); with KEEP the same copy, in which only the settings are
    those of a new process"""
    if KEEP and "jqtrade" in sys.modules:
        for n in ("scheduler", "account"):
            c = mod(n + ".config").get_config()
            c.__dict__.clear()
            c.__init__()
        mod("scheduler.context").Context._instance = None
        g = mod("account.trade_gate").AnXinDMATradeGate
        for f in ORIGINAL:
            if getattr(g, "_read_csv", None) is not None:
                setattr(g, "_read_csv", f)
        return sys.modules["jqtrade"]
    del ORIGINAL[:]
    for k in list(sys.modules):
        if k == "jqtrade" or k.startswith("jqtrade."):
            del sys.modules[k]
    r = importlib.import_module("jqtrade")
    f = vars(mod("account.trade_gate").AnXinDMATradeGate).get("_read_csv")      # setup wraps it
    if f is not None:
        ORIGINAL.append(f)
    return r


ORIGINAL = []


def mod(name):
    return importlib.import_module("jqtrade." + name)


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="pv_")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


@contextlib.contextmanager
def patched(obj, name, value):
    had = name in vars(obj)
    old = getattr(obj, name, None)
    setattr(obj, name, value)
    try:
        yield
    finally:
        if had:
            setattr(obj, name, old)
        else:
            delattr(obj, name)


class FakeDatetime(object):
    """replaces the wall clock: datetime.datetime.now, date.today, time.time for modules of the package"""


def frozen_clock(clock):
    """patch datetime.datetime / datetime.date / time.time to read clock() (a naive local datetime)"""
    import datetime as D
    import time as T
    real_dt, real_date, real_time = D.datetime, D.date, T.time

    class MetaDT(type):
        def __instancecheck__(cls, o):
            return isinstance(o, real_dt)

        def __subclasscheck__(cls, c):
            return issubclass(c, real_dt)

        def __call__(cls, *a, **k):
            return real_dt(*a, **k)

        def __getattr__(cls, n):
            return getattr(real_dt, n)

    class FDT(metaclass=MetaDT):
        @staticmethod
        def now(tz=None):
            return clock()

        @staticmethod
        def today():
            return clock()

        combine = staticmethod(real_dt.combine)
        strptime = staticmethod(real_dt.strptime)
        fromtimestamp = staticmethod(real_dt.fromtimestamp)

    class MetaD(MetaDT):
        def __instancecheck__(cls, o):
            return isinstance(o, real_date)

        def __subclasscheck__(cls, c):
            return issubclass(c, real_date)

        def __call__(cls, *a, **k):
            return real_date(*a, **k)

        def __getattr__(cls, n):
            return getattr(real_date, n)

    class FD(metaclass=MetaD):
        @staticmethod
        def today():
            return clock().date()

    @contextlib.contextmanager
    def cm():
        import types
        fake = types.ModuleType("datetime")
        fake.__dict__.update({k: v for k, v in D.__dict__.items() if not k.startswith("__")})
        fake.datetime, fake.date = FDT, FD
        ft = types.ModuleType("time")
        ft.__dict__.update({k: v for k, v in T.__dict__.items() if not k.startswith("__")})
        ft.time = lambda: clock().timestamp()
        ft.sleep = getattr(clock, "sleep", lambda s: None)
        ft.monotonic = ft.perf_counter = ft.time
        saved = []
        for name, m in list(sys.modules.items()):
            if (name == "jqtrade" or name.startswith("jqtrade.")) and m is not None:
                for k, v in list(vars(m).items()):
                    new = None
                    if v is D:
                        new = fake
                    elif v is T:
                        new = ft
                    elif v is real_dt:
                        new = FDT
                    elif v is real_date:
                        new = FD
                    elif v is real_time:
                        new = ft.time
                    elif v is T.sleep:
                        new = ft.sleep
                    if new is not None:
                        saved.append((m, k, v))
                        setattr(m, k, new)
        sm = (sys.modules["datetime"], sys.modules["time"])
        sys.modules["datetime"], sys.modules["time"] = fake, ft     # function-level imports
        try:
            yield
        finally:
            sys.modules["datetime"], sys.modules["time"] = sm
            for m, k, v in saved:
                setattr(m, k, v)
    return cm()


class Clock(object):
    """a settable clock; sleeping advances it"""

    def __init__(self, t):
        self.t = t
        self.slept = 0.0

    def __call__(self):
        return self.t

    def sleep(self, s):
        import datetime as D
        self.slept += s
        self.t = self.t + D.timedelta(seconds=s)


@contextlib.contextmanager
def captured():
    o, e = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        yield sys.stdout
    finally:
        sys.stdout, sys.stderr = o, e


def outcome(f, *a, **k):
    """('ok', value) or ('raise', exception)"""
    try:
        return "ok", f(*a, **k)
    except Exception as e:      # noqa
        return "raise", e
