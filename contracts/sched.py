# -*- coding: utf-8 -*-
"""strategies, event buses, loops and schedulers for the scheduler contracts"""
from pv.api import *
from contracts.acc import *


class Module(object):
    """a user's strategy module"""

    def __init__(self, init=None, **kw):
        if init is not None:
            self.process_initialize = init
        self.__dict__.update(kw)


class Loader(object):
    def __init__(self, module):
        self.module = module

    def load(self):
        return self.module


class Scheduler(object):
    """records what is scheduled"""

    def __init__(self):
        self.sources = []

    def schedule(self, es):
        self.sources.append(es)


class Bus(object):
    def __init__(self):
        self.registered = []

    def register(self, cls, callback, priority=0):
        self.registered.append((cls, callback, priority))


class SourceStub(object):
    """stands for an event source: records the daily tasks added to it, as a summarised sequence if there are many"""
    made = None

    def __init__(self, start=None, end=None):
        self.start, self.end = start, end
        self.ready = False
        eng().new_serial(self)
        self.log = PList([])
        eng().ghost.setdefault("sources", []).append(self)
        eng().ghost["cell_src%d" % len(eng().ghost["sources"])] = self

    def setup(self):
        self.ready = True

    def daily(self, cls, expr):
        self.log.append((cls, expr))


def strategy(I, init, config=None, **ctx):
    """(context, strategy object, user's module) of a strategy whose process_initialize is init(module)"""
    m = Module()
    if init is not None:
        m.process_initialize = lambda c: init(m)
    kw = dict(loader=Loader(m), scheduler=Scheduler(), event_bus=Bus(), config=config)
    kw.update(ctx)
    c = context(I, **kw)
    on = eng().ghost
    on.setdefault("on_isdir", lambda p: True)
    S = I.import_module("jqtrade.scheduler.strategy")
    s, e = catch(I, S.Strategy, c)
    if e is not None:
        fail("a strategy can be created", repr(e))
        raise PathEnd()
    return c, s, m


class Grid(object):
    """daily tasks are checked one by one as they are added to a source: the next one must be at `next` of the day, then
    every `step`; the loop over periods is proved to cover every period up to its end"""

    def __init__(self, I, step, first=0, tag="periods"):
        self.I, self.step, self.tag = I, step, tag
        self.g = cell(I, "grid", next=first, count=0)
        self.classes = []
        self.calls = 0
        grid = self

        class Source(SourceStub):
            def daily(self, cls, expr):
                grid.classes.append(cls)
                grid.add(expr)
        I.import_module("jqtrade.scheduler.event_source").EventSource = Source

    def add(self, expr):
        I, g = self.I, self.g
        t = g.next
        self.calls += 1
        prove("the times are the start and then every interval, in order", val_eq(expr, hms_text(I, t)))
        put(I, g, "next", t + self.step)
        put(I, g, "count", g.count + 1)

    def bounds(self, k):
        return ifun("p_start", k, 0, 86399), ifun("p_end", k, 0, 86399)

    def periods(self, n, make=None):
        self.I.invariants[self.tag] = self
        make = make or (lambda a, b: (a, b))
        return PList([Seg(self.tag, n, lambda k: make(*map(hms, self.bounds(k))))])

    # the invariant of the loops over the periods: an iteration adds nothing or covers its period
    derived = True

    def owns(self, key, obj):
        return getattr(obj, "o", None) is self.g

    def assume(self, k):
        put(self.I, self.g, "next", self.bounds(k)[0] * US)
        self.count0 = self.g.count

    def check(self, k1):
        if isinstance(k1, int) and k1 == 0:
            return
        g, k = self.g, mkint(iterm(k1) - 1)
        s, e = [x * US for x in self.bounds(k)]
        cover("period")
        prove("a period is covered up to and including its end", or_(and_(
            g.next > e, or_(g.next - self.step <= e, val_eq(g.next, s))), val_eq(g.count, self.count0)))

    def finish(self, n):
        """after the set-up: the times of an arbitrary period have been added by exactly one of the loops over them"""
        j = fresh_int("period", 0)
        assume(j < n)
        s, e = self.bounds(j)
        assume(s <= e)
        hits = 0
        for c in list(eng().ghost.get("cuts", [])):
            if isinstance(c.tag, str) and c.tag.split(".")[0] == self.tag:
                before = self.calls
                c.exec_at(j)
                hits += self.calls > before
        prove("every period is covered, once", hits == 1)


US = 1000000


def hms_text(I, t):
    """the task time of the moment t microseconds into the day"""
    return I.call(I.getattr(mkdt(t + 20000 * D), "strftime"), ["%H:%M:%S"])


def hms(s):
    return SymTime(s * US, None) if not isinstance(s, int) else mktime(s // 3600, s // 60 % 60, s % 60)
