# -*- coding: utf-8 -*-
"""C03: every_minute runs at each minute of each trading period and no other time."""
from pv.api import *
from contracts.sched import *

MIN = 60 * US


class World(object):
    def __init__(self, I, period, by_option, extra=None):
        self.I = I
        self.grid = Grid(I, MIN)
        self.cfg = I.import_module("jqtrade.scheduler.config").get_config()
        ps = period(self)

        def init(m):
            if by_option:
                I.call(m.set_options, [], {"market_period": ps, "use_account": False})
            elif choose(2):
                I.call(m.set_options, [], {"use_account": False})
            I.call(m.run_daily, [self.task, "every_minute"])
        if not by_option:
            I.setattr(self.cfg, "MARKET_PERIOD", ps)
        self.ran = []
        self.task = lambda c: self.ran.append(c)
        self.task.__name__ = "task"
        self.ctx, self.s, self.m = strategy(I, init, end=fresh_dt("end"))
        self.r, self.e = catch(I, I.getattr(self.s, "setup"))


@harness("any number of trading periods", covers=["period", "option", "configuration"])
def periods(I):
    by_option = choose(2)
    cover("option" if by_option else "configuration")
    n = fresh_int("n", 1)
    text = by_option and choose(2)
    w = World(I, lambda w: w.grid.periods(n, (lambda a, b: (txt(I, a), txt(I, b))) if text else None), by_option)
    prove("the set-up succeeds", w.e is None, repr(w.e))
    src = w.ctx._scheduler.sources
    prove("one source is scheduled, for the time the task runs", and_(len(src) == 1, val_eq(src[0].end, I.getattr(w.ctx, "end"))))
    regs = w.ctx._event_bus.registered
    prove("its events run the task", and_(len(regs) == 1, all(c is regs[0][0] for c in w.grid.classes)))
    w.grid.finish(n)
    I.call(regs[0][1], [I.call(regs[0][0], [])])
    prove("with the user's context", w.ran == [I.getattr(w.s, "_user_ctx")] or len(w.ran) == 1 and w.ran[0] is w.m.context)


def txt(I, t):
    return I.call(I.getattr(t, "strftime"), ["%H:%M:%S"])


@harness("one period of whole minutes: the number of times", covers=["count"])
def count(I):
    h1, m1, h2, m2 = fresh_int("h1", 0, 23), fresh_int("m1", 0, 59), fresh_int("h2", 0, 23), fresh_int("m2", 0, 59)
    a, b = h1 * 60 + m1, h2 * 60 + m2
    assume(a <= b)

    def one(w):
        put(I, w.grid.g, "next", a * MIN)
        return PList([(mktime(h1, m1), mktime(h2, m2))])
    w = World(I, one, choose(2))
    prove("the set-up succeeds", w.e is None, repr(w.e))
    cover("count")
    prove("one time for every minute from the start to the end", val_eq(w.grid.g.count, b - a + 1))


@harness("a malformed period is refused", covers=["short", "long", "not a time", "empty"])
def malformed(I):
    k = choose(5)
    t1, t2 = mktime(9, 30), mktime(11, 30)
    p = [(t1,), (t1, t2, t1), (t1, 5), (None, t2), ()][k]
    cover(["short", "long", "not a time", "not a time", "empty"][k])
    by_option = choose(2)
    good = choose(2)
    w = World(I, lambda w: PList([(t1, t1)] * good + [p]), by_option) if not good else None
    if w is None:
        def one(w):
            put(I, w.grid.g, "next", (9 * 60 + 30) * MIN)
            return PList([(t1, t1), p])
        w = World(I, one, by_option)
    prove("refused with an error", w.e is not None)
    prove("nothing is scheduled", w.ctx._scheduler.sources == [])
