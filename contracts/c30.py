# -*- coding: utf-8 -*-
"""C30: the account is synchronised at the configured interval in the configured periods."""
from pv.api import *
from contracts.sched import *

class World(object):
    def __init__(self, I, opts, step, first):
        self.I = I
        w = self
        self.calls = []
        self.step = step
        self.grid = Grid(I, step, first)
        self.g = self.grid.g
        self.classes = self.grid.classes

        class G(Gate):
            def setup(self, o):
                w.calls.append("setup")

            def sync_balance(self):
                w.calls.append("sync_balance")
                return PDict({"cash": PDict(), "positions": PList([])})

            def sync_orders(self):
                w.calls.append("sync_orders")
                return PList([])
        self.ctx, self.acc = account(I, G(), scheduler=Scheduler(), event_bus=Bus(), end=fresh_dt("end"))
        self.opts = PDict(opts)

    def setup(self):
        return catch(self.I, I_setup(self.I, self.acc), self.opts)


def I_setup(I, acc):
    return I.getattr(acc, "setup")


def interval():
    """any interval of a thousandth of a second or more"""
    i = fresh_real("interval")
    assume(i.t >= z3.RealVal("1/1000"))
    assume(i.t <= 1000000)
    return i, dt.td_us(dt.make_module().timedelta(seconds=i))


def check_sources(w, bal, orders):
    I = w.I
    E = I.import_module("jqtrade.scheduler.event")
    sc = w.ctx._scheduler.sources
    prove("one source is scheduled", len(sc) == 1)
    prove("for the time the task runs", and_(val_eq(sc[0].start, I.getattr(w.ctx, "start")), val_eq(sc[0].end, I.getattr(w.ctx, "end"))))
    regs = w.ctx._event_bus.registered
    prove("what is set off by it is what is enabled", len(regs) == bal + orders)
    del w.calls[:]
    for cls, cb, p in regs:
        prove("by the event of the source", all(c is cls for c in w.classes))
        prove("a sync has a higher priority than the other kinds of work", cls.priority > E.EventPriority.DAILY and
              cls.priority > E.EventPriority.EVERY_MINUTE and cls.priority > E.EventPriority.DEFAULT)
        I.call(cb, [I.call(cls, [])])
    prove("the enabled kinds are synchronised, once each", sorted(w.calls) == sorted(
        ["sync_balance"] * bal + ["sync_orders"] * orders))


def switches(I, opts):
    """the two switches, by option or configuration"""
    c = I.import_module("jqtrade.account.config").get_config()
    out = []
    for o, k in (("sync_balance", "SYNC_BALANCE"), ("sync_order", "SYNC_ORDER")):
        v = bool(choose(2))
        if choose(2):
            opts[o] = v
            I.setattr(c, k, not v)
        else:
            I.setattr(c, k, v)
        out.append(v)
    return out


@harness("whole day", covers=["whole day"])
def whole(I):
    i, step = interval()
    opts = {}
    c = I.import_module("jqtrade.account.config").get_config()
    if choose(2):
        opts["sync_internal"] = i
    else:
        I.setattr(c, "SYNC_INTERNAL", i)
    w = World(I, opts, step, 0)
    r, e = w.setup()
    prove("the set-up succeeds", e is None, repr(e))
    cover("whole day")
    prove("up to the last second of the day", and_(w.g.next > 86399 * US, w.g.next - step <= 86399 * US))
    prove("balance and orders are synchronised once during set-up", w.calls == ["setup", "sync_balance", "sync_orders"] or
          w.calls == ["setup", "sync_orders", "sync_balance"])
    check_sources(w, True, True)


@harness("which kinds are synchronised", covers=["both", "one", "none"])
def kinds(I):
    opts = {"sync_internal": 21600.0}
    bal, orders = switches(I, opts)
    cover(("none", "one", "both")[bal + orders])
    w = World(I, opts, 21600 * US, 0)
    r, e = w.setup()
    prove("the set-up succeeds", e is None, repr(e))
    prove("what is enabled is synchronised once during set-up, after the gate is set up", and_(
        w.calls[:1] == ["setup"], sorted(w.calls[1:]) == sorted(["sync_balance"] * bal + ["sync_orders"] * orders)))
    if bal or orders:
        prove("four syncs a day every six hours", val_eq(w.g.count, 4))
        check_sources(w, bal, orders)
    else:
        prove("nothing is scheduled", w.ctx._scheduler.sources == [] and w.ctx._event_bus.registered == [])


@harness("any number of periods", covers=["period", "periods"])
def periods(I):
    i, step = interval()
    n = fresh_int("n", 1)
    opts = {"sync_internal": i}
    c = I.import_module("jqtrade.account.config").get_config()
    w = World(I, opts, step, 0)
    ps = w.grid.periods(n)
    if choose(2):
        w.opts.setitem("sync_period", ps)
    else:
        I.setattr(c, "SYNC_PERIOD", ps)
    r, e = w.setup()
    prove("the set-up succeeds", e is None, repr(e))
    cover("periods")
    w.grid.finish(n)
    check_sources(w, True, True)
