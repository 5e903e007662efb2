# -*- coding: utf-8 -*-
"""C33: the context carries the parts and times it was given."""
from pv.api import *
from contracts.acc import context
from contracts.loop import World

PARTS = ("task_name", "event_bus", "loop", "scheduler", "loader", "debug", "config", "out", "start", "end")


def utc(v):
    return dt_us(v) - dt.utc_off() * 1000000


def user(I, ctx):
    return I.call(I.import_module("jqtrade.scheduler.api").UserContext, [ctx])


@harness("parts", covers=["start given", "no start"])
def parts(I):
    C = I.import_module("jqtrade.scheduler.context").Context
    r, e = catch(I, C.get_instance)
    prove("using the context before one was created is refused", e is not None and type(e).__name__ == "InternalError")
    a = {n: fresh_obj(n) for n in PARTS}
    a["start"] = fresh_dt("start") if choose(2) else None
    a["end"] = fresh_dt("end") if choose(2) else None
    before = dt.clock().read()
    first = I.call(C, [], a)
    after = dt.clock().last
    for n in PARTS:
        v = I.getattr(first, n)
        if n == "start" and a[n] is None:
            cover("no start")
            prove("a context without a start starts when it is created", and_(before <= utc(v), utc(v) <= after))
        else:
            prove("the context reports the %s it was given" % n, v is a[n] or (n in ("start", "end") and val_eq(v, a[n])))
    if a["start"] is not None:
        cover("start given")
    prove("the loop is also available as event loop", I.getattr(first, "event_loop") is a["loop"])
    prove("the context is in use", I.call(C.get_instance, []) is first)
    prove("no strategy before one is set", I.getattr(first, "strategy") is None)
    s, g = fresh_obj("strategy"), fresh_obj("gate")
    I.setattr(first, "strategy", s)
    prove("the strategy is the one set", I.getattr(first, "strategy") is s)
    u = fresh_bool("use")
    I.setattr(first, "use_account", u)
    prove("the switch is the one set", val_eq(I.getattr(first, "use_account"), u))
    b = dict(a, task_name=fresh_obj("other"))
    second = I.call(C, [], b)
    prove("the latest created context is the one in use", I.call(C.get_instance, []) is second)
    prove("contexts keep their own parts", I.getattr(first, "task_name") is a["task_name"] and
          I.getattr(second, "task_name") is b["task_name"] and I.getattr(first, "strategy") is s and
          I.getattr(second, "strategy") is None)


@harness("times", covers=["no work", "work run"])
def times(I):
    w = World(I)
    ctx = context(I, loop=w.L)
    u = user(I, ctx)
    for o in (ctx, u):
        before = dt.clock().read()
        v, e = catch(I, lambda: I.getattr(o, "current_dt"))
        after = dt.clock().last
        prove("the current time is that of the clock, to the millisecond", e is None and and_(
            before - before % 1000 <= utc(v), utc(v) <= after, val_eq(dt_us(v) % 1000, 0)))
        prove("no logical time before any work has run", I.getattr(o, "strategy_dt") is None)
    cover("no work")
    m = w.message()
    I.call(w.attr("handle_message"), [m])
    due = w.msgs[0].t
    if not (w.err is not None or w.stop_called):
        cover("work run")
    ms = I.call(I.import_module("jqtrade.common.utils").milliseconds_to_dt, [due])
    for o in (ctx, u, ):
        prove("the logical time is the due time of the work last run", val_eq(I.getattr(o, "strategy_dt"), ms) and
              val_eq(dt_us(I.getattr(o, "strategy_dt")), due * 1000 + dt.utc_off() * 1000000))
