# -*- coding: utf-8 -*-
"""C05: no task starts early, none that is due is lost or run twice."""
from pv.api import *
from contracts.loop import *


@harness("one pass of the loop over any queue", covers=["empty", "waiting", "exit condition", "stopped", "error", "stop", "more work",
                                                       "deferred"])
def one_pass(I):
    w = World(I)
    n = fresh_int("checkers", 0)
    w.asked = []

    def checker(i):
        b = z3.Function("leave", z3.IntSort(), z3.IntSort(), z3.BoolSort())
        return Opaque(z3.Function("checker", z3.IntSort(), OBJ)(iterm(i)), truth=True, call=lambda now, ts: (
            w.asked.append((now, ts)), mkbool(b(iterm(i), iterm(ts))))[1])
    w.leave = lambda i, ts: mkbool(z3.Function("leave", z3.IntSort(), z3.IntSort(), z3.BoolSort())(iterm(i), iterm(ts)))
    for v in [v for k, v in vars(w.L).items() if isinstance(v, PList)]:
        v._set([Seg("checkers", n, checker)])
    if choose(2):
        w.state(None, False)
    r, e = catch(I, w.attr("check_queue"))
    prove("a pass over the queue does not fail", e is None, repr(e))
    t = list(w.trace)
    kinds = [x[0] for x in t if x[0] not in ("notify",)]
    stop = w.attr("_stop_requested")
    if kinds[:2] == ["pop", "popped"] and "ran" not in kinds:
        m = w.of([x for x in t if x[0] == "popped"][0][1])
        now = [r // 1000 for r in dt.clock().seen]
        prove("work that is not run is not due", or_(*[m.t > r for r in now]))
        if stop:
            cover("exit condition")
            prove("work is given up only when an exit condition holds for its due time", len(w.asked) >= 1)
            for now, ts in w.asked:
                prove("which is asked about the due time", val_eq(ts, m.t))
                prove("at the current time", or_(*[val_eq(now, r // 1000) for r in dt.clock().seen]))
            prove("and the loop ends", kinds[-1] == "uv stop")
        else:
            cover("waiting")
            prove("work that is not due yet is put back as it was", kinds.count("push") == 1)
            p = [x for x in t if x[0] == "push"][0]
            prove("in its place", p[1] is m.msg and val_eq(p[2], I.getattr(m.msg, "sort_key")))
            ts = [x for x in t if x[0] == "timer"]
            prove("the loop is woken up once", len(ts) == 1 and kinds[-1] != "uv stop" and "uv stop" not in kinds)
            prove("to look at the queue again", ts[0][1] == w.attr("check_queue"))
            prove("when the work is due", or_(*[and_(m.t > r, val_eq(ts[0][2] * 1000, m.t - r)) for r in now]))
            # no exit condition held
            i = fresh_int("i", 0)
            assume(i < n)
            follow("checkers", i)
            prove("no exit condition holds for its due time", not_(w.leave(i, m.t)))
    elif kinds == ["pop", "uv stop"]:
        cover("empty")
        prove("the loop ends when no work is left", stop is True)
    else:
        cover("stopped")
        prove("otherwise the loop is left because a stop was requested", stop is True and kinds[-1] == "uv stop" and
              kinds[:-1] in ([], ["pop", "popped", "ran"]))
        for x in t:
            if x[0] == "ran":
                w.check_run(x, t[1][1])
    w.check_state(stop if kinds[:1] == ["pop"] and "ran" not in kinds else None)


@harness("work submitted from outside wakes the loop", covers=["submitted", "deferred"])
def submitted(I):
    w = World(I)
    w.state(None, False)
    cb = lambda: w.trace.append(("run",))      # noqa
    cb.__name__ = "cb"
    if choose(2):
        cover("submitted")
        msg = w.message()
        r, e = catch(I, w.attr("push_message"), msg)
        prove("it can be submitted", e is None, repr(e))
    else:
        cover("deferred")
        d = fresh_int("delay", 0)
        r, e = catch(I, w.attr("defer"), d, cb)
        prove("it can be submitted", e is None, repr(e))
        msg = w.trace[0][1]
        prove("due after the delay", val_eq(I.getattr(msg, "time"), dt.clock().last // 1000 + d))
    t = list(w.trace)
    prove("it is queued, in its place, before the loop is notified", [x[0] for x in t] == ["push", "notify"] and t[0][1] is msg and
          val_eq(t[0][2], I.getattr(msg, "sort_key")))
    del w.trace[:]

    w.next_message = lambda: None
    r, e = catch(I, t[1][1], None)
    prove("the notification makes the loop look at its queue", e is None and [x[0] for x in w.trace][:1] == ["pop"])
