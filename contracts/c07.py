# -*- coding: utf-8 -*-
"""C07: a failing task or a stop request ends the loop without starting other tasks."""
from pv.api import *
from contracts.loop import *


@harness("one pass of the loop", covers=["error", "stop", "ended"])
def one_pass(I):
    w = World(I)
    if choose(2):
        w.state(None, False)
    r, e = catch(I, w.attr("check_queue"), fresh_obj("handle"))
    prove("a pass over the queue does not fail", e is None, repr(e))
    t = [x for x in w.trace if x[0] != "notify"]
    kinds = [x[0] for x in t]
    for x in t:
        if x[0] == "ran":
            prove("nothing is started once a stop was requested or a task failed", not x[5])
    if w.err is not None or w.stop_called:
        cover("ended")
        i = kinds.index("ran") if "ran" in kinds else -1
        prove("after the task that failed or asked for it nothing but the end of the loop happens", kinds[i + 1:] == ["uv stop"])
        prove("the loop stays ended", w.attr("_stop_requested") is True)
    prove("the error kept is the task's", w.attr("_exception") is w.err)


@harness("a pass after a stop was requested", covers=["error", "stop", "again"])
def stopped(I):
    w = World(I)
    err = None
    if choose(2):
        err = w.err = AnyError("x")
        w.state(err, True)
    else:
        w.state(None, False)
        r, e = catch(I, w.attr("stop"))
        prove("a stop can be requested", e is None, repr(e))
        prove("and wakes the loop", [x[0] for x in w.trace] == ["notify"] and w.trace[0][1] == w.attr("check_queue"))
        w.stop_called = True
    if choose(2):
        cover("again")
        catch(I, w.attr("stop"))
    cover("error" if err is not None else "stop")
    if choose(2):
        catch(I, w.attr("push_message"), w.message())
    del w.trace[:]
    r, e = catch(I, w.attr("check_queue"), fresh_obj("handle"))
    prove("a pass does nothing but end the loop", e is None and [x[0] for x in w.trace] == ["uv stop"], repr(e))
    prove("the error is kept", w.attr("_exception") is err)


@harness("signals", covers=["SIGTERM", "SIGINT"])
def signals(I):
    import signal
    w = World(I)
    w.state(None, False)
    r, e = catch(I, w.attr("setup"))
    prove("the loop can be set up", e is None, repr(e))
    k = choose(2)
    cover(("SIGTERM", "SIGINT")[k])
    sig = int((signal.SIGTERM, signal.SIGINT)[k])
    got = [v for s, v in w.handlers.items() if int(s) == sig]
    prove("the signal is handled", len(got) == 1)
    del w.trace[:]
    if choose(2):
        # while the queue is not being looked at
        r, e = catch(I, got[0][1], got[0][0], sig)
    else:
        r, e = catch(I, got[0][1], got[0][0], sig)
        catch(I, got[0][1], got[0][0], sig)
    prove("it requests a stop and wakes the loop", e is None and w.attr("_stop_requested") is True and
          [x[0] for x in w.trace] == ["notify"], repr(e))


@harness("the run of the loop", covers=["error", "normal"])
def run(I):
    w = World(I)
    w.state(None, False)
    err = (AnyError("x"), None)[choose(2)]

    def running():
        prove("signals are handled while it runs", len(w.handlers) == 2)
        I.while_invariants[:] = []
        sent = [0]

        def task():
            if err is not None:
                raise err
            I.call(w.attr("stop"), [])
        task.__name__ = "task"
        m = I.call(I.import_module("jqtrade.scheduler.message").Message, [1, task], {})
        w.next_message = lambda: (sent.__setitem__(0, sent[0] + 1), m)[1]
        I.call(w.attr("check_queue"), [None])
        prove("one task is started", sent[0] == 1)
        if choose(2):
            I.call(w.attr("check_queue"), [None])
            prove("and no other", sent[0] == 1)
    w.on_run = running
    r, e = catch(I, w.attr("run"))
    prove("the loop is run once", [x[0] for x in w.trace].count("run") == 1)
    cover("normal" if err is None else "error")
    prove("the run ends by raising the task's error, and normally without one", e is err, repr(e))


@harness("a task among those of one event fails", covers=["failed", "first", "other group before", "other group after"])
def subscribers(I):
    from contracts import c08
    A, B, C = c08.classes(I)
    bus = I.call(I.import_module("jqtrade.scheduler.bus").EventBus, [])
    p, q = fresh_int("p"), fresh_int("q")
    assume(not_(val_eq(p, q)))
    g = cell(I, "g", next=0, other=0)
    n = fresh_int("n", 1)
    bad = fresh_int("failing", 0)
    assume(bad < n)
    err = AnyError("x")
    ev = I.call(B, [])

    def started(i):
        put(I, g, "next", i + 1)
        if truth(val_eq(i, bad)):
            raise err

    def first(event):
        started(0)

    def other(event):
        over()
        prove("no task of lower priority is started after the one that failed", q > p)
        put(I, g, "other", 1)

    def over():
        # if the loop over the callbacks has ended normally, so has every iteration of it
        if truth(bad > 0):
            follow("callbacks", bad - 1)
    order = choose(2)
    if order:
        I.call(I.getattr(bus, "register"), [A, other], {"priority": q})
    I.call(I.getattr(bus, "register"), [A, first], {"priority": p})
    if not order:
        I.call(I.getattr(bus, "register"), [A, other], {"priority": q})
    o = z3.Function("cbo", z3.IntSort(), OBJ)

    def item(i):
        return Opaque(o(iterm(i)), truth=True, call=lambda event: started(i + 1), attrs={"__name__": "cb"})
    groups = [l for l in c08.lists(bus) if first in l.parts]
    if len(groups) != 1:
        raise Unsupported("the callbacks of one class and priority are not kept in one list")
    groups[0]._set([first, Seg("callbacks", mkint(n.t - 1), item)])
    r, e = catch(I, I.getattr(bus, "emit"), ev)
    if e is None:
        over()
    cover("failed")
    cover("first" if truth(val_eq(bad, 0)) else "failed")
    cover("other group before" if truth(q > p) else "other group after")
    prove("the error reaches the loop as it was raised", e is err, repr(e))
    prove("and no task is started after the one that failed", val_eq(g.next, bad + 1))


@harness("a task of a strategy fails", covers=["failed", "fine"])
def of_strategy(I):
    from contracts import sched, c10
    c10.sources(I)
    err = (AnyError("x"), None)[choose(2)]
    got = []

    def task(c):
        got.append(c)
        if err is not None:
            raise err

    def init(m):
        I.call(m.set_options, [], {"use_account": False})
        I.call(m.run_daily, [c10.named("task", task), ("open", "every_minute")[choose(2)]])
    c, s, m = sched.strategy(I, init)
    r, e = catch(I, I.getattr(s, "setup"))
    prove("the strategy can be set up", e is None, repr(e))
    prove("its task subscribes to its event", len(c.event_bus.registered) == 1)
    cls, cb, _ = c.event_bus.registered[0]
    r, e = catch(I, cb, I.call(cls, []))
    prove("the task is called", len(got) == 1)
    cover("failed" if err is not None else "fine")
    prove("its error reaches the loop as it was raised", e is err, repr(e))


@harness("the wake-up of a source whose task fails", covers=["failed"])
def of_source(I):
    from contracts import c09
    w = c09.World(I)
    s = c09.Source("s", fresh_int("n", 1))
    w.schedule(s)
    m = w.last(s, 0, "for the first event")
    err = AnyError("x")

    def failing():
        raise err
    w.bus.during = failing
    s.i = fresh_int("i", 0)
    assume(s.i < s.n)
    r, e = w.run(m)
    cover("failed")
    prove("the event is dispatched once", len(w.bus.emitted) == 1)
    prove("the error reaches the loop as it was raised", e is err, repr(e))
