# -*- coding: utf-8 -*-
"""event loops over any queue content, for the contracts of the loop"""
from pv.api import *
from contracts.acc import context


class UvLoop(object):
    def __init__(self, w):
        self.w = w

    def run(self, *a):
        self.w.trace.append(("run",))
        if self.w.on_run:
            self.w.on_run()

    def stop(self):
        self.w.trace.append(("uv stop",))

    def update_time(self):
        self.w.trace.append(("update",))


class Async(object):
    def __init__(self, w, cb):
        self.w, self.cb = w, cb

    def send(self):
        self.w.trace.append(("notify", self.cb))


class Timer(object):
    closed = False

    def __init__(self, w):
        self.w = w
        self.on = None

    @property
    def active(self):
        if self.on is None:     # an earlier pass may have started it
            self.on = bool(choose(2))
        return self.on

    def start(self, callback, timeout, repeat):
        self.on = True
        self.w.trace.append(("timer", callback, timeout, repeat))

    def stop(self):
        self.on = False
        self.w.trace.append(("timer stop",))


class Signal(object):
    def __init__(self, w):
        self.w = w
        self.started = None

    def start(self, callback, signum):
        self.started = signum
        self.w.handlers[signum] = (self, callback)

    def stop(self):
        if self.started is not None and self.w.handlers.get(self.started, (None,))[0] is self:
            del self.w.handlers[self.started]
        self.started = None


class Queue(object):
    """the queue as C04 gives it: pop yields the first of whatever is waiting, if anything is"""

    def __init__(self, w):
        self.w = w

    def push(self, item, sort_key):
        self.w.trace.append(("push", item, sort_key))

    def pop(self):
        w = self.w
        w.trace.append(("pop",))
        m = w.next_message()
        if m is None:
            raise w.M.QueueEmptyError()
        w.trace.append(("popped", m))
        return m

    top = empty = None


class Readings(dt.Clock):
    """the wall clock, noting what it showed during a pass"""

    def __init__(self):
        dt.Clock.__init__(self)
        self.seen = []

    def read(self):
        v = dt.Clock.read(self)
        self.seen.append(v)
        return v


class Asked(object):
    """any number of exit checkers: only the clock goes on while they are asked"""

    def owns(self, key, obj):
        return isinstance(obj, dt.Clock)

    def assume(self, k):
        dt.clock().read()

    def check(self, k1):
        pass


class World(object):
    def __init__(self, I):
        self.I = I
        c = eng().ghost["clock"] = Readings()
        eng().keep.append(c)
        I.invariants["checkers"] = Asked()
        self.trace, self.handlers, self.on_run = [], {}, None
        self.err, self.ran = None, []
        self.stop_called = False
        on = eng().ghost
        on["uv_loop"] = lambda: UvLoop(self)
        on["uv_async"] = lambda loop, cb: Async(self, cb)
        on["uv_timer"] = lambda loop: Timer(self)
        on["uv_signal"] = lambda loop: Signal(self)
        self.M = M = I.import_module("jqtrade.scheduler.loop")
        M.ThreadSafeQueue = lambda: Queue(self)
        self.L = I.call(M.EventLoop, [])
        self.msgs = []
        self.behaviour = None
        I.while_invariants.append(Inv(self))

    def next_message(self):
        """any message, or none"""
        if choose(2):
            return None
        return self.message()

    def message(self):
        I = self.I
        m = Task(self)
        m.t = fresh_int("due", 1, 4102444800000)
        m.prio = fresh_int("priority")
        m.data = PDict([("x", fresh_obj("data"))]) if choose(2) else None
        m.msg = I.call(I.import_module("jqtrade.scheduler.message").Message, [m.t, m.callback], {
            "callback_data": m.data, "priority": m.prio})
        self.msgs.append(m)
        return m.msg

    def attr(self, n):
        return self.I.getattr(self.L, n)

    def of(self, msg):
        return [m for m in self.msgs if m.msg is msg][0]

    # what happens in one pass / one iteration
    def runs(self):
        return [x for x in self.trace if x[0] == "ran"]


class Task(object):
    __name__ = "task"

    def __init__(self, w):
        self.w = w
        self.callback = lambda **k: self.run(k)
        self.callback.__name__ = "task"

    def run(self, k):
        w, I = self.w, self.w.I
        sd, e = catch(I, lambda: w.attr("strategy_dt"))
        w.trace.append(("ran", self, dict(k), sd, dt.clock().last, w.stop_called or w.err is not None))
        b = choose(5)
        if b == 1:
            cover("error")
            w.err = AnyError("task failed")
            raise w.err
        if b == 2:
            cover("stop")
            w.stop_called = True
            I.call(w.attr("stop"), [])
        if b == 3:
            cover("more work")
            n = len(w.trace)
            I.call(w.attr("push_message"), [w.message()])
            new = w.trace[n:]
            prove("work submitted meanwhile is queued and the loop notified", [x[0] for x in new] == ["push", "notify"] and
                  new[0][1] is w.msgs[-1].msg and val_eq(new[0][2], I.getattr(new[0][1], "sort_key")))
            del w.trace[n:]
        if b == 4:
            cover("deferred")
            n = len(w.trace)
            d = fresh_int("delay", 0)
            a, kw, got = fresh_obj("a"), fresh_obj("kw"), []
            f = lambda *x, **y: got.append((x, y))      # noqa
            f.__name__ = "f"
            before = dt.clock().last
            I.call(w.attr("defer"), [d, f, a], {"k": kw})
            new = w.trace[n:]
            prove("deferred work is queued and the loop notified", [x[0] for x in new] == ["push", "notify"])
            m = new[0][1]
            prove("to be run after the delay", val_eq(I.getattr(m, "time"), dt.clock().last // 1000 + d))
            I.call(I.getattr(m, "callback"), [], dict(I.getattr(m, "callback_data").entries))
            prove("with its arguments", len(got) == 1 and got[0][0] == (a,) and got[0][1] == {"k": kw})
            del w.trace[n:]


class Inv(object):
    """at the head of the loop: it is to be left exactly if a stop was requested or a task failed; nothing of the iterations
    before is left to do"""

    def __init__(self, w):
        self.w = w

    def applies(self, fr):
        return fr.locals.get("self") is self.w.L

    def owns(self, key, obj):
        if type(obj).__name__ == "Readings":
            return True
        return getattr(obj, "o", None) is self.w.L and obj.name in ("_strategy_time", "_stop_requested", "_exception")

    def assume(self, k):
        w, I = self.w, self.w.I
        del w.trace[:]
        if isinstance(k, int) and k == 0:
            return
        s = choose(3)
        w.err = None if s < 2 else AnyError("an earlier task failed")
        w.stop_called = s == 1
        self.w.state(w.err, s > 0)

    def check(self, k1):
        w = self.w
        if isinstance(k1, int) and k1 == 0:
            return
        w.iteration()


def _state(self, err, stop):
    I, L = self.I, self.L
    I.setattr(L, "_stop_requested", stop)
    I.setattr(L, "_exception", err)
    I.setattr(L, "_strategy_time", None if choose(2) else fresh_int("earlier", 1, 4102444800000))


def _iteration(self):
    """what an iteration did that goes on: it ran the first message, which was due"""
    w, I = self, self.I
    kinds = [x[0] for x in w.trace if x[0] != "notify"]
    prove("a piece of work is taken and run, nothing else happens", kinds == ["pop", "popped", "ran"])
    if kinds != ["pop", "popped", "ran"]:
        return
    w.check_run(w.trace[2] if w.trace[2][0] == "ran" else [x for x in w.trace if x[0] == "ran"][0],
                [x for x in w.trace if x[0] == "popped"][0][1])
    w.check_state()


def _check_state(self, stop=None):
    w = self
    prove("the error kept is the task's", w.attr("_exception") is w.err, repr(([x[0] for x in w.trace], w.err, w.attr("_exception"))))
    prove("the loop is to be left exactly if a task failed or asked for it",
          w.attr("_stop_requested") is (w.stop_called or w.err is not None if stop is None else stop))


def _check_run(self, x, msg):
    _, m, k, sd, clock, stopping = x
    w = self
    prove("the work run is the one taken from the queue", m.msg is msg)
    prove("it is not started before its due time", m.t * 1000 <= clock)
    prove("nothing is started once a stop was requested or a task failed", not stopping)
    prove("its callback gets its data", k == ({} if m.data is None else dict(m.data.entries)))
    ms = w.I.call(w.I.import_module("jqtrade.common.utils").milliseconds_to_dt, [m.t])
    prove("while it runs the logical time is its due time", sd is not None and val_eq(sd, ms))


World.state, World.iteration, World.check_run, World.check_state = _state, _iteration, _check_run, _check_state
