# -*- coding: utf-8 -*-
"""the real event loop on a simulated clock and a simulated libuv (which may wake up early or late)"""
import signal
import types

from rt.sched import *


class Stuck(Exception):
    pass


class FakeUV(object):
    """the part of pyuv the loop uses, on a simulated clock in milliseconds"""

    def __init__(self, world):
        w = world
        self.module = m = types.ModuleType("pyuv")

        class Loop(object):
            def __init__(self):
                self.stopped = False
                self.asyncs, self.timers, self.signals = [], [], {}
                w.uv = self

            def run(self, *a):
                self.stopped = False
                while not self.stopped:
                    w.steps += 1
                    if w.steps > 20000:
                        raise Stuck("the loop goes on without end")
                    for at, sig in list(w.signals):
                        if w.now >= at:
                            w.signals.remove((at, sig))
                            w.deliver(sig)
                    ready = [a for a in self.asyncs if a.pending]
                    if ready:
                        ready[0].pending = False
                        ready[0].cb(ready[0])
                        continue
                    ts = [t for t in self.timers if t.due is not None]
                    nxt = min([t.due for t in ts] + [at for at, _ in w.signals]) if ts or w.signals else None
                    if nxt is None:
                        raise Stuck("the loop waits for ever")
                    if w.now < nxt:
                        w.now = nxt
                        continue
                    t = min(ts, key=lambda t: t.due)
                    t.due = None
                    w.now += w.late()
                    t.cb(t)
                return False

            def stop(self):
                self.stopped = True

            def update_time(self):
                pass

            def now(self):
                return w.now

        class Handle(object):
            active = closed = False
            ref = True

            def close(self, *a):
                pass

        class Async(Handle):
            def __init__(self, loop, cb):
                self.cb, self.pending = cb, False
                loop.asyncs.append(self)

            def send(self):
                self.pending = True

        class Timer(Handle):
            def __init__(self, loop):
                self.due, self.cb = None, None
                loop.timers.append(self)

            active = property(lambda self: self.due is not None)

            def start(self, callback, timeout, repeat):
                if timeout < 0:
                    raise ValueError("a positive value or zero is required")
                self.cb, self.due = callback, w.now + max(0, int(timeout * 1000 + .5) - w.early())
                w.timeouts.append((w.now, timeout, repeat))

            def stop(self):
                self.due = None

        class Signal(Handle):
            def __init__(self, loop):
                self.loop, self.sig = loop, None

            def start(self, callback, signum):
                self.sig = int(signum)
                self.loop.signals[self.sig] = (self, callback)

            def stop(self):
                self.loop.signals.pop(self.sig, None)
        m.Loop, m.Async, m.Timer, m.Signal = Loop, Async, Timer, Signal


class LoopWorld(object):
    def __init__(self, now, rng=None, jitter="none"):
        self.now, self.steps, self.timeouts, self.signals = now, 0, [], []
        self.jitter, self.rng = jitter, rng
        fresh()
        self.saved = sys.modules.get("pyuv")
        sys.modules["pyuv"] = uv = FakeUV(self).module
        try:
            self.M = mod("scheduler.loop")
            for k, v in list(vars(self.M).items()):     # loaded before
                if getattr(v, "__name__", None) == "pyuv":
                    setattr(self.M, k, uv)
        finally:
            if self.saved is not None:
                sys.modules["pyuv"] = self.saved
            else:
                del sys.modules["pyuv"]
        self.Message = mod("scheduler.message").Message
        self.killed = []

    def early(self):
        return self.rng.choice([0, 0, 1, 2]) if self.jitter in ("early", "both") else 0

    def late(self):
        return self.rng.choice([0, 1, 3, 700]) if self.jitter in ("late", "both") else 0

    def deliver(self, sig):
        if callable(sig):       # something another thread does at that time
            return sig()
        h = self.uv.signals.get(int(sig))
        if h is None:
            raise Stuck("signal %s is not handled" % sig)
        h[1](h[0], int(sig))

    def clock(self):
        return from_ms(self.now)

    def __enter__(self):
        self.cm = frozen_clock(self.clock)
        self.cm.__enter__()
        self.loop = self.M.EventLoop()
        return self

    def __exit__(self, *a):
        self.cm.__exit__(*a)

    def push(self, t, cb, priority=0, data=None):
        cb.__name__ = "task"
        m = self.Message(time=t, callback=cb, callback_data=data, priority=priority)
        self.loop.push_message(m)
        return m
