# -*- coding: utf-8 -*-
"""random work on the real loop in which some task fails, asks for a stop or is interrupted by a signal (simulated libuv, and
real processes with real signals); what is started afterwards and how the run ends"""
import random

from rt.loop import *

T0 = 1709601000000
PRE = "import sys; sys.path.insert(0, %r)\n"


ERRORS = ["ValueError", "KeyError", "Falsy", "OSError", "Custom", "StopIteration", "RuntimeError", "InterruptedError", "BlockingIOError",
          "TimeoutError", "BrokenPipeError", "AssertionError", "MemoryError", "RecursionError", "StopAsyncIteration"]


def generate(tier, rng):
    for k in range(300 if tier == "quick" else 20000):
        n = rng.randint(1, 8)
        yield "work", {"due": [rng.choice([0, 0, 5, rng.randint(-5, 100), 100000]) for _ in range(n)], "at": rng.randrange(n),
                       "how": rng.choice(["error", "error", "stop", "SIGTERM", "SIGINT", "stop twice", "stop and error", "push and error",
                                          "idle SIGTERM", "idle SIGINT", "before"]),
                       "error": rng.choice(ERRORS), "cause": k % 3 == 0,
                       "jitter": rng.choice(["none", "early", "both"]), "seed": rng.random()}
        if k % 3 == 0:
            n = rng.randint(1, 6)
            yield "event", {"subscribers": [[rng.choice([0, 0, 0, 1, 5, -1]), rng.randrange(3)] for _ in range(n)], "at": rng.randrange(n),
                            "error": rng.choice([e for e in ERRORS if e != "StopIteration"])}
        if k % 6 == 0:
            n = rng.randint(1, 5)
            yield "strategy", {"tasks": [rng.choice(["09:30:00", "open", "close", "open+1m", "close-1h", "every_minute"])
                                         for _ in range(n)],
                               "calls": rng.choice([1, 2, rng.randint(1, 12)]), "error": rng.choice([e for e in ERRORS if e != "StopIteration"])}
    for s in ("SIGTERM", "SIGINT", "error", "stop") if tier == "quick" else ("SIGTERM", "SIGINT", "error", "stop") * 5:
        yield "real", {"how": s}


class Falsy(Exception):
    def __len__(self):
        return 0


class Custom(Exception):
    def __init__(self, a, b):
        self.a, self.b = a, b


def make(n):
    return {"Falsy": Falsy("x"), "Custom": Custom(1, 2)}.get(n) or (Falsy("x") if n == "Falsy" else
                                                                    getattr(__import__("builtins"), n)("task failed"))


def work(inp):
    w = LoopWorld(T0, random.Random(inp["seed"]), inp["jitter"])
    err = make(inp["error"]) if inp["error"] != "Falsy" else Falsy("x")
    if inp.get("cause"):
        err.__cause__ = KeyError("cause")
        err.__context__ = IndexError("before")
    how = inp["how"]
    with w:
        started, finished = [], []
        over = [False]

        def task(i):
            def cb():
                require(not over[0], "work %d is started although %s", i, how)
                started.append(i)
                if len(started) == inp["at"] + 1 and not how.startswith("idle"):
                    over[0] = True
                    if how == "push and error":
                        w.push(T0, task(100))
                    if how in ("stop", "stop twice", "stop and error"):
                        w.loop.stop()
                    if how == "stop twice":
                        w.loop.stop()
                    if how in ("SIGTERM", "SIGINT"):
                        w.deliver(getattr(signal, how))
                    if how.endswith("error"):
                        raise err
                finished.append(i)
            return cb
        for i, t in enumerate(inp["due"]):
            w.push(T0 + t, task(i))
        if how.startswith("idle"):
            # a signal while the loop waits for work due much later
            w.push(T0 + 500000, task(99))
            w.signals.append((T0 + 400000, getattr(signal, how[5:])))
            over_at = T0 + 400000
        if how == "before":
            w.loop.stop()
            over[0] = True
        try:
            r = outcome(w.loop.run)
        except Stuck as e:
            r = ("raise", e)
        if isinstance(r[1], Stuck):
            require(False, "%s: %s", how, r[1])
        if how.endswith("error"):
            require(r[0] == "raise", "the run ends normally although a task failed with %r", err)
            require(r[1] is err, "the run ends with %r instead of %r", r[1], err)
        else:
            require(r[0] == "ok", "the run ends with %r", r[1])
            require(started == finished, "a task was not completed")
        if how.startswith("idle"):
            require(99 not in started, "work is started after the signal")
            require(sorted(finished) == list(range(len(inp["due"]))), "work due before the signal is lost")
            require(w.now < T0 + 500000, "the loop ended late")


def event(inp):
    """several tasks subscribe to one event, one of them fails"""
    fresh()
    E, bus = mod("scheduler.event"), mod("scheduler.bus").EventBus()
    A = E.create_event_class("A")
    B = type("B", (A,), {})
    err = make(inp["error"])
    started = []

    def task(i):
        def cb(e):
            started.append(i)
            if len(started) == inp["at"] + 1:
                raise err
        cb.__name__ = "task"
        return cb
    for i, (p, c) in enumerate(inp["subscribers"]):
        bus.register((A, B, E.Event)[c], task(i), priority=p)
    r = outcome(bus.emit, B())
    require(r[0] == "raise" and r[1] is err, "emitting an event one of whose tasks fails with %r: %r", err, r[1])
    require(len(started) == inp["at"] + 1, "%d tasks are started, although number %d fails", len(started), inp["at"] + 1)


def strategy(inp):
    """the tasks of a strategy on the real loop, one of which fails at some call"""
    import types
    w = LoopWorld(T0, random.Random(1), "none")
    err = make(inp["error"])
    started = []

    def task(i):
        def t(context):
            started.append(i)
            if len(started) == inp["calls"]:
                raise err
        t.__name__ = "t%d" % i
        return t
    with w, scratch() as d:
        m = types.ModuleType("user_strategy")

        def init(context):
            m.set_options(use_account=False, runtime_dir=d)
            for i, t in enumerate(inp["tasks"]):
                m.run_daily(task(i), t)
        m.process_initialize = init
        ctx = mod("scheduler.context").Context(
            task_name="t", event_bus=mod("scheduler.bus").EventBus(), loop=w.loop, debug=False, config=None, out=None,
            scheduler=mod("scheduler.event_source").EventSourceScheduler(), loader=types.SimpleNamespace(load=lambda: m))
        mod("scheduler.strategy").Strategy(ctx).setup()
        r = outcome(w.loop.run)
    require(r[0] == "raise" and r[1] is err, "the run ends with %r although a task failed with %r", r[1], err)
    require(len(started) == inp["calls"], "%d tasks are started, although number %d fails", len(started), inp["calls"])


REAL = """
import os, signal, time, threading
from jqtrade.scheduler.loop import EventLoop
from jqtrade.scheduler.message import Message
how = %r
loop = EventLoop()
def now():
    return int(time.time() * 1000)
def first():
    print("first started", flush=True)
    if how.startswith("SIG"):
        os.kill(os.getpid(), getattr(signal, how))
    elif how == "stop":
        loop.stop()
    else:
        raise ValueError("boom")
    time.sleep(.05)
    print("first done", flush=True)
def second():
    print("second started", flush=True)
if how.startswith("SIG"):
    # a signal is noticed between tasks, when the loop has to wait
    loop.push_message(Message(now() + 400, second))
else:
    loop.push_message(Message(now(), second))
loop.push_message(Message(now() - 1000, first))
try:
    loop.run()
    print("normal end", flush=True)
except ValueError as e:
    print("error", e, flush=True)
os._exit(0)
"""


def real(inp):
    import subprocess
    repo = os.path.dirname(os.path.dirname(os.path.abspath(mod("scheduler.loop").__file__)))
    repo = os.path.dirname(repo)
    with scratch() as d:
        p = subprocess.run([sys.executable, "-W", "ignore", "-c", PRE % repo + REAL % inp["how"]], cwd=d, stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL, timeout=20)
    out = p.stdout.decode().split("\n")[:-1]
    want = ["first started", "error boom"] if inp["how"] == "error" else ["first started", "first done", "normal end"]
    require([x for x in out if not x.startswith("20")] == want, "%s: %r (exit code %d)", inp["how"], out, p.returncode)


CASES = {"work": work, "event": event, "strategy": strategy, "real": real}
