# -*- coding: utf-8 -*-
"""contexts created one after the other with random parts, and the times seen through context and user context before, during
and after work on the real loop with a simulated clock"""
import random

from rt.loop import *

NAMES = ("task_name", "event_bus", "loop", "scheduler", "loader", "debug", "config", "out")


def generate(tier, rng):
    for k in range(150 if tier == "quick" else 5000):
        yield "parts", {"n": rng.randint(1, 4), "start": rng.choice([True, False]), "end": rng.choice([True, False]),
                        "falsy": rng.choice([True, False]), "now": 1709601000000 + rng.randint(0, 10 ** 9),
                        "shared": [n for n in NAMES if rng.random() < .3] if rng.random() < .7 else list(NAMES)}
        yield "times", {"now": 1709601000000 + rng.randint(0, 10 ** 9), "us": rng.choice([0, 1, 999, rng.randint(0, 999)]),
                        "work": [[rng.choice([-100000, -1, 0, 1, 250, 61001]), rng.choice([0, 1, 30])] for _ in range(
                            rng.randint(1, 5))], "two": rng.choice([True, False])}


def parts(inp):
    fresh()
    M = mod("scheduler.context")
    r, e = outcome(M.Context.get_instance)
    require(r == "raise" and isinstance(e, mod("common.exceptions").InternalError), "a context is in use before one was created: %r", e)
    names = NAMES
    made, one = [], {n: (n, "shared") for n in names}
    now = from_ms(inp["now"])
    with frozen_clock(lambda: now):
        for i in range(inp["n"]):
            a = {n: ("" if inp["falsy"] and n in ("task_name", "config", "out") else
                     one[n] if n in inp.get("shared", ()) else (n, i)) for n in names}
            a["start"] = parse("2024-01-01 10:00:0%d" % i) if inp["start"] else None
            a["end"] = parse("2025-01-01 10:00:0%d" % i) if inp["end"] else None
            c = M.Context(**a)
            require(M.Context.get_instance() is c, "the latest context is not the one in use")
            made.append((c, a))
            c.strategy = ("strategy", i)
            c.use_account = bool(i % 2)
    for i, (c, a) in enumerate(made):
        for n in names + ("start", "end"):
            v = getattr(c, n)
            w = now if n == "start" and a[n] is None else a[n]
            require(v == w, "%s is %r, given was %r", n, v, w)
        require(c.event_loop == a["loop"], "event_loop is %r", c.event_loop)
        require(c.strategy == ("strategy", i), "strategy is %r", c.strategy)
        require(c.use_account is bool(i % 2), "use_account is %r", c.use_account)
    require(M.Context.get_instance() is made[-1][0], "the latest context is not the one in use")


def times(inp):
    w = LoopWorld(inp["now"])
    base = w.clock
    w.clock = lambda: base().replace(microsecond=base().microsecond // 1000 * 1000 + inp["us"])
    with w:
        mk = lambda loop: mod("scheduler.context").Context("t", None, loop, None, None, False, None, None)    # noqa
        c = mk(w.loop)
        u = mod("scheduler.api").UserContext(c)
        if inp["two"]:
            other = mk(w.M.EventLoop())
            w.uv = w.loop._uvloop if hasattr(w.loop, "_uvloop") else w.uv

        def check(due):
            for o in (c, u):
                require(o.current_dt == from_ms(w.now), "the current time is %s, the clock shows %s", o.current_dt, from_ms(w.now))
                want = None if due is None else from_ms(due)
                require(o.strategy_dt == want, "the logical time is %s, expected %s", o.strategy_dt, want)
        check(None)
        last = []
        for d, takes in inp["work"]:
            t = inp["now"] + d

            def cb(t=t, takes=takes):
                check(t)
                w.now += takes
                check(t)
                last.append(t)
            w.push(t, cb)
        w.loop.run()
        require(len(last) == len(inp["work"]), "not all work was run")
        check(last[-1])
        if inp["two"]:
            require(other.strategy_dt is None, "another loop's work changes the logical time: %s", other.strategy_dt)


CASES = {"parts": parts, "times": times}
