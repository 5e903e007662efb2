# -*- coding: utf-8 -*-
"""random work (any due times, priorities, tasks that take time or submit more work, exit conditions) on the real loop with a
simulated clock and libuv, with exact, early and late wake-ups; starts, order, logical times and the end of the run"""
import random

from rt.loop import *

T0 = 1709601000000


def generate(tier, rng):
    for k in range(400 if tier == "quick" else 20000):
        work = []
        for i in range(rng.randint(1, 8)):
            work.append({"t": rng.choice([0, 0, 1, -5, 1000, 60000, rng.randint(-10, 100), rng.randint(0, 86400000 * 2)]),
                         "p": rng.choice([0, 0, 1, 2, -1]), "takes": rng.choice([0, 0, 0, 1, 30, 2000]),
                         "more": [[rng.choice(["push", "defer"]), rng.choice([0, -3, 5, 5000, 0.9]), rng.choice([0, 1])]
                                  for _ in range(rng.choice([0, 0, 0, 1, 2]))]})
        other = [[rng.choice([1, 40, 500, 30000]), rng.choice([0, 1, 20, 400, 59000])] for _ in range(rng.choice([0, 0, 1, 2]))]
        yield "work", {"work": work, "other": other, "jitter": rng.choice(["none", "none", "early", "late", "both"]), "seed": rng.random(),
                       "exit": rng.choice([None, None, 50, 30000]), "checkers": rng.choice([1, 2])}


def work(inp):
    w = LoopWorld(T0, random.Random(inp["seed"]), inp["jitter"])
    with w:
        pending, ran = {}, []
        count = [0]
        free = [T0]      # since when the loop has nothing else to do

        def submit(t, p, takes, more, how="push", delay=None):
            i = count[0]
            count[0] += 1
            if how == "defer":
                t = w.now + int(delay)

            def cb(x=None, **k):
                require(i in pending, "work %d is started a second time", i)
                require(w.now >= t, "work due at %d is started %d ms early", t, t - w.now)
                first = min(pending.values())
                require(pending[i] == first, "work due %d is started before that due %d", t, first[0])
                if how == "push":
                    require(x == ("data", i) and not k, "called with %r %r", x, k)
                else:
                    require(x == "arg" and k == {"kw": i}, "called with %r %r", x, k)
                sd = w.loop.strategy_dt
                require(sd == from_ms(t), "the logical time is %s instead of %s", sd, from_ms(t))
                if w.jitter == "none":
                    require(w.now == max(t, free[0], sub[i]), "work due at %d is started %d ms late", t,
                            w.now - max(t, free[0], sub[i]))
                if inp["exit"] is not None and w.jitter == "none":
                    require(t <= T0 + inp["exit"] or t <= max(free[0], sub[i]),
                            "the loop waits for work due at %d although an exit condition holds for it", t)
                del pending[i]
                ran.append(i)
                w.now += takes
                free[0] = w.now
                for h, d, pr in more:
                    submit(w.now + int(d), pr, 0, [], h, d)
            sub[i] = w.now
            pending[i] = (t, -p if how == "push" else 0, i)
            if how == "push":
                w.push(t, cb, p, {"x": ("data", i)})
            else:
                cb.__name__ = "cb"
                w.loop.defer(delay, cb, "arg", kw=i)
        sub = {}
        for x in inp["work"]:
            submit(T0 + x["t"], x["p"], x["takes"], x["more"])
        for at, d in inp.get("other", []):       # submitted by another thread while the loop is waiting
            w.signals.append((T0 + at, lambda d=d: submit(w.now + d, 0, 0, [])))
        def asked(now):
            require(now == w.now, "an exit condition is asked at %d as if it were %d", w.now, now)
            return True
        if inp["exit"] is not None:
            for j in range(inp["checkers"]):
                w.loop.register_exit_checker(lambda now, ts, j=j: asked(now) and j == inp["checkers"] - 1 and ts > T0 + inp["exit"])
        try:
            w.loop.run()
        except Stuck as e:
            require(False, "%s with %d pieces of work left", e, len(pending))
        left = sorted(pending.values())
        if inp["exit"] is None:
            require(not left, "the loop ends although work due %s is left", [x[0] - T0 for x in left])
        else:
            require(all(x[0] > T0 + inp["exit"] for x in left), "the loop ends although work due %s is left", [x[0] - T0 for x in left])
            # what is left was not due when the loop ended
            require(all(x[0] > w.now for x in left), "work that was due is left: %s at %s", [x[0] for x in left], w.now)


CASES = {"work": work}
