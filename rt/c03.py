# -*- coding: utf-8 -*-
"""every_minute tasks with any trading periods (option as text or times, or configuration; with seconds, touching, single
instants, overlapping), run for up to two simulated days; and malformed periods"""
from rt.sched import *

BAD = [[["09:30:00"]], [["09:30:00", "10:00:00", "11:00:00"]], [["09:30:00", "10:00:00"], []], [[5, "10:00:00"]],
       [["09:30:00", None]], [["x", "10:00:00"]], [["09:30:00", "25:00:00"]]]


def t2s(x):
    return "%02d:%02d:%02d" % (x // 3600, x // 60 % 60, x % 60)


def generate(tier, rng):
    yield "run", {"now": "2024-03-05 09:29:59", "periods": None, "how": "default", "hours": 26}
    for k in range(70 if tier == "quick" else 1500):
        ps, a = [], 0
        for _ in range(rng.randint(1, 3)):
            a = rng.randint(a, min(a + 40000, 86399))
            if rng.random() < .5:
                a -= a % 60
            b = rng.choice([a, a + 59, a + 60, a + 61, a + 3600, a + 7200 + rng.randint(0, 59), rng.randint(a, a + 9000)])
            b = min(b, 86399)
            ps.append([t2s(a), t2s(b)])
            a = b + rng.choice([0, 1, 60])
            if a > 86000:
                break
        yield "run", {"now": "2024-03-%02d %s" % (rng.randint(1, 28), t2s(rng.randint(0, 86399))), "periods": ps,
                      "how": rng.choice(["text", "time", "config"]), "hours": rng.choice([5, 24, 50])}
    for b in BAD:
        for how in ("text", "config"):
            yield "bad", {"periods": b, "how": how}


def conv(v):
    return tod(v) if isinstance(v, str) and v.count(":") == 2 and v < "24" else v


def build(inp, seen, d):
    ps = inp["periods"]

    def init(ctx):
        kw = {}
        if inp["how"] == "text":
            kw["market_period"] = [tuple(p) for p in ps]
        elif inp["how"] == "time":
            kw["market_period"] = [tuple(map(conv, p)) for p in ps]
        elif inp["how"] == "config":
            s.cfg.MARKET_PERIOD = [tuple(map(conv, p)) for p in ps]
        s.module.set_options(use_account=False, runtime_dir=d, **kw)

        def task(c):
            seen.append(s.loop.strategy_dt)
        s.module.run_daily(task, "every_minute")
    s = Sim(inp.get("now", "2024-03-05 08:00:00"), init)
    return s


def run(inp):
    seen = []
    with scratch() as d:
        s = build(inp, seen, d)
        with s:
            s.start()
            until = parse(inp["now"]) + datetime.timedelta(hours=inp["hours"])
            s.loop.run(until)
    ps = inp["periods"] or [["09:30:00", "11:30:00"], ["13:00:00", "15:00:00"]]
    exp, now = [], parse(inp["now"])
    day = now.date()
    while day <= until.date():
        x = []
        for a, b in ps:
            t, e = datetime.datetime.combine(day, tod(a)), datetime.datetime.combine(day, tod(b))
            while t <= e:
                if now <= t <= until:
                    x.append(t)
                t += datetime.timedelta(minutes=1)
        exp += sorted(x)
        day += datetime.timedelta(days=1)
    require(seen == exp, "ran %d times, expected %d; extra %s; missing %s", len(seen), len(exp),
            [str(t) for t in seen if t not in exp][:3], [str(t) for t in exp if t not in seen][:3])


def bad(inp):
    seen = []
    with scratch() as d:
        s = build(inp, seen, d)
        with s:
            r, e = outcome(s.start)
            require(r == "raise", "the malformed periods %r were accepted", inp["periods"])


CASES = {"run": run, "bad": bad}
