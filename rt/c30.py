# -*- coding: utf-8 -*-
"""accounts with any interval, periods, switches and start moment, run for up to two simulated days with user tasks at
sync times; the gate's sync calls (with their times) against the grid"""
from rt.sched import *


def generate(tier, rng):
    yield "run", {"now": "2024-03-05 14:58:59.5", "options": {"sync_internal": 3600}, "hours": 30, "tasks": []}
    yield "run", {"now": "2024-03-05 00:00:00", "options": {"sync_internal": 5}, "hours": 1, "tasks": []}
    yield "run", {"now": "2024-03-05 22:59:59.5", "options": {"sync_internal": 3599.95}, "hours": 26, "tasks": ["23:59:59"]}
    for k in range(60 if tier == "quick" else 1500):
        o = {"sync_internal": rng.choice([300, 600, 1800, 1800.5, 7000, 25200, 86400, 100000, 86399, 43199.5, 28799])}
        if rng.random() < .5:
            ps, t = [], 0
            for _ in range(rng.randint(1, 3)):
                a = rng.randint(t, min(t + 30000, 86398))
                b = rng.choice([a, min(a + 3600, 86399), rng.randint(a, 86399)])
                t = b + 1
                ps.append([a, b])
                if t > 86000:
                    break
            o["sync_period"] = [["%02d:%02d:%02d" % (x // 3600, x // 60 % 60, x % 60) for x in p] for p in ps]
        for s in ("sync_balance", "sync_order"):
            if rng.random() < .6:
                o[s] = rng.random() < .7
        yield "run", {"now": "2024-03-%02d %02d:%02d:%02d%s" % (rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59),
                                                              rng.randint(0, 59), rng.choice(["", ".25"])),
                      "options": o, "hours": rng.choice([3, 20, 40]), "tasks": ["10:00:00", "00:00:00", "13:30:00"],
                      "config": rng.random() < .3}


def grid(o):
    step = datetime.timedelta(seconds=float(o["sync_internal"]))
    out = []
    day = datetime.datetime(2024, 1, 1)
    for a, b in o.get("sync_period") or [["00:00:00", "23:59:59"]]:
        t, e = datetime.datetime.combine(day, tod(a)), datetime.datetime.combine(day, tod(b))
        while t <= e:
            out.append(t.replace(microsecond=0).time())
            t += step
    return sorted(out)


def run(inp):
    o = dict(inp["options"])
    with scratch() as d:
        seen = []

        def init(ctx):
            for t in inp["tasks"]:
                def task(c, t=t):
                    seen.append((s.loop.strategy_dt, "task"))
                s.module.run_daily(task, t)
            kw = dict(o)
            if inp.get("config"):
                for k, v in (("sync_balance", "SYNC_BALANCE"), ("sync_order", "SYNC_ORDER"), ("sync_internal", "SYNC_INTERNAL")):
                    if k in kw:
                        setattr(s.acfg, v, kw.pop(k))
                if "sync_period" in kw:
                    s.acfg.SYNC_PERIOD = [tuple(map(tod, p)) for p in kw.pop("sync_period")]
            s.module.set_options(account_no="1", runtime_dir=d, **kw)
        s = Sim(inp["now"], init)
        s.gate.orders_reply = []
        for n in ("sync_balance", "sync_orders"):
            def f(n=n, g=getattr(s.gate, n)):
                seen.append((s.loop.strategy_dt, n))
                return g()
            setattr(s.gate, n, f)
        with s:
            s.start()
            on = [n for n, k in (("sync_balance", "sync_balance"), ("sync_orders", "sync_order")) if o.get(k, True)]
            require(sorted(x[1] for x in seen) == sorted(on), "synchronised during set-up: %r", seen)
            del seen[:]
            now = parse(inp["now"])
            until = now + datetime.timedelta(hours=inp["hours"])
            s.loop.run(until)
        exp = []
        day = now.date()
        while day <= until.date():
            for t in grid(o):
                t = datetime.datetime.combine(day, t)
                if now <= t <= until:
                    exp.append(t)
            day += datetime.timedelta(days=1)
        for n in ("sync_balance", "sync_orders"):
            got = [t for t, x in seen if x == n]
            want = exp if n in on else []
            require(got == want, "%s at %s ... instead of %s ... (%d instead of %d)", n, first(got, want), first(want, got),
                    len(got), len(want))
        for i, (t, x) in enumerate(seen):
            if x != "task":
                require((t, "task") not in seen[:i], "a sync ran after the task due at the same time %s", t)


def first(a, b):
    for i, x in enumerate(a):
        if i >= len(b) or b[i] != x:
            return [str(y) for y in a[i:i + 2]]
    return "(none)"


CASES = {"run": run}
