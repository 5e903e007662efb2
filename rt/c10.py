# -*- coding: utf-8 -*-
"""random strategy programs: functions of equal and different names at any times, options of any kind, calls before, during
and after the initialisation; what runs, with what, in which order, and the stored options, against the program"""
from rt.sched import *


def generate(tier, rng):
    for k in range(150 if tier == "quick" else 5000):
        tasks = []
        for i in range(rng.choice([0, 1, 2, 3, 6])):
            tasks.append([rng.choice(["f", "f", "g", "<lambda>", "f_1", "f_0"]), rng.choice(["plain", "closure", "method"]),
                          rng.choice(["09:30:00", "10:00:00", "10:00", "open", "close", "open+30m", "before_open", "after_close",
                                      "every_minute", "close-1h"])])
            if i and rng.random() < .3 and "every_minute" not in (tasks[-1][2], tasks[-2][2]):
                tasks[-1] = [tasks[-2][0], "same", rng.choice([tasks[-2][2], tasks[-1][2]])]
        yield "program", {"tasks": tasks, "late": rng.choice([None, "before", "after", "task", "failed"]),
                          "call": rng.choice(["run_daily", "set_options"]), "opts": options(rng), "bad": rng.choice([None, None, 5, "f", "none", "named", "module"]),
                          "names": rng.random() < .5}
    for k in range(60 if tier == "quick" else 2000):
        t = rng.choice(["09:30:00", "time"])
        bad = rng.choice([[t], [t, t, t], [], [t, 5], [None, t], ["9h", t], [t, "25:00:00"], "0930"])
        yield "malformed", {"key": rng.choice(["market_period", "sync_period"]), "ok": rng.randint(0, 2), "bad": bad}
    yield "missing", {}


def options(rng):
    o = {}
    for k in ("sync_balance", "sync_order", "use_account"):
        if rng.random() < .5:
            o[k] = rng.choice([0, 1, "", "x", True, False]) if k != "use_account" else rng.choice([0, False, ""])
    if rng.random() < .5:
        o["sync_internal"] = rng.choice([5, 5.5, "7", "3.25", .5, "0.001", 1, 86400, 100000])
    for k in ("market_period", "sync_period"):
        if rng.random() < .5:
            ps = []
            t = 9 * 3600
            for _ in range(rng.randint(1, 3)):
                a = t + rng.randint(0, 3600)
                b = a + rng.randint(0, 7200)
                t = b + 60
                ps.append([["text", "time"][rng.randrange(2)], a, b])
            o[k] = ps
    for i in range(rng.randint(0, 2)):
        o["extra%d" % i] = rng.choice([1, "a", [1], None])
    return o


def hms_(s):
    return datetime.time(s // 3600, s // 60 % 60, s % 60)


def build_opts(o):
    out, want = {}, {}
    for k, v in o.items():
        if k in ("market_period", "sync_period"):
            want[k] = [(hms_(a), hms_(b)) for _, a, b in v]
            out[k] = [(hms_(a), hms_(b)) if f == "time" else (hms_(a).strftime("%H:%M:%S"), hms_(b).strftime("%H:%M:%S")) for f, a, b in v]
        else:
            out[k] = v
            want[k] = bool(v) if k in ("sync_balance", "sync_order", "use_account") else float(v) if k == "sync_internal" else v
    return out, want


def same(a, b):
    if type(a) is not type(b) and not (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(same, a, b))
    return a == b


class Named(object):
    """looks like a function, but cannot be called"""
    __name__ = "named"
    __module__ = "m"


def program(inp):
    opts, want = build_opts(inp["opts"])
    opts.setdefault("use_account", False)
    want.setdefault("use_account", False)
    ran, refused, last, first = [], [], [], {}

    def func(i, name, kind):
        if kind == "method":
            class K(object):
                def f(self, c):
                    call(i, c)
            f = K().f
            return f
        if kind == "closure":
            def f(c, i=i):
                call(i, c)
        else:
            f = lambda c: call(i, c)     # noqa
        f.__name__ = name
        return f

    def call(i, c):
        ran.append((s.loop.strategy_dt, i, c))
        if inp["late"] == "task" and len(ran) == 1:
            late()

    def late():
        o0 = repr(s.strategy.options)
        n0 = len(s.loop.q)
        if inp["call"] == "run_daily":
            r = outcome(s.module.run_daily if hasattr(s.module, "run_daily") else s.strategy.run_daily, func(99, "late", "plain"), "10:30:00")
        else:
            r = outcome(s.strategy.set_options, use_account=False, late=1)
        require(r[0] == "raise", "%s outside the initialisation is accepted", inp["call"])
        require(repr(s.strategy.options) == o0 and len(s.loop.q) == n0, "a refused call changed something")
        refused.append(1)

    def init(ctx):
        s.module.set_options(**opts)
        for i, (name, kind, t) in enumerate(inp["tasks"]):
            f = func(i, name, kind) if kind != "same" else last[0]
            last[:] = [f]
            first[i] = first[i - 1] if kind == "same" else i
            if inp["names"] and kind != "method" and name != "<lambda>":
                setattr(s.module, name, f)     # another function of that name is what the module shows in the end
            s.module.run_daily(f, t)
        if inp["bad"] is not None:
            r = outcome(s.module.run_daily, {"none": None, "named": Named(), "module": os}.get(inp["bad"], inp["bad"]), "open")
            require(r[0] == "raise", "run_daily accepts %r", inp["bad"])
        if inp["late"] == "failed":
            raise ZeroDivisionError("init")
    s = Sim("2024-03-05 06:00:00", init, gate=False)
    with s:
        s.build()
        if inp["late"] == "before":
            late()
        r = outcome(s.strategy.setup)
        if inp["late"] == "failed":
            require(r[0] == "raise", "the error of the initialisation is lost")
            late()
            return
        require(r[0] == "ok", "set-up fails: %r", r[1])
        require(same(s.strategy.options, None) or set(s.strategy.options) == set(want), "options %r", s.strategy.options)
        for k, v in want.items():
            require(same(s.strategy.options[k], v), "option %s is %r instead of %r", k, s.strategy.options[k], v)
        if inp["late"] == "after":
            late()
        s.loop.run(datetime.datetime(2024, 3, 5, 23, 59, 59))
    mp = want.get("market_period") or [(datetime.time(9, 30), datetime.time(11, 30)), (datetime.time(13), datetime.time(15))]
    day = datetime.date(2024, 3, 5)
    exp = []
    for i, (name, kind, t) in enumerate(inp["tasks"]):
        o, c = datetime.datetime.combine(day, mp[0][0]), datetime.datetime.combine(day, mp[-1][1])
        m = datetime.timedelta(minutes=1)
        fixed = {"open": o, "close": c, "open+30m": o + 30 * m, "before_open": o - 30 * m, "after_close": c + 30 * m, "close-1h": c - 60 * m}
        if t == "every_minute":
            for a, b in mp:
                x, b = datetime.datetime.combine(day, a), datetime.datetime.combine(day, b)
                while x <= b:
                    exp.append((x, -1, first[i]))
                    x += m
        else:
            exp.append((fixed[t] if t in fixed else datetime.datetime.combine(day, tod(t)), 0, first[i]))
    # a task with several times runs the equal ones (adjoining periods) in its own turn
    exp.sort(key=lambda e: (e[0], e[1]))
    got = [(t, i) for t, i, _ in ran]
    require([t for t, _ in got] == [e[0] for e in exp], "times %s instead of %s", [str(t) for t, _ in got][:5], [str(e[0]) for e in exp][:5])
    at = {}
    for t, p, i in exp:
        at.setdefault(t, []).append((p, i))
    ga = {}
    for t, i in got:
        ga.setdefault(t, []).append(i)
    for t in at:
        daily = [i for p, i in at[t] if p == 0]
        require(sorted(ga[t]) == sorted(i for _, i in at[t]), "at %s tasks %r run instead of %r", t, ga[t], at[t])
        require([i for i in ga[t] if i in daily] == sorted(daily), "at %s the tasks run in the order %r", t, ga[t])
        require(ga[t][len(ga[t]) - len(daily):] == sorted(daily) or not daily, "every_minute after daily tasks at %s: %r", t, ga[t])
    for t, i, c in ran:
        require(c is s.module.context, "task %d is called with %r", i, c)
    require(len(refused) == 1 or inp["late"] is None or inp["late"] == "task" and not ran, "no attempt made")


def malformed(inp):
    got = []

    def conv(x):
        return datetime.time(10) if x == "time" else x
    bad = inp["bad"] if isinstance(inp["bad"], str) else tuple(map(conv, inp["bad"]))

    def init(ctx):
        s.module.set_options(use_account=False, x=1)
        ps = [("09:30:00", "10:00:00")] * inp["ok"] + [bad]
        got.append(outcome(s.module.set_options, use_account=False, **{inp["key"]: ps}))
    s = Sim("2024-03-05 06:00:00", init, gate=False)
    with s:
        r = outcome(s.start)
        require(r[0] == "ok", "set-up fails: %r", r[1])
        require(got[0][0] == "raise", "%s with %r is accepted", inp["key"], bad)
        require(s.strategy.options == {"use_account": False, "x": 1}, "options changed to %r", s.strategy.options)


def missing(inp):
    s = Sim("2024-03-05 06:00:00", None, gate=False)
    with s:
        r = outcome(s.start)
        require(r[0] == "raise", "a strategy without process_initialize is accepted")


CASES = {"program": program, "malformed": malformed, "missing": missing}
