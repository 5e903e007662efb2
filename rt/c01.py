# -*- coding: utf-8 -*-
"""strategies with one daily task given by a random time expression (inside and outside the grammar), trading periods from options
or configuration, run over two simulated days: when the task runs, or that the set-up refuses it"""
import re

from rt.sched import *

DAY = datetime.timedelta(days=1)


def expression(rng):
    kind = rng.random()
    if kind < .25:
        h, m, s = rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59)
        f = rng.choice(["%02d:%02d:%02d", "%d:%d:%d", "%02d:%02d", "%d:%02d"])
        return f % ((h, m, s)[:f.count("d")])
    if kind < .35:
        return rng.choice(["open", "close", "before_open", "after_close", "open", "close"])
    units = rng.sample("hms", rng.randint(1, 3))
    e = rng.choice(["open", "close"]) + rng.choice("+-") + "".join(
        rng.choice(["%d", "%02d"]) % rng.choice([0, 1, 5, 9, 30, 59, 60, 99, rng.randint(0, 99)]) + u for u in units)
    if kind < .38:
        return rng.choice(["open-24h", "close+24h", "close-00h", "open+0m0s", "open-48h", "close-23h60m", "close-12h60m", "open+99h99m99s"])
    if kind < .7:
        return e
    r = rng.random()        # a change or two
    if r < .5:
        i = rng.randint(0, len(e))
        return e[:i] + rng.choice(list("+-019hms \n.") + ["１", "open", "x", "1h", "00", "+1m", "٣", "-", "\t", "H"]) + e[i + rng.choice([0, 0, 1]):]
    if r < .6:
        return e + rng.choice(["1h2h", "30m", "\n", " ", "1", "5s5s"])
    return rng.choice(["", "noon", "Open", "open+", "-30m", "+", "open30m", "opening", "close+1d", "open+100m", "open+1h1h", "open-1h-1m",
                       "open+-1h", "close+ 1h", "before_open+1m", "open+h", "open+1", "preopen", "openclose", "before_close",
                       "after_open", "open+1.5h", "close+0x1h", "open+1_0m", "open+m30", "open+30M", "before_open ", "open+1h30"])


def generate(tier, rng):
    for k in range(500 if tier == "quick" else 20000):
        ps = []
        t = 0
        for i in range(rng.choice([1, 1, 2, 2, 3, 8])):
            a = t + rng.randint(0, rng.choice([20000, 20000, 3000]))
            b = a + rng.randint(1, 8000)
            t = b
            if b < 86400:
                ps.append([a, b])
        ps = ps or [[34200, 54000]]
        yield "task", {"expr": expression(rng), "periods": ps, "where": rng.choice(["default", "options", "config", "both"]),
                       "texts": rng.choice([True, False]), "others": rng.choice([0, 0, 1, 4]), "now": "2024-%02d-28 %02d:%02d:00" % (rng.choice([2, 12, 6]), rng.choice([
                           0, 0, 9, 15]), rng.choice([0, 30]))}


def meaning(expr, day, o, c):
    """the instant, or None if the expression is outside the grammar"""
    mid = datetime.datetime.combine(day, datetime.time())
    if ":" in expr:
        x = [int(p) for p in expr.split(":")]
        return mid + datetime.timedelta(hours=x[0], minutes=x[1], seconds=x[2] if len(x) > 2 else 0)
    words = {"open": (o, 0), "close": (c, 0), "before_open": (o, -1800), "after_close": (c, 1800)}
    if expr in words:
        return mid + datetime.timedelta(seconds=sum(words[expr]))
    m = re.compile(r"(open|close)([+-])((?:[0-9]{1,2}[hms])+)\Z").match(expr)
    if not m:
        return None
    parts = re.findall("([0-9]+)([hms])", m.group(3))
    if len({u for n, u in parts}) != len(parts):
        return None
    d = sum(int(n) * {"h": 3600, "m": 60, "s": 1}[u] for n, u in parts)
    return mid + datetime.timedelta(seconds=words[m.group(1)][0] + (d if m.group(2) == "+" else -d))


def task(inp):
    ran = []
    sec = lambda s: (datetime.datetime(2000, 1, 1) + datetime.timedelta(seconds=s)).time()     # noqa
    val = lambda s: str(sec(s)) if inp["texts"] else sec(s)      # noqa
    periods = [(val(a), val(b)) for a, b in inp["periods"]]
    w = inp["where"]

    def init(ctx):
        o = {"use_account": False}
        if w in ("options", "both"):
            o["market_period"] = periods
        sim.module.set_options(**o)

        def f(c):
            ran.append(sim.clock.t)
        f.__name__ = "f"
        for i in range(inp["others"]):
            sim.module.run_daily(lambda c: None, ("close", "12:00:00", "open")[i % 3])
        sim.module.run_daily(f, inp["expr"])
    sim = Sim(inp["now"], init)
    if w == "config":
        sim.cfg.MARKET_PERIOD = periods
    elif w == "both":
        sim.cfg.MARKET_PERIOD = [("01:00:00", "02:00:00")]
    if w == "default":
        o, c = 34200, 54000
    else:
        o, c = inp["periods"][0][0], inp["periods"][-1][1]
    now = parse(inp["now"])
    until = now + 2 * DAY
    with sim:
        r, e = outcome(sim.start)
        if meaning(inp["expr"], now.date(), o, c) is None:
            require(r == "raise", "%r is not rejected", inp["expr"])
            return
        require(r == "ok", "%r is rejected: %r", inp["expr"], e)
        sim.loop.run(until)
    want = []
    for k in range(12):
        t = meaning(inp["expr"], now.date() + k * DAY, o, c)
        if now <= t <= until:
            want.append(t)
    require(ran == want, "%r with the open at %s and the close at %s runs at %s, expected %s", inp["expr"], sec(o), sec(c), [
        str(t) for t in ran], [str(t) for t in want])


CASES = {"task": task}
