# -*- coding: utf-8 -*-
"""event sources of any mode with any tasks, numbers of days generated in advance and readings of the clock; every event
taken and every event peeked at, against the list of days times tasks within the window"""
from rt.sched import *


SINGLE = True       # EVENT_DAYS_COUNT is read when the module is loaded


def generate(tier, rng):
    yield "history", {"mode": "live", "days": 3, "now": "2024-02-27 10:00:00", "given": None, "end": None,
                      "tasks": ["10:00:00", "09:59:59", "23:59:59"], "take": 20, "lag": 0, "peeks": [0, 3]}
    for k in range(400 if tier == "quick" else 20000):
        mode = rng.choice(["live", "live", "end", "history", "historyend"])
        now = "2024-%02d-%02d %02d:%02d:%02d" % (rng.choice([2, 12, 6]), rng.randint(25, 28), rng.randint(0, 23),
                                                rng.choice([0, 30, 59]), rng.choice([0, 1, 59]))
        if rng.random() < .3:
            now += rng.choice([".5", ".000001"])
        n = parse(now)
        start = n + datetime.timedelta(days=rng.randint(-9, 3), seconds=rng.choice([0, 0, 1, 3600, 40000]))
        end = None
        if mode in ("end", "historyend"):
            end = (start if mode == "historyend" else n) + datetime.timedelta(days=rng.choice([-1, 0, 0, 1, 2, 5]),
                                                                              seconds=rng.randint(-4000, 40000))
            if rng.random() < .25:
                end = end.replace(hour=0, minute=0, second=0, microsecond=0)
            elif rng.random() < .1:
                end = end.replace(hour=23, minute=59, second=59, microsecond=0)
            if rng.random() < .1:
                start = start.replace(hour=0, minute=0, second=0, microsecond=0)
        tasks = []
        for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
            t = rng.choice([n, end or n, start]) if rng.random() < .5 else datetime.datetime(
                2024, 1, 1, rng.choice([0, rng.randint(0, 23)]), rng.choice([0, 30]), 0)
            t = t + datetime.timedelta(seconds=rng.choice([0, 0, 0, 1, -1]))
            tasks.append(t.strftime("%H:%M:%S"))
        if rng.random() < .02:
            tasks = [(datetime.datetime(2024, 1, 1) + datetime.timedelta(seconds=rng.randint(0, 86399))).strftime("%H:%M:%S")
                     for _ in range(700)]
        many = rng.random() < .02
        if many and end and end > max(start, n) and len(tasks) < 4:
            end += datetime.timedelta(days=rng.choice([370, 400]))
        yield "history", {"mode": mode, "days": 400 if many else rng.choice([1, 2, 3, 7]), "now": now, "given": str(start), "tasks": tasks,
                          "end": str(end) if end else None, "take": 420 * len(tasks) if many and len(tasks) < 4 else rng.choice([4, 12, 30]),
                          # the clock follows the events, or lies behind (a long callback: ahead) by some days
                          "lag": rng.choice([0, 0, 0, 1, 3, -1, -2]), "peeks": [rng.randint(0, 12) for _ in range(4)]}


def history(inp):
    fresh()
    cfg = mod("scheduler.config").get_config()
    cfg.EVENT_DAYS_COUNT = inp["days"]
    cfg.ENABLE_HISTORY_START = inp["mode"].startswith("history")
    es_mod = mod("scheduler.event_source")
    now = parse(inp["now"])
    clock = Clock(now)
    end = parse(inp["end"]) if inp["end"] else None
    given = parse(inp["given"]) if inp["given"] else None
    hist = cfg.ENABLE_HISTORY_START and given is not None
    start = given if hist else now
    with frozen_clock(clock):
        es = es_mod.EventSource(start=given, end=end)
        es.setup()
        classes = []
        for i, t in enumerate(inp["tasks"]):
            c = type("E%d" % i, (object,), {"priority": 0, "i": i})
            classes.append(c)
            es.daily(c, t)
        # what must come
        bounded = end is not None or cfg.ENABLE_HISTORY_START
        ndays = inp["days"] if end is None else (end.date() - start.date()).days + 1
        if not inp["tasks"] and not bounded:
            return      # nothing ever comes, and it is never found out
        want = []
        for d in range(max(ndays, 0) if bounded else inp["take"] + 3):
            day = start.date() + datetime.timedelta(days=d)
            on = [(datetime.datetime.combine(day, tod(t)), i) for i, t in enumerate(inp["tasks"])]
            want.append([(t, i) for t, i in on if t >= start and (end is None or t <= end)])
        got = []
        for k in range(inp["take"]):
            if k in inp["peeks"]:
                p, q = es.peek_next_event(), es.peek_next_event()
                require(p == q, "peeking twice gives %r and %r", p, q)
            e = es.get_next_event()
            if k in inp["peeks"]:
                require(p == e, "peeked at %r, then took %r", p, e)
            if e is None:
                break
            require(len(e) == 2 and getattr(e[1], "i", None) in range(len(classes)) and isinstance(e[1], classes[e[1].i]),
                    "not a task's event: %r", e)
            got.append((e[0], e[1].i))
            clock.t = max(clock.t, e[0] + datetime.timedelta(days=inp["lag"]))
    flat = [x for day in want for x in sorted(day, key=lambda y: y[0])]
    # at equal times any order
    for i, (t, c) in enumerate(got):
        require(i < len(flat), "an event too many: task %s at %s", inp["tasks"][c], t)
        require(t == flat[i][0], "event %d is at %s instead of %s", i, t, flat[i][0])
    for day in want:
        if flat[:len(got)][-1:] and day and day[-1][0].date() < got[-1][0].date():
            sub = [x for x in got if x[0].date() == day[0][0].date()]
            require(sorted(sub) == sorted(day), "on %s the tasks %r ran instead of %r", day[0][0].date(), sorted(sub), sorted(day))
    if len(got) < inp["take"]:
        require(len(got) == len(flat), "no event after %s although %s is due", got[-1:], flat[len(got):len(got) + 1])
        require(sorted(got) == sorted(flat), "events of other tasks")


CASES = {"history": history}
