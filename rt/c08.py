# -*- coding: utf-8 -*-
"""random histories of register/unregister/emit over a random hierarchy of event classes with random priorities (negative,
equal, far apart), the same callback for several classes; calls, their order and the results against a plain model"""
from rt.common import *


def generate(tier, rng):
    for k in range(200 if tier == "quick" else 5000):
        n = rng.randint(1, 5)
        parents = [rng.choice([-1] + list(range(i))) for i in range(n)]
        ops = []
        for _ in range(rng.randint(1, 25)):
            x = rng.random()
            if x < .55:
                ops.append(["reg", rng.randrange(n), rng.randrange(8), rng.choice([None, 0, 0, 1, 2, -1, 10, 9, 1.5, 1.25])])
            elif x < .7:
                ops.append(["unreg", rng.randrange(n), rng.randrange(8)])
            else:
                ops.append(["emit", rng.randrange(n)])
        ops.append(["emit", rng.randrange(n)])
        twice = rng.random() < .3       # some histories register a callback repeatedly, but then never unregister one
        if twice:
            ops = [o for o in ops if o[0] != "unreg"]
        yield "history", {"parents": parents, "ops": ops, "twice": twice, "results": rng.choice(["number", "none", "mixed"]),
                          "names": [rng.randrange(n) if p >= 0 and rng.random() < .4 else i for i, p in enumerate(parents)]}
        base = rng.choice(["Scheduler_task", "x" * rng.choice([30, 63, 64, 100, 255]), "A", "策略"])
        yield "classes", {"names": [base + rng.choice(["", "_0", "_1", "_10", "_0_0", "a", "A", "_a"]) for _ in range(rng.randint(1, 6))],
                          "priorities": [rng.choice([None, 0, 1, 2, -3]) for _ in range(6)]}


def history(inp):
    fresh()
    bus = mod("scheduler.bus").EventBus()
    ev = mod("scheduler.event")
    cls = []
    for i, p in enumerate(inp["parents"]):
        cls.append(ev.create_event_class("E%d" % i) if p < 0 else type("E%d" % inp["names"][i], (cls[p],), {}))
    for i, p in enumerate(inp["parents"]):
        if p < 0:
            require(ev.create_event_class("E%d" % i) is cls[i], "the same name gives another class")
    calls = []

    def make(i):
        def cb(event):
            calls.append((i, event))
            return {"number": i * 10, "none": None, "mixed": (None, 0, "", [], i)[i % 5]}[inp["results"]]
        cb.__name__ = "cb%d" % i
        return cb
    cbs = [make(i) for i in range(8)]
    model = {}      # class -> list of (priority, seq, cb), one per registration
    seq = 0
    for op in inp["ops"]:
        if op[0] == "reg":
            if not inp["twice"] and any(c == op[2] and p == (op[3] or 0) for p, _, c in model.get(op[1], [])):
                continue        # one registration per callback, class and priority
            seq += 1
            if op[3] is None:
                bus.register(cls[op[1]], cbs[op[2]])
            else:
                bus.register(cls[op[1]], cbs[op[2]], priority=op[3])
            model.setdefault(op[1], []).append((op[3] or 0, seq, op[2]))
        elif op[0] == "unreg":
            r, v = outcome(bus.unregister, cls[op[1]], cbs[op[2]])
            require(r == "ok", "unregister raised %r", v)
            if op[1] in model:
                model[op[1]] = [x for x in model[op[1]] if x[2] != op[2]]
        else:
            del calls[:]
            e = cls[op[1]]()
            ret = bus.emit(e)
            groups = {c: [x[2] for x in sorted(l, key=lambda x: (-x[0], x[1]))] for c, l in model.items() if isinstance(
                e, cls[c])}
            require(all(x is e for _, x in calls), "a callback got another event")
            got = [c for c, _ in calls]
            require(sorted(got) == sorted(x for g in groups.values() for x in g), "called %r, subscribers are %r", got, groups)
            require(list(ret) == [{"number": c * 10, "none": None, "mixed": (None, 0, "", [], c)[c % 5]}[inp["results"]] for c in got], "results %r do not match the calls %r", ret, got)
            for c, g in groups.items():
                require(is_subsequence(g, got), "subscribers of class %d run as %r, expected order %r", c, got, g)
            if len(groups) == 1:
                require(got == list(groups.values())[0], "called in the order %r, expected %r", got, groups)


def classes(inp):
    fresh()
    ev = mod("scheduler.event")
    bus = mod("scheduler.bus").EventBus()
    made, got = {}, []
    for n, p in zip(inp["names"], inp["priorities"]):
        if n in made:
            continue
        c = ev.create_event_class(n) if p is None else ev.create_event_class(n, priority=p)
        require(c().priority == (p or 0), "an event of class %s has priority %r instead of %r", n, c().priority, p or 0)
        made[n] = c

        def cb(e, n=n):
            got.append((n, e))
        bus.register(c, cb)
    for n, c in made.items():
        require(ev.create_event_class(n) is c, "the same name gives another class")
        e = c()
        bus.emit(e)
        require([x for x, _ in got] == [n] and got[0][1] is e, "an event of class %s reaches the subscribers of %r", n, [x for x, _ in got])
        del got[:]


def is_subsequence(a, b):
    it = iter(b)
    return all(x in it for x in a)


CASES = {"history": history, "classes": classes}
