# -*- coding: utf-8 -*-
"""random interleavings of scheduling, unscheduling and running of wake-ups for several sources with any events; what is
submitted and dispatched against one pending wake-up per source"""
from rt.sched import *


def chains(tier, rng):
    for k in range(300 if tier == "quick" else 20000):
        ops = []
        n = 0
        for _ in range(rng.randint(3, 40)):
            x = rng.random()
            if x < .25 or n == 0:
                t, evs = rng.randint(0, 5), []
                for _ in range(rng.choice([0, 1, 2, 5, 9])):
                    t += rng.choice([0, 1, 60])
                    evs.append([t, rng.choice([0, 1, 2, -1])])
                ops.append(["schedule", evs])
                n += 1
            elif x < .32:
                ops.append(["schedule again", rng.randrange(n)])
                n += 1
            elif x < .42:
                ops.append(["unschedule", rng.randrange(n)])
            else:
                ops.append(["run", rng.random()])
        yield "history", {"ops": ops}


class Stuck(object):
    pass


class Recorder(object):
    def __init__(self):
        self.out = []

    def push_message(self, m, *a, **k):
        self.out.append(m)


def history(inp):
    fresh()
    es_mod = mod("scheduler.event_source")
    ev = mod("scheduler.event")
    rec = Recorder()
    sent = []
    bus = mod("scheduler.bus").EventBus()
    base = datetime.datetime(2024, 3, 5, 9, 30)
    mod("scheduler.context").Context(task_name="t", event_bus=bus, loop=rec, scheduler=None, loader=None, debug=False,
                                     config=None, out=None)
    sched = es_mod.EventSourceScheduler()
    answers, told = [None, False, True, 0, "", Stuck, [], "x"], [len(inp["ops"])]

    def receive(e):
        sent.append(e)
        told[0] += 1
        return answers[told[0] & 7]
    bus.register(ev.Event, receive)

    class Src(object):
        def __init__(self, evs):
            self.evs, self.i = evs, 0

        def nxt(self, take):
            if self.i >= len(self.evs):
                return None
            t = base + datetime.timedelta(seconds=self.evs[self.i][0])
            e = self.obj[self.i]
            self.i += take
            return t, e

        def peek_next_event(self):
            return self.nxt(0)

        def get_next_event(self):
            return self.nxt(1)

        def register_event_changed(self, cb):
            pass

    srcs, pending, live, ids = [], {}, {}, {}

    def submitted(k, s, what):
        if s.i < len(s.evs):
            require(len(rec.out) == 1, "%s: %d wake-ups submitted instead of one", what, len(rec.out))
            m = rec.out.pop()
            t = ms(base) + s.evs[s.i][0] * 1000
            require(m.time == t, "%s: the wake-up is due at %s instead of %s", what, m.time, t)
            require(m.priority == s.evs[s.i][1], "%s: priority %r instead of %r", what, m.priority, s.evs[s.i][1])
            pending[k] = m
        else:
            require(not rec.out, "%s: a wake-up without an event", what)
            pending.pop(k, None)
    for op in inp["ops"]:
        if op[0] == "schedule":
            k = len(srcs)
            s = Src(op[1])
            s.obj = [type("E", (ev.Event,), {"priority": p})() for _, p in op[1]]
            srcs.append(s)
            ids[k] = sched.schedule(s)
            live[k] = True
            submitted(k, s, "scheduling source %d" % k)
            require(s.i == 0 and not sent, "scheduling takes or dispatches events")
        elif op[0] == "schedule again":     # as after a change of its events: the source gets a new wake-up in place of the old one
            k, s = len(srcs), srcs[op[1]]
            srcs.append(s)
            live[k] = False
            if op[1] not in ids or not live[op[1]]:
                ids[k] = ids.get(op[1], -1)
                continue
            sched.unschedule(ids[op[1]])
            live[op[1]] = False
            require(not rec.out and not sent, "unscheduling submits or dispatches")
            ids[k] = sched.schedule(s)
            live[k] = True
            submitted(k, s, "scheduling source %d again" % op[1])
        elif op[0] == "unschedule":
            sched.unschedule(ids[op[1]])
            live[op[1]] = False
            require(not rec.out and not sent, "unscheduling submits or dispatches")
        elif pending:
            k = sorted(pending)[int(op[1] * len(pending))]
            s, m = srcs[k], pending.pop(k)
            i = s.i
            m.callback(**m.callback_data)
            if live[k]:
                require(s.i == i + 1 and len(sent) == 1 and sent[0] is s.obj[i],
                        "the wake-up of source %d dispatched %d events and took %d", k, len(sent), s.i - i)
                submitted(k, s, "after event %d of source %d" % (i, k))
            else:
                require(s.i == i and not sent and not rec.out, "unscheduled source %d: taken %d, dispatched %d, submitted %d", k,
                        s.i - i, len(sent), len(rec.out))
            del sent[:]


def daily(inp):
    """real event sources over several days: every event dispatched exactly once, at its time"""
    s = Sim(inp["now"])
    with s:
        s.build()
        got = []
        n = parse(inp["now"])
        es_mod, ev = s.mods["scheduler.event_source"], s.mods["scheduler.event"]
        for i, ts in enumerate(inp["tasks"]):
            es = es_mod.EventSource()
            es.setup()
            for j, t in enumerate(ts):
                c = ev.create_event_class("S%d_%d" % (i, j), priority=i % 3)
                es.daily(c, t)
                s.bus.register(c, lambda e, i=i, j=j: got.append((s.loop.strategy_dt, i, j)))
            s.sched.schedule(es)
        until = n + datetime.timedelta(days=inp["days"])
        s.loop.run(until)
    want = []
    for d in range(inp["days"] + 1):
        for i, ts in enumerate(inp["tasks"]):
            for j, t in enumerate(ts):
                t = datetime.datetime.combine(n.date() + datetime.timedelta(days=d), tod(t))
                if n <= t <= until:
                    want.append((t, i, j))
    require(sorted(got) == sorted(want), "ran %r instead of %r", sorted(got)[:6], sorted(want)[:6])
    require([x[0] for x in got] == sorted(x[0] for x in got), "not in order of time")


def generate(tier, rng):
    for x in chains(tier, rng):
        yield x
    for k in range(40 if tier == "quick" else 1000):
        yield "daily", {"now": "2024-02-28 %02d:%02d:00" % (rng.randint(0, 23), rng.randint(0, 59)), "days": rng.choice([2, 14, 20]),
                        "tasks": [["%02d:%02d:%02d" % (rng.randint(0, 23), rng.choice([0, 30]), rng.choice([0, 59]))
                                   for _ in range(rng.randint(1, 3))] for _ in range(rng.randint(1, 3))]}


CASES = {"history": history, "daily": daily}
