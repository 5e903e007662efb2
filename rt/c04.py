# -*- coding: utf-8 -*-
"""random histories of submissions (due time, priority) with further submissions made by running callbacks; the order
in which callbacks run, and the contents of a queue under push/pop/top, are compared with the documented order"""
from rt.common import *


def generate(tier, rng):
    n = 60 if tier == "quick" else 600
    for k in range(n):
        ops = []
        for _ in range(rng.choice([rng.randint(1, 40)] * 9 + [600])):
            if rng.random() < 0.65:
                ops.append(["push", rng.randint(0, 4), rng.choice([-2, -1, 0, 1, 2, 3, 1.5, 1.25, -.5])])
            else:
                ops.append([rng.choice(["pop", "top", "empty", "pop"])])
        yield "queue", {"ops": ops, "safe": rng.random() < 0.5}
    for k in range(n // 3):
        yield "loop", {"msgs": [[rng.randint(1, 4), rng.randint(-1, 2), [[rng.randint(1, 4), rng.randint(-1, 2)] for _ in range(
            rng.choice([0, 0, 0, 1, 2]))]] for _ in range(rng.randint(1, 12))]}
    yield "many", {"n": 70000 if tier == "quick" else 1100000}


def many(inp):
    """work submitted with the same due time and priority stays in the order of submission, however much was submitted before"""
    fresh()
    M = mod("scheduler.message")

    def cb():
        pass
    last = None
    for i in range(inp["n"]):
        k = M.Message(1, cb, priority=3).sort_key
        require(last is None or last < k, "message number %d does not come after the one submitted before it (%r, %r)", i, last, k)
        last = k


def queue(inp):
    fresh()
    Q, M = mod("scheduler.queue"), mod("scheduler.message")
    q = Q.ThreadSafeQueue() if inp["safe"] else Q.PriorityQueue()
    model = []

    def cb():
        pass
    n = 0
    for op in inp["ops"]:
        if op[0] == "push":
            m = M.Message(op[1], cb, priority=op[2])
            n += 1
            model.append((op[1], -op[2], n, m))
            model.sort(key=lambda x: x[:3])
            q.push(m, m.sort_key)
        elif op[0] == "empty":
            require(q.empty() == (not model), "empty() is wrong")
        else:
            r, v = outcome(getattr(q, op[0]))
            if not model:
                require(r == "raise" and isinstance(v, Q.QueueEmptyError), "%s on an empty queue: %r" % (op[0], v))
            else:
                require(r == "ok" and v is model[0][3], "%s returned %r instead of %r" % (op[0], v, model[0][3]))
                if op[0] == "pop":
                    model.pop(0)
    while model:
        r, v = outcome(q.pop)
        require(r == "ok" and v is model.pop(0)[3], "the queue lost or reordered an item")
    require(q.empty(), "the queue kept an item")


def loop(inp):
    fresh()
    L, M = mod("scheduler.loop"), mod("scheduler.message")
    lp = L.EventLoop()
    ran, model, cnt = [], [], [0]

    def submit(t, p, more):
        cnt[0] += 1
        me = cnt[0]

        def cb():
            model.sort()
            exp = model.pop(0)
            ran.append((t, p, me))
            require(exp == (t, -p, me), "message (due %s, priority %s, #%s) ran before (due %s, priority %s, #%s)" % (
                t, p, me, exp[0], -exp[1], exp[2]))
            for a, b in more:
                submit(a, b, [])
        model.append((t, -p, me))
        lp.push_message(M.Message(t, cb, priority=p))
    for t, p, more in inp["msgs"]:
        submit(t, p, more)
    lp.run()
    require(not model, "messages were never run")


CASES = {"queue": queue, "loop": loop, "many": many}
