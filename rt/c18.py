# -*- coding: utf-8 -*-
"""orders and cancellations written while another writer of the same files takes and releases the lock and appends lines of its
own, between any of the gate's steps (before each attempt, at the release); contents of the files, waits and failures are
compared with what the schedule of the other writer implies"""
import fcntl

import portalocker

from rt.gate import *


def generate(tier, rng):
    for k in range(200 if tier == "quick" else 5000):
        ops = []
        for _ in range(rng.randint(1, 3)):
            steps = []
            for _ in range(rng.choice([1, 1, 2, 4, 8])):
                steps.append([rng.choice(["hold", "free", "free"] if rng.random() < .5 else ["hold"]), rng.choice([0, 0, 1, 2])])
            ops.append({"op": rng.choice(["order", "cancel"]), "steps": steps, "after": rng.choice([0, 0, 1]), "cut": rng.choice([None] * 4 + ["removed", "empty"])})
        yield "writers", {"ops": ops, "gap": rng.choice([0.05, 0.2, 1]), "limit": rng.choice([0, 2.5, 4.5, 20.5]),
                          "before": rng.choice([None, "", "full", "x\n", "short"]), "second": rng.random() < .5}


class Other(object):
    """the other writer: acts when told to"""

    def __init__(self, w):
        self.w, self.fd, self.n = w, None, 0

    def release(self):
        if self.fd is not None:
            os.close(self.fd)
            self.fd = None

    def hold(self, path):
        if self.fd is None:
            self.fd = os.open(path, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
            fcntl.flock(self.fd, fcntl.LOCK_EX | fcntl.LOCK_NB)

    def append(self, path, header, content):
        """a line of its own (with the header if it is the first)"""
        keep = self.fd is not None
        self.hold(path)
        self.n += 1
        t = ("" if content else header + "\n") + "other,%d\n" % self.n
        os.write(self.fd, t.encode())
        if not keep:
            self.release()
        return content + t


def writers(inp):
    with scratch() as d, captured():
        w = Gates(d)
        slept = []
        real_sleep = w.clock.sleep
        w.clock.sleep = lambda s: (slept.append(s), real_sleep(s))
        with frozen_clock(w.clock):
            run(inp, w, slept)


def an_order(oid):
    return {"code": "600000.XSHG", "price": 0, "amount": 100, "action": "open", "order_id": oid, "status": "new", "style": "market",
            "side": "long", "create_time": "2024-03-05 09:30:00"}


def run(inp, w, slept):
    gap, limit = inp["gap"], inp["gap"] * inp["limit"]
    g = w.start(wait_lock_internal=gap, wait_lock_time_out=limit)
    second = w.start("second", wait_lock_internal=gap, wait_lock_time_out=0)
    w.switch("task")
    other = Other(w)
    content = {}
    for kind, header in (("algoOrder", ORDER_HEADER), ("algoOrderStop", CANCEL_HEADER)):
        content[kind] = None
        if inp["before"] is not None:
            content[kind] = {"full": header + "\nold,1\n", "short": header[:9] + "\n"}.get(inp["before"], inp["before"])
            with open(w.path(kind), "w") as f:
                f.write(content[kind])
    TimeOut = mod("common.exceptions").TimeOut
    for i, op in enumerate(inp["ops"]):
        kind, header = ("algoOrder", ORDER_HEADER) if op["op"] == "order" else ("algoOrderStop", CANCEL_HEADER)
        path = w.path(kind)
        if op["cut"] and content[kind] is not None:
            content[kind] = None
            if op["cut"] == "removed":
                os.remove(path)
            else:
                open(path, "w").close()
        st = {"k": 0, "content": content[kind] or "", "own": None, "error": None, "after": op["after"]}
        steps = op["steps"]

        def before_lock():
            k = st["k"]
            st["k"] += 1
            if k < len(steps):
                mode, n = steps[k]
                if mode == "hold":
                    other.hold(path)
                for _ in range(n):
                    st["content"] = other.append(path, header, st["content"])
                if mode == "free":
                    other.release()
            else:
                other.release()

        def at_unlock(fp):
            if other.fd is None and st["after"]:
                # the lock is free now: the other one is next
                st["after"] = 0
                with open(path, newline="") as f:
                    st["seen"] = f.read()
                other.hold(path)
                n = other.n + 1
                with open(path, newline="") as f:
                    here = f.read()
                other.append(path, header, here)
                other.release()
                st["tail"] = ("" if here else header + "\n") + "other,%d\n" % n
        real_lock, real_unlock = portalocker.lock, portalocker.unlock

        def lock(fp, *a, **k):
            before_lock()
            return real_lock(fp, *a, **k)

        def unlock(fp):
            had = other.fd is None
            if had and inp["second"] and not st.get("second"):
                # the lock is held: another task of the package has to wait
                with patched(portalocker, "lock", real_lock), patched(portalocker, "unlock", real_unlock):
                    with open(path, newline="") as f:
                        here = f.read()
                    st["second"] = outcome(second.order, w.make(an_order("88%d" % i))) if op["op"] == "order" else outcome(
                        second.cancel_order, "88%d" % i)
                    with open(path, newline="") as f:
                        st["second"] += (here, f.read())
            r = real_unlock(fp)
            if had and st.get("tail") is None:
                at_unlock(fp)
            return r
        oid = "77%d" % i
        start = w.clock()
        slept[:] = []
        n0 = other.n
        with patched(portalocker, "lock", lock), patched(portalocker, "unlock", unlock):
            if op["op"] == "order":
                r, v = outcome(g.order, w.make(an_order(oid)))
            else:
                r, v = outcome(g.cancel_order, oid)
        held = [s[0] == "hold" or (s[0] != "free") for s in steps]
        fails = next((k for k, h in enumerate(held) if not h), len(held))
        # attempt k is made after k waits
        out = next((k for k in range(fails) if k * gap >= limit), None)
        with open(path, newline="") as f:
            text = f.read()
        other.release()
        if st.get("second"):
            q, e, here, then = st["second"]
            require(q == "raise" and isinstance(e, TimeOut) and here == then,
                    "while a line is being written a second task writes one as well: %r %r, the file went from %r to %r", q, e, here, then)
        lines = text.splitlines(keepends=True)
        own = [x for x in lines if oid in x.strip().split(",")]
        rest = "".join(x for x in lines if oid not in x.strip().split(","))
        if out is not None:
            require(r == "raise" and isinstance(v, TimeOut), "the lock is taken for longer than configured: %r %r", r, v)
            require(text == st["content"] + (st.get("tail") or ""), "a failed write left %r, there was %r", text, st["content"])
            require(slept == [gap] * out, "waited %r before giving up, the interval is %r and the limit %r", slept, gap, limit)
        else:
            require(r == "ok", "the write raised %r", v)
            require(slept == [gap] * fails, "waited %r, expected %d times %r", slept, fails, gap)
            require(len(own) == 1, "the file has %d lines of the order", len(own))
            want = st["content"]
            mine = ("" if want else header + "\n") + own[0]
            require(text == want + mine + (st.get("tail") or ""), "the file holds %r, expected %r then %r then %r", text, want, mine,
                    st.get("tail"))
        content[kind] = text


CASES = {"writers": writers}
