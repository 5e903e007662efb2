# -*- coding: utf-8 -*-
"""random days of orders, broker records, synchronisations and restarts of several tasks over several days; for every step the
process is also killed (in a forked copy) at each of its file operations, with what it was writing left half-written; after every
step, and after every kill, a new process on an empty broker directory shows which orders are stored, and these are compared
with the state before or after the step, field by field"""
import builtins
import logging
import shutil

from rt.gate import *

TASKS = ["a", "b", "a_20240305", "任务 1"]
TEXT = ["", "ok", "资金不足", "say \"no\"", "a\\b", "{}"]


def generate(tier, rng):
    for text in ("", "{", "[1, 2]", "null", "5", "\"x\"", "{\"1\": {\"a\"", "\x00\x01", "binary"):
        yield "unreadable", {"text": text}
    for k in range(30 if tier == "quick" else 1500):
        ops, n = [], 0
        for _ in range(rng.randint(2, 7)):
            x = rng.random()
            t = rng.choice(TASKS[:rng.choice([1, 2, 4])])
            if x < .45:
                n += 1
                ops.append({"op": "order", "task": t, "order": one(rng, str(100 + n))})
            elif x < .75:
                ops.append({"op": "sync", "task": t, "lines": [some_record(rng, str(100 + rng.randint(1, max(n, 1) + 1)))
                                                               for _ in range(rng.choice([0, 0, 1, 2, 3]))],
                            "rejects": [str(100 + rng.randint(1, max(n, 1)))] if rng.random() < .4 else []})
            elif x < .9:
                ops.append({"op": "restart", "task": t})
            else:
                ops.append({"op": rng.choice(["day", "midnight"]), "days": rng.choice([1, 1, 1, 31, 365])})
        amid = [i for i, o in enumerate(ops) if o["op"] in ("order", "sync")]
        yield "day", {"ops": ops, "amid": [rng.choice(amid), rng.choice(TASKS), rng.randint(0, 5)] if amid and rng.random() < .7 else None,
                      "kill": rng.choice([None] + [i for i, o in enumerate(ops) if o["op"] in ("order", "sync")])}


def one(rng, oid):
    d = rand_order(rng, int(oid))
    d.update(order_id=oid, side="long", price=rng.choice([0, 9.87, 12, 0.1 + 0.2, 123456.789, 1e-05]),
             amount=rng.choice([1, 100, 123456789]), status=rng.choice(["new", "open"]), err_msg=rng.choice(TEXT),
             commission=rng.choice([0, 1.25, 1.23456, 0.1 + 0.7]), deal_balance=rng.choice([0, 512.5, 98765.4321012]),
             confirm_id=rng.choice([None, "7", "号"]), filled_amount=rng.choice([0, 100]), avg_cost=rng.choice([None, 0, 1.125]))
    d["create_time"] = "2024-03-05 09:3%d:00.%06d" % (rng.randint(0, 9), rng.choice([0, 7, 999999]))
    d["entrust_time"] = rng.choice([None, "2024-03-05 09:41:00.000000", "2024-03-05 09:41:00.123456"])
    return d


def some_record(rng, oid):
    return record(oid, status=rng.choice("0123457"), filled=str(rng.choice([0, 100])), avg=rng.choice(["0", "9.8765"]),
                  amt=rng.choice(["0", "123.45678"]), cancel=str(rng.choice([0, 50])), no=rng.choice(["B7", "号"]),
                  text=rng.choice(["", "ok", "资金不足"]))


class Dying(object):
    """a file of a process that is killed in the middle of an operation: what is written so far, or only what was flushed, is there"""

    def __init__(self, f, kill):
        self.f, self.kill, self.n = f, kill, 0

    def write(self, s):
        self.n += 1
        if self.n in (1, 2, 7, 40) and self.kill():
            self.f.write(s[:len(s) // 2])
            self.f.flush()
            os._exit(7)
        return self.f.write(s)

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        if self.kill():
            os._exit(7)
        self.f.close()

    def __getattr__(self, n):
        return getattr(self.f, n)

    def __iter__(self):
        return iter(self.f)


def killed(step, at):
    """run the step in a forked process that dies at its file operation number `at`; False if it finished before"""
    pid = os.fork()
    if pid:
        return os.WEXITSTATUS(os.waitpid(pid, 0)[1]) == 7
    try:
        left = [at]

        def kill():
            left[0] -= 1
            return left[0] < 0
        real = builtins.open

        def opened(f, mode="r", *a, **k):
            if set(mode) & set("wax+") and kill():
                os._exit(7)
            h = real(f, mode, *a, **k)
            return Dying(h, kill) if set(mode) & set("wax+") else h
        builtins.open = opened

        def before(m, n):
            f = getattr(m, n)

            def g(*a, **k):
                if kill():
                    os._exit(7)
                return f(*a, **k)
            setattr(m, n, g)
        for n in ("rename", "replace", "remove", "unlink", "truncate", "link"):
            before(os, n)
        copied = shutil.copyfileobj

        def copyfileobj(a, b, *r):
            if kill():
                b.write(a.read(3))
                b.flush()
                os._exit(7)
            return copied(a, b, *r)
        shutil.copyfileobj = copyfileobj
        if hasattr(shutil, "_USE_CP_SENDFILE"):
            shutil._USE_CP_SENDFILE = False
        outcome(step)
    finally:
        os._exit(0)


class Amid(object):
    """another task's process does something at the file operation number `at` of a step"""

    def __init__(self, at, do):
        self.left, self.do, self.saved = at, do, []

    def kill(self):
        self.left -= 1
        if self.left == -1:
            self.do()
        return False

    def __enter__(self):
        real = builtins.open

        def opened(f, mode="r", *a, **k):
            w = set(mode) & set("wax+")
            if w:
                self.kill()
            h = real(f, mode, *a, **k)
            return Dying(h, self.kill) if w else h

        def before(f):
            def g(*a, **k):
                self.kill()
                return f(*a, **k)
            return g
        self.saved = [(builtins, "open", real)] + [(os, n, getattr(os, n)) for n in ("rename", "replace", "remove", "unlink", "truncate")]
        builtins.open = opened
        for m, n, f in self.saved[1:]:
            setattr(m, n, before(f))

    def __exit__(self, *a):
        for m, n, f in self.saved:
            setattr(m, n, f)


class Day(object):
    def __init__(self, w):
        self.w = w
        self.gates, self.book = {}, {}      # book: what each task has stored on this day, by id
        self.mem = {}                       # what the running tasks have
        self.other = os.path.join(w.d, "empty")
        os.makedirs(self.other)
        self.old = set()                    # orders of earlier days
        self.open_day()

    def open_day(self):
        w = self.w
        w.touch("orderUpdate", "execResult")
        for k in ("orderUpdate", "execResult"):
            with open(os.path.join(self.other, os.path.basename(w.path(k))), "ab"):
                pass

    def gate(self, t):
        if t not in self.gates:
            self.gates[t] = self.w.start(t)
            self.mem[t] = dict(self.book.get(t, {}))
        self.w.switch(t)
        return self.gates[t]

    def stored(self, t, undo=False):
        """the orders a new process starts with"""
        run = self.w.runtime
        keep = os.path.join(self.w.d, "keep")
        if os.path.exists(run):
            shutil.copytree(run, keep)
        g = self.w.start(t, order_dir=self.other)
        out = g.sync_orders()
        require(len(set(o.get("order_id") for o in out)) == len(out), "an order is there twice: %r", out)
        if os.path.exists(keep):
            shutil.rmtree(run)
            os.rename(keep, run)
        return {o["order_id"]: o for o in out}

    def check(self, t, what):
        self.compare(self.stored(t), self.book.get(t, {}), "%s of task %s" % (what, t))

    def compare(self, got, want, what):
        require(set(want) - self.old <= set(got) <= set(want), "%s: stored orders %r, expected %r", what, sorted(got), sorted(want))
        for i in got:
            for n in want[i]:
                require(n in got[i] and got[i][n] == want[i][n] and type(got[i][n]) is type(want[i][n]),
                        "%s: order %s: %s is %r, was %r", what, i, n, got[i].get(n), want[i][n])
            require(set(got[i]) == set(want[i]), "%s: order %s: other fields %r", what, i, set(got[i]) ^ set(want[i]))

    def step(self, t, do, kill, what, amid=None):
        g = self.gate(t)
        before = self.book.get(t, {})
        seen = []
        if kill:
            base = os.path.join(self.w.d, "base")
            dirs = [x for x in (self.w.orders, self.w.runtime) if os.path.exists(x)]
            for x in dirs:
                shutil.copytree(x, os.path.join(base, os.path.basename(x)))
            at = 0
            while at < 60:
                died = killed(lambda: do(g), at)
                seen.append((at, outcome(self.stored, t)))
                for x in dirs:
                    shutil.rmtree(x)
                    shutil.copytree(os.path.join(base, os.path.basename(x)), x)
                if not died:
                    break
                at += 1
            shutil.rmtree(base)
            self.w.switch(t)
        if amid is not None and amid[0] != t:
            o = amid[0]
            h = self.gate(o)
            self.w.switch(t)

            def other():
                self.w.switch(o)
                self.book[o] = self.mem[o] = {x["order_id"]: x for x in h.sync_orders()}
                self.w.switch(t)
            with Amid(amid[1], other):
                self.book[t] = self.mem[t] = do(g)
            self.check(o, "a synchronisation during %s of task %s" % (what, t))
        else:
            self.book[t] = self.mem[t] = do(g)
        self.check(t, what)
        for at, (r, v) in seen:
            require(r == "ok", "killed at file operation %d of %s: a new process does not start: %r", at, what, v)
            for want in (before, self.book[t]):
                try:
                    self.compare(v, want, "")
                    break
                except Broken as e:
                    err = e
            else:
                raise Broken("killed at file operation %d of %s: neither the state before nor the one after is stored: %s" % (
                    at, what, err))


def snapshot(o):
    d = snap(o)
    d["style"] = d["style"][0]
    for n in ("create_time", "entrust_time"):
        d[n] = d[n].strftime("%Y-%m-%d %H:%M:%S.%f") if d[n] is not None else None
    return d


def day(inp):
    with gates() as w:
        D = Day(w)
        for n, op in enumerate(inp["ops"]):
            what = "%s (step %d)" % (op["op"], n)
            t = op.get("task")
            amid = inp["amid"][1:] if inp.get("amid") and inp["amid"][0] == n else None
            if op["op"] == "day":
                w.clock.t += datetime.timedelta(days=op["days"])
                D.gates, D.book, D.old = {}, {}, set()
                D.open_day()
            elif op["op"] == "midnight":    # the tasks run on
                for x in D.mem.values():
                    D.old |= set(x)
                w.clock.t += datetime.timedelta(days=op["days"])
                D.book = {}
                D.open_day()
            elif op["op"] == "restart":
                D.gates.pop(t, None)
                D.gate(t)
            elif op["op"] == "order":
                def submit(g):
                    o = w.make(op["order"])
                    g.order(o)
                    d = snapshot(o)
                    b = dict(D.mem[t])
                    b[op["order"]["order_id"]] = d
                    return b
                D.step(t, submit, n == inp["kill"], what, amid)
                w.switch(t)
                back = w.order.Order.load(**D.stored(t)[op["order"]["order_id"]])
                a, b = snap(back), snap(w.make(op["order"]))
                require(a == b, "the order read again is %r, not %r", a, b)
            else:
                with open(w.path("orderUpdate"), "ab") as f:
                    f.write("".join(x + "\n" for x in op["lines"]).encode())
                with open(w.path("execResult"), "ab") as f:
                    f.write("".join("093001000,1,%s,1,E7,资金不足\n" % x for x in op["rejects"]).encode())
                D.step(t, lambda g: {o["order_id"]: o for o in g.sync_orders()}, n == inp["kill"], what, amid)
            for x in list(D.book):
                D.check(x, "after " + what)
        for x in TASKS:
            D.check(x, "at the end")


def unreadable(inp):
    with gates() as w:
        D = Day(w)
        g = D.gate("a")
        one_ = {"code": "600000.XSHG", "price": 1.5, "amount": 100, "action": "open", "order_id": "1", "status": "new", "style":
                "limit", "create_time": "2024-03-05 09:30:00.000000", "entrust_time": None, "side": "long"}
        g.order(w.make(one_))
        g.sync_orders()
        stores = [os.path.join(p, x) for p, _, xs in os.walk(w.runtime) for x in xs]
        require(stores, "nothing is stored")
        for x in stores:
            with open(x, "wb") as f:
                f.write(b"\xff\xfe\x80{" if inp["text"] == "binary" else inp["text"].encode())
        seen = []

        class H(logging.Handler):
            def emit(self, r):
                if r.levelno >= logging.WARNING:
                    seen.append(r.getMessage())
        h = H()
        logging.getLogger().addHandler(h)
        logging.disable(logging.NOTSET)
        try:
            r, v = outcome(D.stored, "a")
        finally:
            logging.disable(logging.CRITICAL)
            logging.getLogger().removeHandler(h)
        require(r == "ok", "an unreadable store keeps the gate from starting: %r", v)
        require(v == {}, "orders read from an unreadable store: %r", v)
        require(seen, "an unreadable store is not reported")
        g = w.start("a")
        one_["order_id"] = "2"
        g.order(w.make(one_))
        require(set(D.stored("a")) == {"2"}, "the next order is not stored: %r", D.stored("a"))


CASES = {"day": day, "unreadable": unreadable}
