# -*- coding: utf-8 -*-
"""C18: broker files are appended whole lines under the file lock, header once."""
from pv.api import *
from contracts.acc import order_fields, make_order
from pv.strings import same_part
from contracts.gate import *


class Shared(Disk):
    """files other processes append to, under the same lock: whenever it is not ours anything may have been added"""

    def __init__(self, I):
        Disk.__init__(self)
        self.I = I
        self.held = None            # the handle that holds the lock of its file
        self.tried = False
        self.free = False           # no other writers now
        self.own = []               # (file, size before, text, with the lock)
        self.slept = 0
        self.failed = None          # how many readings of the clock had been made at the first failure

    def directory(self, path):
        return True if path in ("/orders", "/runtime/data", "/runtime") else None

    def broker(self, f):
        return isinstance(f.path, SymStr) and str(f.path.parts[0]).startswith("/orders")

    def new(self, path):
        f = File(path, False, 0)
        if self.broker(f):
            f.exists = bool(choose(2))
            if f.exists:
                f.size = fresh_int("size", 0)
        return f

    def others(self, f):
        """other processes add to the file, unless the lock is ours"""
        if not self.free and self.broker(f) and not (self.held is not None and self.held.f is f):
            g = fresh_int("others", 0)
            if f.exists:
                f.size = f.size + g
            elif choose(2):
                f.exists, f.size = True, g

    def size(self, f):
        self.others(f)
        return f.size

    def opened(self, f, mode, k):
        if self.broker(f):
            self.others(f)
            prove("the broker's file is opened without touching what is in it", mode in ("a", "a+", "r+", "r"))
        if mode in ("a+", "r+"):
            h = Handle(self, f, mode)
            f.exists = True
            h.pos = self.size(f) if mode == "a+" else 0
            return h
        return Disk.opened(self, f, mode, k)

    def lock(self, h, flags):
        f = h.f
        if not isinstance(flags, int):
            raise Unsupported("lock flags")
        prove("the lock asked for is exclusive", flags & 2 == 2)
        prove("without waiting for ever", flags & 4 == 4)
        self.tried = True
        c = 0 if self.free else choose(3)
        self.others(f)
        if c:
            cover("taken")
            if self.failed is None:
                self.failed = len(dt.clock().seen)
            P = self.I.import_module("portalocker")
            raise BlockingIOError("locked") if c == 1 else P.exceptions.AlreadyLocked("locked")
        self.held = h

    def unlock(self, h):
        if self.held is h:
            prove("the line is flushed before the lock is released", not h.buf)
            self.held = None

    def closing(self, h):
        if self.held is h:
            self.held = None

    def write(self, h, t):
        f = h.f
        if self.broker(f):
            self.others(f)
            prove("nothing is written without the lock", self.held is h)
            prove("what is written goes to the end of the file", True if h.mode[0] == "a" else val_eq(h.pos, f.size))
            self.own.append((f, f.size, t))
        Disk.write(self, h, t)


class Waiting(object):
    """at the head of the waiting loop: nothing was written, the lock is not ours, time has gone on"""

    def __init__(self, g, disk, c):
        self.g, self.disk, self.c = g, disk, c

    def applies(self, fr):
        return fr.locals.get("self") is self.g.gate

    def owns(self, key, obj):
        return isinstance(obj, dt.Clock)

    def assume(self, k):
        if isinstance(k, int) and k == 0:
            return
        d = self.disk
        d.held, d.own[:] = None, []
        d.slept = 0
        if truth(k > 0) and d.failed is None:
            d.failed = len(self.c.seen) - 1     # the first attempt has failed before
        for f in d.files:
            if d.broker(f):
                f.exists = f.exists or bool(choose(2))
                f.size = fresh_int("size_now", 0) if f.exists else 0
        self.c.read()

    def check(self, k1):
        d = self.disk
        if isinstance(k1, int) and k1 == 0:
            return
        cover("waited")
        prove("while waiting nothing is written", not d.own)
        prove("the lock is not kept", d.held is None)
        prove("between two attempts there is one wait", d.slept == 1)
        d.slept = 0


@harness("any file, any other writers", covers=["taken", "waited", "timeout", "written", "header", "no header", "order", "cancel"])
def written(I):
    disk = Shared(I)
    gap, limit = fresh_real("wait_lock_internal", 0), fresh_real("wait_lock_time_out", 0)
    g = G(I, disk, account_no="1", wait_lock_internal=gap, wait_lock_time_out=limit)
    g.setup()
    c = readings()
    inv = Waiting(g, disk, c)
    I.while_invariants.append(inv)

    def slept(s):
        prove("the wait is the configured one", val_eq(s, gap))
        prove("no waiting once the configured time is over", some(*[mkbool(
            z3.ToReal(iterm(c.last) - iterm(x)) / 1000000 < limit.t) for x in c.seen[:disk.failed + 1]]))
        disk.slept += 1
        prove("no waiting with the lock", disk.held is None or disk.held.closed)
    eng().ghost["on_sleep"] = slept
    first = c.read()
    name, header, oid, e = submit(I, g, choose(2))
    prove("the lock is not kept", disk.held is None)
    prove("a lock is asked for", disk.tried)
    if e is not None:
        cover("timeout")
        X = I.import_module("jqtrade.common.exceptions")
        prove("the only failure is a timeout", isinstance(e, X.TimeOut), repr(e))
        prove("after the configured time", mkbool(z3.ToReal(iterm(c.last) - iterm(first)) / 1000000 >= limit.t))
        prove("which leaves the file as it was", not disk.own)
        return
    cover("written")
    check_written(g, disk, name, header, oid)


def submit(I, g, kind):
    oid = fresh_str("order_id", excl=",\n\r", nonempty=True)
    if kind:
        cover("order")
        O = I.import_module("jqtrade.account.order")
        o = make_order(I, order_fields(I, "o", 0, code="600000.XSHG", action=O.OrderAction.open, side=O.OrderSide.long,
                                       status=O.OrderStatus.new, order_id=oid, style=I.call(O.MarketOrderStyle, [])))
        r, e = catch(I, g.method("order"), o)
        return "algoOrder", ORDER_HEADER, oid, e
    cover("cancel")
    r, e = catch(I, g.method("cancel_order"), oid)
    return "algoOrderStop", CANCEL_HEADER, oid, e


def check_written(g, disk, name, header, oid):
    prove("the date's file is written", len(disk.own) > 0 and and_(*[val_eq(f.path, g.path(name)) for f, s, t in disk.own]))
    size, text = disk.own[0][1], mk([t for f, s, t in disk.own])
    empty = truth(val_eq(size, 0))
    cover("header" if empty else "no header")
    lead = text.parts[0] if isinstance(text, SymStr) else text
    lead = lead if isinstance(lead, str) else ""
    rest = mk([lead[len(header) + 1:]] + list(text.parts[1:])) if isinstance(text, SymStr) else None
    if empty:
        prove("the header comes first in an empty file", lead.startswith(header + "\n"), repr(text))
    else:
        prove("and only then", "updTime" not in lead, repr(text))
        rest = text
    lit = "".join(p for p in rest.parts if isinstance(p, str))
    prove("then one whole line", lit.count("\n") == 1 and isinstance(rest.parts[-1], str) and rest.parts[-1].endswith("\n") and
          "updTime" not in lit, repr(text))
    prove("with the order's id", any(same_part(p, oid.parts[0]) is True for p in rest.parts))


@harness("written again, to a file emptied or removed since or not", covers=["header", "no header", "order", "cancel", "removed", "cut"])
def again(I):
    disk = Shared(I)
    disk.free = True
    g = G(I, disk, account_no="1")
    g.setup()
    readings()
    kind = choose(2)
    submit(I, g, kind)
    for f in disk.files:
        if disk.broker(f) and f.exists:
            k = choose(3)
            if k == 1:
                cover("removed")
                f.exists, f.size = False, 0
            elif k == 2:
                cover("cut")
                f.size = 0
    del disk.own[:]
    name, header, oid, e = submit(I, g, kind)
    prove("nothing prevents the write", e is None, repr(e))
    check_written(g, disk, name, header, oid)
