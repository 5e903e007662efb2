# -*- coding: utf-8 -*-
"""the broker gate on ghost files"""
from pv.api import *
from contracts.acc import context

ORDER_HEADER = "updTime,custBatchNo,acctType,acct,symbol,tradeSide,targetQty,algoId,priceType,ticks,highLimitPrice,lowLimitPrice"
CANCEL_HEADER = "updTime,custBatchNo"


class Readings(dt.Clock):
    """the wall clock, noting what it showed"""

    def __init__(self):
        dt.Clock.__init__(self)
        self.seen = []

    def read(self):
        v = dt.Clock.read(self)
        self.seen.append(v)
        return v


def readings():
    c = eng().ghost["clock"] = Readings()
    eng().keep.append(c)
    return c


class File(object):
    """a file somebody may have written before: `size` characters, then what is added now"""

    def __init__(self, path, exists, size):
        self.path, self.exists, self.size = path, exists, size
        self.added, self.start = [], size


class Handle(object):
    """an open text file: writes are buffered until flushed"""

    def __init__(self, disk, f, mode):
        self.disk, self.f, self.mode = disk, f, mode
        self.buf, self.closed = [], False

    def write(self, s):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        if not isinstance(s, (str, SymStr)):
            raise TypeError("write() argument must be str")
        self.buf.append(s)

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def flush(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        if self.buf:
            t, self.buf = mk(self.buf), []
            self.disk.write(self, t)

    def close(self):
        if not self.closed:
            self.flush()
            self.closed = True
            self.disk.closing(self)

    def seek(self, off, whence=0):
        self.flush()
        if whence == 2 and off == 0:
            self.pos = self.disk.size(self.f)
            return self.pos
        if whence == 0 and off == 0:
            self.pos = 0
            return 0
        raise Unsupported("seek")

    def tell(self):
        self.flush()
        return self.pos

    def fileno(self):
        return self

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Disk(object):
    """the files; opening, writing and replacing them"""

    def __init__(self):
        self.files = []
        on = eng().ghost
        on["on_open"], on["on_exists"], on["on_makedirs"] = self.open, self.exists, lambda p: None
        on["on_move"], on["on_getsize"] = self.move, lambda p: self.size(self.file(p))
        on["on_lock"], on["on_unlock"] = self.lock, self.unlock
        on["on_json_dumps"] = lambda v, *a, **k: SymStr((Fun("json", (v,), excl=""),))
        on["on_json_dump"] = lambda v, h, *a, **k: h.write(SymStr((Fun("json", (v,), excl=""),)))

    def directory(self, path):
        """is this path a directory that is there?"""
        return None

    def new(self, path):
        """what is known of a file seen for the first time"""
        if not choose(2):
            return File(path, False, 0)
        return File(path, True, 0 if choose(2) else fresh_int("size", 1))

    def file(self, path):
        for f in self.files:
            if truth(val_eq(f.path, path)):
                return f
        f = self.new(path)
        self.files.append(f)
        return f

    def exists(self, path):
        d = self.directory(path)
        return d if d is not None else self.file(path).exists

    def size(self, f):
        return f.size

    def open(self, path, mode="r", *a, **k):
        if set(mode) - set("rwaxbt+") or a:
            raise Unsupported("open(%r)" % (mode,))
        if k.get("newline") is not None:
            raise Unsupported("open with newline=")
        f = self.file(path)
        if "r" in mode and not f.exists:
            raise FileNotFoundError("No such file")
        if "x" in mode and f.exists:
            raise FileExistsError("File exists")
        return self.opened(f, mode.replace("t", ""), k)

    def opened(self, f, mode, k):
        if mode not in ("a", "w"):
            raise Unsupported("open(%r)" % (mode,))
        f.exists = True
        h = Handle(self, f, mode)
        if mode == "w":
            f.size, f.added = 0, []
        h.pos = self.size(f) if mode == "a" else 0
        h.encoding = k.get("encoding")
        return h

    def write(self, h, t):
        h.f.added.append(t)
        h.f.size = h.f.size + len_of(t)
        h.pos = h.f.size

    def closing(self, h):
        pass

    def move(self, a, b):
        s, d = self.file(a), self.file(b)
        if not s.exists:
            raise FileNotFoundError("No such file")
        d.exists, d.size, d.added, s.exists = True, s.size, s.added, False
        d.moved = True

    def lock(self, h, flags):
        pass

    def unlock(self, h):
        pass


def len_of(t):
    """some positive number of characters"""
    return fresh_int("written", 1)


class Loop(object):
    """the event loop: all that is used here is the current date, which does not change during an operation"""

    def __init__(self, day):
        self.day = day

    @property
    def current_dt(self):
        e = eng()
        if "moment" not in e.ghost:
            u = e.ghost["moment"] = fresh_int("time_of_day", 0, D - 1)
            e.assumed.add("the date does not change while an operation of the gate is going on")
        return SymDT(mkint((iterm(date_ord(self.day)) - EPOCH) * D + u_(e.ghost["moment"])))


def u_(v):
    return iterm(v)


class G(object):
    """a gate set up with arbitrary options"""

    def __init__(self, I, disk, **given):
        self.I, self.disk = I, disk
        self.T = I.import_module("jqtrade.account.trade_gate")
        self.day = given.pop("day", None) or fresh_date("day")
        self.name = given.pop("task", None) or "task"
        self.loop = Loop(self.day)
        self.ctx = context(I, task_name=self.name, loop=self.loop)
        self.opts = o = {}
        self.order_dir, self.runtime_dir = "/orders", "/runtime"
        o["order_dir"], o["runtime_dir"] = self.order_dir, self.runtime_dir
        o.update(given)
        self.gate = I.call(self.T.AnXinDMATradeGate, [])

    def goes_on(self, day):
        """it is another day now"""
        self.day = self.loop.day = day
        eng().ghost.pop("moment", None)

    def setup(self):
        return catch(self.I, self.method("setup"), PDict(list(self.opts.items())))

    def method(self, n):
        return self.I.getattr(self.gate, n)

    def path(self, kind):
        y, m, d = dt._ymd(date_ord(self.day))
        return mk([self.order_dir, "/", kind, "_", Num(y, 4), Num(m, 2), Num(d, 2), ".csv"])

    @property
    def store(self):
        y, m, d = dt._ymd(date_ord(self.day))
        return mk([self.runtime_dir, "/data/", self.name, "_", Num(y, 4), Num(m, 2), Num(d, 2), ".json"])


def stamp(us):
    """a reading of the clock as the broker wants it"""
    return dt.mkdt(us + dt.utc_off() * 1000000).strftime("%H%M%S.%f")


def some(*cs):
    return or_(*cs) if cs else False
