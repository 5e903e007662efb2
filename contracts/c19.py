# -*- coding: utf-8 -*-
"""C19: the day's orders survive a restart.

The gate works on ghost files; what is stored is a copy of the value given to json.dump, and only a file that was written in
full and closed gives it back.  Every step that changes the store is checked to leave it whole."""
from pv.api import *
from pv.strings import enum_str, Fun
from contracts.acc import order_fields, make_order, in_style, ifun, rfun, FIELDS
from contracts.gate import *
from contracts.c20 import Raw, COLS, MEANS

FIG = ("status", "entrust_time", "confirm_id", "filled_amount", "deal_balance", "canceled_amount", "avg_cost", "err_msg")


class Token(object):
    """a value as JSON text holds it"""

    def __init__(self, v):
        self.v = frozen(v)


def frozen(v):
    if isinstance(v, PDict):
        out = []
        for en in v.entries:
            if isinstance(en, SymMap):
                if en.over or en.removed:
                    raise Unsupported("a changed store")
                out.append(en)
                continue
            if not isinstance(en[0], (str, SymStr)):
                prove("orders are stored by their ids", False, repr(en[0]))
            out.append((en[0], frozen(en[1])))
        return ("dict", out)
    if isinstance(v, PList):
        return ("list", [frozen(x) for x in v.parts])
    ok = v is None or isinstance(v, (str, SymStr, bool, int, float, SymInt, SymReal, SymBool))
    prove("what is stored can be stored", ok, repr(v))
    if not ok:
        raise TypeError("Object of type %s is not JSON serializable" % type(v).__name__)
    return v


def thawed(v):
    if isinstance(v, tuple):
        if v[0] == "list":
            return PList([thawed(x) for x in v[1]])
        d = PDict()
        d._set([en if isinstance(en, SymMap) else (en[0], thawed(en[1])) for en in v[1]])
        return d
    return v


class Bytes(object):
    """the broker's file, read from its start"""

    def __init__(self, lines):
        self.lines, self.at = lines, 0

    def seek(self, off, whence=0):
        if whence != 0 or not isinstance(off, int):
            raise Unsupported("seek")
        self.at = off
        return off

    def tell(self):
        return self.at

    def readline(self):
        if self.at < len(self.lines):
            self.at += 1
            return self.lines[self.at - 1]
        return b""

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class Store(Disk):
    """what is stored, and the broker's files"""

    def __init__(self):
        Disk.__init__(self)
        self.lines, self.results, self.stores, self.fault, self.opens = [], [], [], None, 0
        self.touched = []       # files written, and replaced
        on = eng().ghost
        on["on_json_dump"] = lambda v, h, *a, **k: h.write(self.text(v))
        on["on_json_dumps"] = lambda v, *a, **k: self.text(v)
        on["on_json_load"] = lambda h, *a, **k: self.value(self.content(h.f))
        on["on_json_loads"] = lambda s, *a, **k: self.value(s)

    def text(self, v):
        return SymStr((Fun("json", (Token(v),), excl=""),))

    def value(self, s):
        if self.fault == "json":
            raise ValueError("Expecting value: line 1 column 1 (char 0)")
        p = getattr(s, "parts", ())
        if len(p) != 1 or not isinstance(p[0], Fun) or p[0].key != "json":
            raise ValueError("Extra data")
        return thawed(p[0].args[0].v)

    def content(self, f):
        return mk(f.added)

    def directory(self, path):
        return True if path in ("/orders", "/runtime/data", "/runtime") else None

    def new(self, path):
        for s in self.stores:
            if truth(val_eq(path, s)):
                f = File(path, False, 0)
                f.store = True
                return f
        first = path.parts[0] if isinstance(path, SymStr) else path
        return File(path, isinstance(first, str) and first.startswith("/orders"), 0)

    def stored(self, path, v):
        """v is stored in this file"""
        f = self.file(path)
        f.exists, f.size, f.added = True, 1, [self.text(v)]
        return f

    def open(self, path, mode="r", *a, **k):
        if set(mode) == set("rb"):
            if truth(val_eq(path, self.update)):
                return Bytes(self.lines)
            return Bytes(self.results if self.result is not None and truth(val_eq(path, self.result)) else [])
        if set(mode) - {"t"} == {"r"}:
            f = self.file(path)
            if not f.exists:
                raise FileNotFoundError(path)
            self.opens += 1
            if self.fault == "open":
                raise PermissionError("Permission denied")
            h = Handle(self, f, "r")
            h.read = lambda: self.content(f)
            return h
        return Disk.open(self, path, mode, *a, **k)

    def opened(self, f, mode, k):
        if "a" in mode and f.added and isinstance(f.added[0], SymStr) and isinstance(f.added[0].parts[0], Fun):
            raise Unsupported("appending to the store")
        prove("the store is not written in place", not getattr(f, "store", False))
        f.writers = getattr(f, "writers", 0) + 1
        self.touched.append(f.path)
        return Disk.opened(self, f, mode, k)

    def write(self, h, t):
        prove("the store is never there in part", not getattr(h.f, "store", False))
        Disk.write(self, h, t)

    def closing(self, h):
        if h.mode != "r":
            h.f.writers -= 1

    def move(self, a, b):
        s, d = self.file(a), self.file(b)
        self.touched += [a, b]
        prove("the store is not moved away", not getattr(s, "store", False))
        if getattr(d, "store", False):
            prove("the store is replaced by a file that is complete", s.exists and not getattr(s, "writers", 0) and
                  len(s.added) == 1 and isinstance(s.added[0], SymStr) and isinstance(s.added[0].parts[0], Fun))
            self.replaced = True
        Disk.move(self, a, b)


class World(object):
    """a task in the middle of a day: an order X, any others, all of them stored"""

    def __init__(self, I):
        self.I = I
        self.day = fresh_date("day")
        self.name = fresh_str("task", excl="/", nonempty=True)
        self.disk = Store()
        self.id = fresh_str("x_id", excl=",\n", nonempty=True, strip_ok=True)
        self.x = {"code": "600000.XSHG", "price": fresh_real("x_price"), "amount": fresh_int("x_amount"), "action": "open",
                  "order_id": self.id, "style": "limit", "create_time": fresh_str("x_created"), "side": "long",
                  "status": enum_str(MEANS, fresh_int("x_status", 0, 7).t), "entrust_time": fresh_str("x_time"),
                  "confirm_id": fresh_str("x_confirm"), "filled_amount": fresh_int("x_filled", 0),
                  "deal_balance": fresh_real("x_deal"), "canceled_amount": fresh_int("x_canceled", 0),
                  "avg_cost": fresh_real("x_avg"), "err_msg": fresh_str("x_err"), "commission": 0}
        self.n = fresh_int("own", 0)
        self.others = SymMap("own", self.n, self.oid, self.other)
        self.others.root_seg().forall(lambda s, i: z3.Not(bt(val_eq(self.oid(i), self.id))))
        d = PDict()
        d._set([self.others, (self.id, PDict(list(self.x.items())))])
        g = G(I, self.disk, task=self.name, day=self.day, account_no="1")
        self.disk.stores.append(g.store)
        self.disk.update, self.disk.result = g.path("orderUpdate"), g.path("execResult")
        self.disk.stored(g.store, d)

    def oid(self, i):
        return str_fun("own_id", i, excl=",\n", nonempty=True, strip_ok=True)

    def other(self, i):
        v = {"order_id": self.oid(i), "price": rfun("own_price", i), "amount": ifun("own_amount", i)}
        for n in ("code", "action", "style", "side", "create_time", "status", "entrust_time", "confirm_id", "err_msg"):
            v[n] = str_fun("own_" + n, i)
        for n in ("filled_amount", "canceled_amount"):
            v[n] = ifun("own_" + n, i)
        for n in ("deal_balance", "avg_cost", "commission"):
            v[n] = rfun("own_" + n, i)
        return PDict(list(v.items()))

    def start(self, name=None, day=None):
        """a process of its own"""
        eng().ghost.pop("moment", None)
        g = G(self.I, self.disk, task=self.name if name is None else name, day=self.day if day is None else day, account_no="1")
        self.disk.update, self.disk.result = g.path("orderUpdate"), g.path("execResult")
        r, e = g.setup()
        prove("the gate starts", e is None, repr(e))
        return g

    def listed(self, g):
        """the orders as the gate reports them"""
        r, e = catch(self.I, g.method("sync_orders"))
        prove("the orders can be asked for", e is None, repr(e))
        return r

    def pick(self, r, oid):
        """the order with this id"""
        out = [x for x in r.parts if isinstance(x, PDict) and truth(val_eq(x.getitem("order_id"), oid))]
        prove("the order is there, once", len(out) == 1)
        return out[0]

    def expect(self, r, count):
        """the others are as they were, and there are so many besides them"""
        prove("no order more and none less", val_eq(r.length(), self.n + count))
        j = fresh_int("j", 0)
        assume(j < self.n)
        segs = [p for p in r.parts if isinstance(p, Seg)]
        prove("the others are there", len(segs) == 1)
        got, want = segs[0].get(j), self.other(j)
        for n, v in want.entries:
            prove("the others are as they were", val_eq(got.getitem(n), v), n)

    def same(self, d, v, what):
        prove(what + ": these fields", and_(len(d.entries) == len(v), *[d.contains(n) for n in v]))
        for n in v:
            g = d.getitem(n)
            prove("%s: %s" % (what, n), g is None and v[n] is None or (g is not None and v[n] is not None and val_eq(g, v[n])),
                  "%r is not %r" % (g, v[n]))


@harness("a restart", covers=["restarted"])
def restart(I):
    w = World(I)
    r = w.listed(w.start())
    cover("restarted")
    w.same(w.pick(r, w.id), w.x, "an order that was stored")
    w.expect(r, 1)
    r = w.listed(w.start())
    w.same(w.pick(r, w.id), w.x, "stored again")
    w.expect(r, 1)


@harness("tasks running at the same time", covers=["other task", "other day"])
def together(I):
    w = World(I)
    files = []
    for k in range(2):
        name, day = w.name, w.day
        if k:
            if choose(2):
                cover("other task")
                name = fresh_str("other_task", excl="/", nonempty=True)
                assume(not_(val_eq(name, w.name)))
            else:
                cover("other day")
                day = fresh_date("other_day")
                assume(not_(val_eq(day, w.day)))
            g = G(I, w.disk, task=name, day=day, account_no="1")
            w.disk.stores.append(g.store)
        del w.disk.touched[:]
        w.listed(w.start(name, day))
        prove("something is stored", len(w.disk.touched) > 0)
        files.append(list(w.disk.touched))
    for a in files[0]:
        for b in files[1]:
            prove("a task writes no file of another task or day", not_(val_eq(a, b)), "%r %r" % (a, b))


@harness("a restart after a submission", covers=["restarted", "not sent yet", "synchronised before"])
def submitted(I):
    w = World(I)
    g = w.start()
    if choose(2):
        cover("synchronised before")
        w.listed(g)
        w.disk.replaced = False
    O = I.import_module("jqtrade.account.order")
    style, price, market = in_style(I)
    given = dict(code="000001.XSHE", style=style, price=price, action=(O.OrderAction.open, O.OrderAction.close)[choose(2)],
                 amount=fresh_int("amount"), order_id=fresh_str("order_id", excl=",\n\r", nonempty=True), side=O.OrderSide.long)
    assume(not_(val_eq(given["order_id"], w.id)))
    w.others.root_seg().forall(lambda s, i: z3.Not(bt(val_eq(w.oid(i), given["order_id"]))))
    if choose(2):
        given["entrust_time"] = None
        cover("not sent yet")
    f = order_fields(I, "o", 0, **given)
    o = make_order(I, f)
    r, e = catch(I, g.method("order"), o)
    if e is not None:
        raise PathEnd()         # what is refused: C17
    prove("the store is replaced", getattr(w.disk, "replaced", False))
    r = w.listed(w.start())
    cover("restarted")
    w.same(w.pick(r, w.id), w.x, "an order that was stored")
    w.expect(r, 2)
    d = w.pick(r, f["order_id"])
    a, b = (v.strftime("%Y-%m-%d %H:%M:%S.%f") if v is not None else None for v in (f["create_time"], f["entrust_time"]))
    w.same(d, dict(f, style="market" if market else "limit", action=f["action"].value, side="long", status=f["status"].value,
                   create_time=a, entrust_time=b), "the new order")
    n = I.call(I.getattr(O.Order, "load"), [], dict((k, v) for k, v in d.entries))
    for k in FIELDS:
        if k == "style":
            prove("loaded again: style", I.getattr(n, "style").value == ("market" if market else "limit"))
            prove("loaded again: its price", val_eq(I.getattr(I.getattr(n, "style"), "price"), price))
            continue
        u, v = I.getattr(n, k), I.getattr(o, k)
        prove("loaded again: " + k, u is None and v is None or (u is not None and v is not None and val_eq(u, v)))


@harness("a restart after a synchronisation", covers=["restarted", "changed", "the first one", "a later one", "rejected"])
def synchronised(I):
    w = World(I)
    g = w.start()
    if choose(2):
        cover("a later one")
        w.listed(g)
        w.disk.replaced = False
    else:
        cover("the first one")
    cols = {c: fresh_str("c_" + c, excl=",\n", cls="notnum", nonempty=True, strip_ok=True) for c in COLS}
    t = SymDT(mkint(fresh_int("t", 365 * 86400, 47000 * 86400).t * 1000000))
    cols.update(updTime="093000", custBatchNo=w.id, status=enum_str(["0", "2", "5"], fresh_int("st", 0, 2).t), orderDate=t.strftime("%Y%m%d"),
                orderTime=t.strftime("%H%M%S"), filledQty="300", cancelQty="10", filledAmt="12.5", avgPrice="3.25")
    out = []
    for c in COLS:
        out += ([","] if out else []) + [cols[c]]
    rejected = choose(2)
    msg = fresh_str("msg", excl=",\n", cls="notnum", nonempty=True, strip_ok=True)
    if rejected:
        w.disk.results = [Raw(mk(["093000000,1,", w.id, ",1,E7,", msg, "\n"]), True)]
    else:
        w.disk.lines = [Raw(mk(out + ["\n"]), True)]
    r = w.listed(g)
    d = w.pick(r, w.id)
    v = dict(d.entries)
    if rejected:
        cover("rejected")
        prove("the rejection is shown", and_(val_eq(v["status"], "rejected"), val_eq(v["err_msg"], msg)))
    else:
        cover("changed")
        prove("the record is shown", val_eq(v["filled_amount"], 300))
    prove("the store is replaced", getattr(w.disk, "replaced", False))
    w.disk.lines, w.disk.results = [], []
    r = w.listed(w.start())
    cover("restarted")
    w.same(w.pick(r, w.id), v, "an order that was synchronised")
    w.expect(r, 1)


@harness("a task that runs past midnight", covers=["an order", "a synchronisation"])
def midnight(I):
    w = World(I)
    g = w.start()
    day = fresh_date("next_day")
    assume(date_ord(day) > date_ord(w.day))
    g.goes_on(day)
    w.disk.update = w.disk.result = None
    w.disk.stores.append(g.store)
    if choose(2):
        cover("an order")
        f = order_fields(I, "o", 0, code="000001.XSHE", order_id=fresh_str("order_id", excl=",\n\r", nonempty=True),
                         side=I.import_module("jqtrade.account.order").OrderSide.long, style=in_style(I)[0], price=0, amount=100)
        assume(not_(val_eq(f["order_id"], w.id)))
        w.others.root_seg().forall(lambda s, i: z3.Not(bt(val_eq(w.oid(i), f["order_id"]))))
        r, e = catch(I, g.method("order"), make_order(I, f))
        if e is not None:
            raise PathEnd()     # what is refused: C17
        r = w.listed(w.start(day=day))
        d = w.pick(r, f["order_id"])
        a, b = (v.strftime("%Y-%m-%d %H:%M:%S.%f") if v is not None else None for v in (f["create_time"], f["entrust_time"]))
        w.same(d, dict(f, style=I.getattr(f["style"], "value"), action=f["action"].value, side="long", status=f["status"].value,
                       create_time=a, entrust_time=b), "the order of the new day")
    else:
        cover("a synchronisation")
        before = w.listed(g)
        r = w.listed(w.start(day=day))
        prove("as many orders as after the synchronisation", val_eq(r.length(), before.length()))
        for p in before.parts:
            if isinstance(p, PDict):
                w.same(w.pick(r, p.getitem("order_id")), dict(p.entries), "an order after the synchronisation")
    w.disk.update = w.disk.result = None
    r = w.listed(w.start())
    w.same(w.pick(r, w.id), w.x, "the day before is still stored")
    w.expect(r, 1)


@harness("another task or day", covers=["another task", "another day", "kept apart"])
def apart(I):
    w = World(I)
    name, day = fresh_str("task", excl="/", nonempty=True), fresh_date("day")
    if choose(2):
        cover("another task")
        assume(not_(val_eq(name, w.name)))
    else:
        cover("another day")
        assume(not_(val_eq(day, w.day)))
    g = w.start(name, day)
    r = w.listed(g)
    prove("nothing stored by another task or on another day is loaded", val_eq(r.length(), 0))
    r = w.listed(w.start())
    cover("kept apart")
    w.same(w.pick(r, w.id), w.x, "and the other's orders are still stored")
    w.expect(r, 1)


@harness("a store that cannot be read", covers=["open", "json", "shape"])
def unreadable(I):
    w = World(I)
    kind = ("open", "json", "shape")[choose(3)]
    w.disk.fault = kind
    if kind == "shape":
        w.disk.stored(w.disk.stores[0], PList([1, 2]))
    log = []
    eng().ghost["on_log"] = lambda level, msg, logger: log.append(level)
    g = w.start()
    cover(kind)
    prove("it is reported", any(x in ("exception", "error", "warn", "critical") for x in log), repr(log))
    w.disk.fault = None
    r = w.listed(g)
    prove("and ignored", val_eq(r.length(), 0))
