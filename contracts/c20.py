# -*- coding: utf-8 -*-
"""C20: after a sync each own order shows its last complete broker record.

One synchronisation of an arbitrary gate state with files of any length, by induction over the lines read: p is the number of
lines of a file read so far (a last line without its end counts as line n), last(p) the last of them that is a record of the
order X considered.  Between synchronisations: the position kept is the start of a line p0 and X shows the state of some
m >= p0 lines; the lemma shows that reading on from p0 then arrives at the state of all lines."""
from pv.api import *
from pv.lib import b_round
from pv.strings import enum_str, to_str
from contracts.acc import ifun, rfun
from contracts.gate import *

COLS = ("updTime", "orderDate", "orderTime", "acctType", "acct", "symbol", "tradeSide", "status", "orderQty", "orderPrice",
        "orderType", "filledQty", "avgPrice", "filledAmt", "cancelQty", "orderNo", "corrId", "custBatchNo", "text", "cliOrderId")
RESULT = ("updTime", "resultType", "custBatchNo", "status", "errorCode", "errorMsg")
CODES = ["0", "1", "2", "3", "4", "5", "7", "8"]
MEANS = ["open", "filling", "filled", "partly_canceled", "canceled", "rejected", "new", "canceling"]
FIG = ("status", "entrust_time", "confirm_id", "filled_amount", "deal_balance", "canceled_amount", "avg_cost", "err_msg")
BLANK, HEADER, SHORT, LONG, BYTES, RECORD, BROKEN = range(7)
I0 = z3.IntSort()


def at(name, i, sort=I0):
    return z3.Function(name, I0, sort)(iterm(i))


class Raw(object):
    """one line as it is in the file"""

    def __init__(self, text, completed, decodes=True):
        self.text, self.completed, self.decodes = text, completed, decodes

    def pv_truth(self):
        return True

    def endswith(self, suffix):
        if suffix != b"\n":
            raise Unsupported("endswith(%r)" % (suffix,))
        return self.completed

    def decode(self, encoding="utf-8", errors="strict"):
        if not self.decodes and errors == "strict":
            raise UnicodeDecodeError("utf-8", b"", 0, 1, "invalid")
        return self.text


class Reader(object):
    """a file opened for reading bytes, positioned at the start of a line"""

    def __init__(self, f):
        self.f, self.pos, self.closed = f, 0, False

    def seek(self, off, whence=0):
        if whence != 0:
            raise Unsupported("seek")
        f = self.f
        same = [q for q in f.points if iterm(f.off(q)).eq(iterm(off))]
        for q in same or f.points:
            if truth(val_eq(f.off(q), off)):
                self.pos = q
                self.start = q
                return off
        fail("reading starts at the start of a line")

    def tell(self):
        return self.f.off(self.pos)

    def readline(self):
        f = self.f
        if truth(mkbool(iterm(self.pos) >= iterm(f.N))):
            return b""
        p, self.pos = self.pos, mkint(iterm(self.pos) + 1)
        f.current = p
        return f.line(p)

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Growing(object):
    """a broker file: n complete lines, perhaps the beginning of another one"""

    def __init__(self, w, kind, cols):
        self.w, self.kind, self.cols = w, kind, cols
        self.n = fresh_int(kind + "_lines", 0)
        self.N = fresh_int(kind + "_lines_begun", 0)
        fact(z3.And(self.N.t >= self.n.t, self.N.t <= self.n.t + 1))
        self.points = [0]
        self.current = None
        self.reader = None
        fact(self.last(0).t == -1)

    def off(self, q):
        t = at(self.kind + "_offset", q)
        if isinstance(q, int) and q == 0:
            fact(t == 0)
        for r in self.points:
            o = at(self.kind + "_offset", r)
            fact(z3.And((o < t) == (iterm(r) < iterm(q)), (o == t) == (iterm(r) == iterm(q))))
        fact(t >= 0)
        return mkint(t)

    shape = now = None

    def point(self, q):
        self.points.append(q)
        return q

    def last(self, p):
        t = at(self.kind + "_last", p)
        fact(z3.And(t >= -1, t < z3.If(iterm(p) > 0, iterm(p), 0)))
        return mkint(t)

    def step(self, p):
        """last(p + 1) by last(p)"""
        fact(self.last(p + 1).t == z3.If(bt(self.is_x(p)), iterm(p), self.last(p).t))

    def uptodate(self, p0, p, m):
        """the record X shows after reading the lines from p0 to p in the state of m lines"""
        a, b = self.last(p), self.last(m)
        return mkint(z3.If(a.t >= iterm(p0), a.t, b.t))

    # what the lines say
    def k(self, i):
        return mkint(at(self.kind + "_kind", i))

    def rid(self, i):
        return str_fun(self.kind + "_id", i, excl=",\n", nonempty=True, strip_ok=True)

    def line(self, p):
        completed = truth(mkbool(iterm(p) < iterm(self.n)))
        self.now = completed
        c = choose(7)
        assume(val_eq(self.k(p), c))
        end = "\n" if completed else ""
        self.shape = c
        if c == SHORT and not completed:
            raise PathEnd()         # as those that end within a character
        if c == BLANK:
            if not completed:
                return Raw(mk([" "]), False)
            return Raw(mk(str_fun(self.kind + "_blank", p, cls="blank").parts + (end,)), completed)
        if c == HEADER:
            return Raw(",".join(self.cols) + end, completed)
        if c in (SHORT, LONG, BYTES):
            num = len(self.cols)
            m = ((1, num - 1)[choose(2)] if completed else 2) if c == SHORT else num + 1 if c == LONG else num
            if c == BYTES and not completed:
                m = 3           # what is left of it is no record (else it counts as one)
            return Raw(self.join(self.columns(p, m, "x"), end), completed, c != BYTES)
        return Raw(self.join(self.record(p, c == BROKEN and (6 if completed else 1)), end), completed)

    def columns(self, p, m, tag):
        return [str_fun("%s_%s%d" % (self.kind, tag, j), p, excl=",\n", nonempty=True, strip_ok=True) if j else
                str_fun("%s_%s0" % (self.kind, tag), p, cls="notnum", excl=",\nu", nonempty=True, strip_ok=True) for j in range(m)]

    def join(self, cols, end):
        out = []
        for x in cols:
            out += [",", x] if out else [x]
        return mk(out + [end])


class Updates(Growing):
    def is_x(self, p):
        return and_(val_eq(self.k(p), RECORD), val_eq(self.rid(p), self.w.id))

    def when(self, i):
        return SymDT(mkint(ifun("record_time", i, 365 * 86400, 47000 * 86400).t * 1000000))

    def record(self, p, broken):
        v = {c: x for c, x in zip(COLS, self.columns(p, len(COLS), "c"))}
        v["custBatchNo"] = mk((" ",) + self.rid(p).parts + (" ",))
        v["status"] = enum_str(CODES, ifun("record_status", p, 0, 7).t)
        d = self.when(p)
        v["orderDate"], v["orderTime"] = d.strftime("%Y%m%d"), d.strftime("%H%M%S")
        v["filledQty"], v["cancelQty"] = to_str(ifun("record_filled", p, 0)), to_str(ifun("record_canceled", p, 0))
        v["filledAmt"], v["avgPrice"] = to_str(rfun("record_amount", p)), to_str(rfun("record_avg", p))
        v["text"] = mk((" ",) + str_fun("record_text", p, excl=",\n", strip_ok=True).parts)
        if broken:
            c = ("status", "orderDate", "filledQty", "cancelQty", "filledAmt", "avgPrice")[choose(broken)]
            v[c] = str_fun("record_bad", p, cls="notnum", excl=",\n", nonempty=True, strip_ok=True)
        return [v[c] for c in COLS]

    def figures(self, i):
        """what record i says"""
        return {"status": enum_str(MEANS, ifun("record_status", i, 0, 7).t), "entrust_time": self.when(i).strftime("%Y-%m-%d %H:%M:%S.%f"),
                "confirm_id": self.columns(i, len(COLS), "c")[COLS.index("orderNo")],
                "filled_amount": ifun("record_filled", i, 0), "canceled_amount": ifun("record_canceled", i, 0),
                "deal_balance": b_round(rfun("record_amount", i), 4), "avg_cost": b_round(rfun("record_avg", i), 3),
                "err_msg": str_fun("record_text", i, excl=",\n", strip_ok=True)}


class Results(Growing):
    def is_x(self, p):
        return and_(val_eq(self.k(p), RECORD), val_eq(self.rid(p), self.w.id), val_eq(ifun("result_type", p, 0, 2), 0),
                    val_eq(ifun("result_status", p, 0, 1), 0))

    def record(self, p, broken):
        if broken:
            raise PathEnd()         # the columns are all text
        v = dict(zip(RESULT, self.columns(p, len(RESULT), "c")))
        v["custBatchNo"] = mk((" ",) + self.rid(p).parts)
        v["resultType"] = enum_str(["1", "2", "3"], ifun("result_type", p, 0, 2).t)
        v["status"] = enum_str(["1", "0"], ifun("result_status", p, 0, 1).t)
        v["errorMsg"] = self.message(p)
        return [v[c] for c in RESULT]

    def message(self, p):
        return str_fun("result_message", p, excl=",\n", nonempty=True, strip_ok=True)


class Broker(Disk):
    def __init__(self, w):
        Disk.__init__(self)
        self.w, self.now = w, None
        eng().ghost["on_json_load"] = lambda h, *a, **k: w.orders

    def directory(self, path):
        return None

    def new(self, path):
        return File(path, True, 0)

    def open(self, path, mode="r", *a, **k):
        w = self.w
        if set(mode) == set("rb"):
            for f in (w.res, w.upd):
                if truth(val_eq(path, w.g.path({"update": "orderUpdate", "result": "execResult"}[f.kind]))):
                    f.reader = self.now = Reader(f)
                    return f.reader
            fail("the files read are those of the date", repr(path))
        if mode == "r":
            return Handle(self, self.file(path), "r")
        return Disk.open(self, path, mode, *a, **k)


class Reading(object):
    """the induction over the lines of a file"""
    at_once = True

    def __init__(self, w):
        self.w = w

    def applies(self, fr):
        return fr.locals.get("self") is self.w.g.gate and self.w.disk.now is not None

    def owns(self, key, obj):
        w = self.w
        if isinstance(obj, PDict):
            return obj is not w.orders      # the records of orders
        return getattr(obj, "o", None) is w.g.gate and obj.name in ("_order_update_offset", "_order_result_offset")

    def assume(self, k):
        w = self.w
        f = w.disk.now.f
        r = f.reader
        p0 = r.start
        p = mkint(iterm(p0) + iterm(k))
        assume(p <= f.N)
        r.pos = f.point(p)
        q = fresh_int("kept", 0)
        fact(z3.And(q.t <= p.t, q.t <= f.n.t))
        w.I.setattr(w.g.gate, w.attr[f.kind], f.off(f.point(q)))
        w.show(f, f.uptodate(p0, p, w.m[f.kind]))

    def check(self, k1):
        w = self.w
        f = w.disk.now.f
        r = f.reader
        if isinstance(k1, int) and k1 == 0:     # nothing read yet
            return w.same("the order shows what it did")
        w.expect(f, r.start, mkint(iterm(r.start) + iterm(k1)))


class World(object):
    attr = {"update": "_order_update_offset", "result": "_order_result_offset"}

    def __init__(self, I, rejected, ignore):
        self.I, self.rejected = I, rejected
        self.id = fresh_str("x_id", excl=",\n", nonempty=True, strip_ok=True)
        self.first = {"status": enum_str(MEANS, fresh_int("x_status", 0, 7).t), "entrust_time": fresh_str("x_time"),
                      "confirm_id": fresh_str("x_confirm"), "filled_amount": fresh_int("x_filled", 0),
                      "deal_balance": fresh_real("x_deal"), "canceled_amount": fresh_int("x_canceled", 0),
                      "avg_cost": fresh_real("x_avg"), "err_msg": fresh_str("x_err")}
        self.rest = {"code": "600000.XSHG", "price": fresh_real("x_price"), "amount": fresh_int("x_amount", 1), "action": "open",
                     "order_id": self.id, "style": "limit", "create_time": fresh_str("x_created"), "side": "long"}
        self.x = PDict(list(self.rest.items()) + list(self.first.items()))
        n = fresh_int("own", 0)
        self.others = SymMap("own", n, lambda i: str_fun("own_id", i, excl=",\n", nonempty=True, strip_ok=True), self.other)
        self.others.root_seg().forall(lambda s, i: z3.Not(bt(val_eq(str_fun("own_id", i, excl=",\n", nonempty=True, strip_ok=True),
                                                                   self.id))))
        self.orders = PDict()
        self.orders._set([self.others, (self.id, self.x)])
        self.upd, self.res = Updates(self, "update", COLS), Results(self, "result", RESULT)
        self.disk = Broker(self)
        self.ignore = ignore
        self.g = G(I, self.disk, account_no="1", file_encoding="utf-8", **({} if rejected else {"ignore_error_line": ignore}))
        r, e = self.g.setup()
        prove("the gate is set up", e is None, repr(e))
        self.m = {"update": 0, "result": 0}
        self.start = {"update": 0, "result": 0}
        self.state = {"update": mkint(z3.IntVal(-1)), "result": mkint(z3.IntVal(-1))}

    def other(self, i):
        return PDict([("order_id", str_fun("own_id", i, excl=",\n", nonempty=True, strip_ok=True))] + [
            (f, fresh_obj("other_" + f)) for f in FIG])

    def earlier(self, when):
        """the state earlier synchronisations left"""
        g = self.g
        if when == "first":
            cover("first of the day")
            return
        if when == "another day":
            cover("another day")
            d = fresh_date("earlier_day")
            assume(not_(val_eq(d, g.day)))
            self.I.setattr(g.gate, "_offset_date", d)
            self.I.setattr(g.gate, "_has_synced", True)
            for f in (self.upd, self.res):
                self.I.setattr(g.gate, self.attr[f.kind], fresh_int("old_offset", 0))
            return
        cover("later ones")
        self.I.setattr(g.gate, "_offset_date", g.day)
        for f in (self.upd, self.res):
            p0, m = f.point(fresh_int(f.kind + "_from", 0)), fresh_int(f.kind + "_state", 0)
            assume(and_(p0 <= m, p0 <= f.n, m <= f.N))
            self.I.setattr(g.gate, self.attr[f.kind], f.off(p0))
            self.m[f.kind], self.start[f.kind] = m, p0
        self.I.setattr(g.gate, "_has_synced", True)
        self.show(self.upd, self.upd.last(self.m["update"]))
        self.show(self.res, self.res.last(self.m["result"]))

    def figures(self):
        """what X shows when it is in these states"""
        u, r = self.state["update"], self.state["result"]
        v = dict(self.first)
        if not self.rejected and truth(u >= 0):
            v = self.upd.figures(u)
        if self.rejected and truth(r >= 0):
            v.update(status="rejected", err_msg=self.res.message(r))
        return v

    def limits(self, f):
        """the order considered has records in one of the files only"""
        if (f is self.upd) == self.rejected:
            fact(f.last(f.N).t == -1)

    def show(self, f, i):
        self.none(f)
        self.state[f.kind] = i
        self.x._set([en for en in list(self.rest.items()) + list(self.figures().items())])

    def none(self, f):
        if (f is self.upd) == self.rejected:
            self.state[f.kind] = mkint(z3.IntVal(-1))

    def expect(self, f, p0, p):
        """line p - 1 was read"""
        q = f.current
        f.step(q)
        if (f is self.upd) == self.rejected:
            assume(not_(f.is_x(q)))
        else:
            self.state[f.kind] = f.uptodate(p0, p, self.m[f.kind])
            if truth(f.is_x(q)):
                cover("own record" if f is self.upd else "failed submission")
        prove("one line is read at a time", val_eq(f.reader.pos, p))
        self.same("the order shows its last record so far")
        o = self.I.getattr(self.g.gate, self.attr[f.kind])
        prove("the position kept is the start of a line", some(*[and_(val_eq(o, f.off(x)), mkbool(z3.And(
            iterm(x) <= iterm(p), iterm(x) <= iterm(f.n)))) for x in f.points + [p]]))
        bad = f.shape in (SHORT, LONG, BYTES) or (f.shape == BROKEN and val_eq(f.rid(q), self.id))
        prove("a malformed line is skipped only if that is allowed", or_(self.ignore, mkbool(iterm(q) >= iterm(f.n)), not_(bad)))
        if f.shape in (SHORT, LONG, BYTES, BROKEN):
            cover("skipped")
        if f.now is False:
            cover("unfinished line")

    def same(self, what):
        v = self.figures()
        for n in FIG:
            g = self.x.get(n)
            prove("%s: %s" % (what, n), g is None and v[n] is None or (g is not None and v[n] is not None and val_eq(g, v[n])),
                  "%r is not %r" % (g, v[n]))


@harness("the lemma: records read again change nothing", covers=["base", "step"])
def lemma(I):
    last, isx = z3.Function("last", I0, I0), z3.Function("isx", I0, z3.BoolSort())
    m, n = fresh_int("m", 0), fresh_int("n", 0)
    claim = lambda n: or_(val_eq(mkint(last(iterm(n))), mkint(last(m.t))), mkbool(last(iterm(n)) >= m.t))     # noqa
    cover("base")
    prove("base", claim(m))
    cover("step")
    assume(n >= m)
    assume(claim(n))
    fact(last(n.t + 1) == z3.If(isx(n.t), n.t, last(n.t)))
    prove("the last record of more lines is that of fewer lines or one of the lines since", claim(n + 1))


def sync(I, rejected, when, ignore=True):
    w = World(I, rejected, ignore)
    w.earlier(when)
    I.while_invariants.append(Reading(w))
    r, e = catch(I, w.g.method("sync_orders"))
    if e is not None:
        f = w.disk.now.f
        prove("no error before a line is read", f.current is not None, repr(e))
        cover("stopped")
        prove("an error only for a malformed line that is not to be skipped", and_(not_(w.ignore), f.shape in (
            SHORT, LONG, BYTES, BROKEN), mkbool(iterm(f.current) < iterm(f.n))), repr(e))
        prove("which changes nothing", True)
        w.same("what was read before it counts")
        return
    for f in (w.upd, w.res):
        prove("both files are read", f.reader is not None)
        p0, m = w.start[f.kind], w.m[f.kind]
        # the lemma, for the state before
        fact(z3.Or(f.last(f.N).t == f.last(m).t, f.last(f.N).t >= iterm(m)))
        fact(z3.Implies(iterm(m) > iterm(p0), z3.Or(f.last(m).t == f.last(p0).t, f.last(m).t >= iterm(p0))))
        f.step(f.n)
        w.state[f.kind] = f.last(f.N)
        w.none(f)
        o = I.getattr(w.g.gate, w.attr[f.kind])
        prove("the position kept is the start of a line read", some(*[and_(val_eq(o, f.off(x)), mkbool(iterm(x) <= iterm(f.n)))
                                                                   for x in f.points]))
    cover("synchronised")
    w.same("the order shows its last record")
    prove("the date is kept", val_eq(I.getattr(w.g.gate, "_offset_date"), w.g.day))
    mine = [x for x in seq_parts(r) if isinstance(x, PDict)]
    prove("the order is reported, once", len(mine) == 1 and val_eq(r.length(), w.others.n + 1))
    v = w.figures()
    for n in FIG:
        g = mine[0].get(n)
        prove("with its last record", g is None and v[n] is None or (g is not None and v[n] is not None and val_eq(g, v[n])), n)
    for n in w.rest:
        prove("and what was ordered", val_eq(mine[0].get(n), w.rest[n]), n)


COVERS = ["synchronised", "unfinished line", "own record"]


@harness("an order with records, first synchronisation", covers=COVERS + ["first of the day"], max_paths=40000)
def records_first(I):
    sync(I, False, "first", fresh_bool("ignore_error_line"))


@harness("an order with records, first synchronisation of another day", covers=COVERS + ["another day"], max_paths=40000)
def records_another(I):
    sync(I, False, "another day", fresh_bool("ignore_error_line"))


@harness("an order with records, later synchronisation", covers=COVERS + ["skipped", "later ones"], max_paths=40000)
def records_later(I):
    sync(I, False, "later", True)


@harness("an order with records, later synchronisation, malformed lines not skipped", covers=COVERS + ["stopped", "later ones"],
         max_paths=40000)
def records_strict(I):
    sync(I, False, "later", False)


COVERS = ["skipped", "synchronised", "unfinished line", "failed submission"]


@harness("an order whose submission failed, first synchronisation", covers=COVERS + ["first of the day"],
         max_paths=40000)
def failed_first(I):
    sync(I, True, "first")


@harness("an order whose submission failed, first synchronisation of another day",
         covers=COVERS + ["another day"], max_paths=40000)
def failed_another(I):
    sync(I, True, "another day")


@harness("an order whose submission failed, later synchronisation", covers=COVERS + ["later ones"],
         max_paths=40000)
def failed_later(I):
    sync(I, True, "later")
