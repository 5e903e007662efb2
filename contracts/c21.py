# -*- coding: utf-8 -*-
"""C21: the account's order book mirrors the trade gate."""
from pv.api import *
from contracts.acc import *

KEY = ("status", "confirm_id", "filled_amount", "canceled_amount", "deal_balance", "avg_cost", "commission")
REPORT = ("code", "price", "amount", "action", "order_id", "status", "style", "create_time", "entrust_time", "side",
          "confirm_id", "filled_amount", "canceled_amount", "deal_balance", "avg_cost", "commission", "err_msg")


class Merged(SymMap):
    """the book after the first k orders of the report were processed (the loop invariant): an order reported by one of them
    is there with the reported key figures, every other entry is the book's own"""

    def __init__(self, w, k):
        self.w, self.k = w, k
        self.memo = []
        self.stored = []        # written by the current iteration
        self.first = self

    def reported(self, key):
        """the index < k of the report with this id, or None (forks)"""
        for kk, i in self.memo:
            if truth(key_eq(kk, key)):
                return i
        w = self.w
        if eng().choose(2) == 0:
            i = fresh_int("ri", 0, inp=False)
            assume(and_(i < self.k, val_eq(w.rid(i), key)))
            w.seg.get(i)
            if eng()._check() == z3.unsat:
                raise PathEnd()
            self.memo.append((key, i))
            return i
        w.seg.forall(lambda s, j: z3.Implies(bt(and_(in_range_b(j, w.n), j < self.k)), z3.Not(bt(val_eq(w.rid(j), key)))))
        if eng()._check() == z3.unsat:
            raise PathEnd()
        self.memo.append((key, None))
        return None

    def has(self, key):
        if any(truth(key_eq(k, key)) for k, v in self.stored):
            return True
        return self.reported(key) is not None or self.w.b.map.has(key)

    def get(self, key):
        for k, v in reversed(self.stored):
            if truth(key_eq(k, key)):
                return v
        i = self.reported(key)
        if i is None:
            return self.w.b.map.get(key)
        return self.w.merged(i)

    def override(self, key, value):
        m = Merged(self.w, self.k)
        m.memo, m.first = self.memo, self.first
        m.stored = self.stored + [(key, value)]
        return m


class World(object):
    """a report of n orders with distinct ids"""

    def __init__(self, I):
        self.I = I
        self.fail = False
        w = self

        class G(Gate):
            def sync_orders(self):
                if w.fail:
                    raise AnyError("down")
                return PList([w.seg])
        self.ctx, self.acc = account(I, G())
        self.b = book_of(I, self.acc)
        self.d = self.b.d
        self.n = fresh_int("n", 0)
        self.seg = Seg("report", self.n, self.info)
        self.seg.pairfacts.append(lambda s, i, j: z3.Or(iterm(i) == iterm(j), z3.Not(bt(val_eq(self.rid(i), self.rid(j))))))

    def rid(self, i):
        return str_fun("r_id", i, nonempty=True)

    def fields(self, i):
        return order_fields(self.I, "r", i)

    def info(self, i):
        d = PDict()
        f = self.fields(i)
        st = f["style"]
        for n in REPORT:
            d.setitem(n, f[n])
        return d

    def remote(self, i):
        return make_order(self.I, self.fields(i))

    def merged(self, i):
        """an order with the key figures of report i and otherwise arbitrary fields"""
        o = order_fields(self.I, "m", i)
        for n in KEY + ("order_id",):
            o[n] = self.fields(i)[n]
        return make_order(self.I, o)


class Inv(object):
    def __init__(self, w):
        self.w = w
        self.k = None

    def owns(self, key, obj):
        return obj is self.w.d

    def assume(self, k):
        self.k = k
        if isinstance(k, int) and k == 0:
            return
        self.m = Merged(self.w, k)
        self.w.d._set([self.m])

    def check(self, k1):
        w = self.w
        if isinstance(k1, int) and k1 == 0:
            prove("the book starts as it was", w.d.entries == [w.b.map])
            return
        k = mkint(iterm(k1) - 1)
        m = [e for e in w.d.entries if isinstance(e, Merged)]
        rest = [e for e in w.d.entries if not isinstance(e, Merged)] + [x for e in m for x in e.stored]
        prove("an iteration stores at most its own order", and_(len(m) == 1, m[0].first is self.m if m else False, *[
            val_eq(e[0], w.rid(k)) for e in rest]))
        got = w.d.find(w.rid(k))
        prove("a reported order is in the book under its id", got is not None)
        r = w.fields(k)
        for n in KEY:
            prove("with the reported %s" % n, val_eq(I_get(w, got[1], n), r[n]))
        prove("and its id", val_eq(I_get(w, got[1], "order_id"), w.rid(k)))
        if not w.b.map.has(w.rid(k)):
            cover("new to the book")
            for n in FIELDS:
                prove("an order new to the book has the reported %s" % n, val_eq(I_get(w, got[1], n), r[n]))
        else:
            cover("known")


def I_get(w, o, n):
    return w.I.getattr(o, n)


@harness("a sync of any book with any report", covers=["new to the book", "known", "reported", "not reported"])
def sync(I):
    w = World(I)
    I.invariants["report"] = Inv(w)
    f = I.getattr(w.acc, "sync_orders")
    # an order of the book, and the user's view of it
    j = fresh_int("j", 0)
    assume(j < w.b.n)
    k, o = w.b.entry(j)
    u = I.call(api(I).UserOrder, [o])
    r, e = catch(I, f)
    prove("the sync returns", e is None, repr(e))
    same_fields(I, o, w.b.fields(j), FIELDS, "an order handed out before the sync keeps its")
    prove("and shows the same", and_(val_eq(I.getattr(u, "filled_amount"), w.b.fields(j)["filled_amount"]),
                                     val_eq(I.getattr(u, "status"), w.b.fields(j)["status"].value)))
    i = fresh_int("i", 0)
    assume(i < w.n)
    w.seg.get(i)
    got = w.d.find(w.rid(i))
    cover("reported")
    prove("every reported order is in the book", got is not None)
    for n in KEY:
        prove("with the reported %s" % n, val_eq(I.getattr(got[1], n), w.fields(i)[n]))
    w.seg.forall(lambda s, q: z3.Implies(bt(in_range_b(q, w.n)), z3.Not(bt(val_eq(w.rid(q), k)))))
    if eng()._check() != z3.unsat:
        cover("not reported")
        got = w.d.find(k)
        prove("an order that is not reported stays in the book", got is not None)
        same_fields(I, got[1], w.b.fields(j), FIELDS, "an order that is not reported keeps its")


@harness("a report of one order given by plain text values", covers=["new"])
def texts(I):
    w = World(I)
    O = I.import_module("jqtrade.account.order")
    f = w.fields(0)
    for n, cls in (("status", O.OrderStatus), ("action", O.OrderAction), ("side", O.OrderSide)):
        f[n] = f[n].value
    f["style"] = ("market", "limit")[choose(2)]
    tagged = choose(2)
    if tagged:
        f["order_id"] = fresh_int("number", 0)

    class G(Gate):
        def sync_orders(self):
            return PList([PDict(f)])
    I.setattr(w.ctx, "trade_gate", G())
    oid = w.rid(0) if not tagged else mk([num(f["order_id"])])
    w.b.map.root_seg().forall(lambda s, q: z3.Implies(bt(in_range_b(q, w.b.n)), z3.Not(bt(val_eq(w.b.fields(q)["order_id"], oid)))))
    r, e = catch(I, I.getattr(w.acc, "sync_orders"))
    prove("the sync returns", e is None, repr(e))
    got = w.d.find(oid)
    cover("new")
    prove("the order is in the book under its id as text", got is not None)
    o = got[1]
    for n in ("status", "action", "side"):
        prove("its %s is the one named" % n, val_eq(I.getattr(I.getattr(o, n), "value"), f[n]))
    prove("its style is the one named", and_(I.getattr(I.getattr(o, "style"), "value") == f["style"],
                                             val_eq(I.getattr(I.getattr(o, "style"), "price"), f["price"])))


@harness("a failing gate changes nothing", covers=["failed"])
def failing(I):
    w = World(I)
    w.fail = True
    before = w.d.entries
    synced = I.getattr(w.acc, "has_synced")
    r, e = catch(I, api(I).sync_orders)
    cover("failed")
    prove("no error escapes", e is None, repr(e))
    prove("the book is unchanged", I.getattr(w.acc, "orders") is w.d and w.d.entries is before)
    j = fresh_int("j", 0)
    assume(j < w.b.n)
    k, o = w.b.entry(j)
    same_fields(I, o, w.b.fields(j), FIELDS, "an order of the book keeps its")
