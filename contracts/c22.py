# -*- coding: utf-8 -*-
"""C22: cash and positions are those of the last successful gate report."""
from pv.api import *
from contracts.acc import *
from contracts.c25 import Book2

CASH = (("total_asset", "total_assert"), ("available_cash", "available_cash"), ("locked_cash", "locked_cash"))
FORMS = ("member", "name", "absent")


class World(object):
    def __init__(self, I):
        self.I = I
        w = self

        class G(Gate):
            def sync_balance(self):
                if w.error:
                    raise AnyError("down")
                return w.report()
        self.error = False
        self.missing = None
        self.ctx, self.acc = account(I, G())
        self.O = I.import_module("jqtrade.account.order")
        self.B = {s: Book2(I, I.getattr(self.acc, s + "_positions"), "old_" + s, self.O.OrderSide[s]) for s in ("long", "short")}
        self.cash0 = {a: I.getattr(self.acc, a) for k, a in CASH}
        self.n = fresh_int("n", 0)
        self.seg = Seg("report", self.n, self.entry)
        self.seg.pairfacts.append(lambda s, i, j: z3.Or(iterm(i) == iterm(j), z3.Not(bt(and_(
            val_eq(self.code(i), self.code(j)), val_eq(self.is_long(i), self.is_long(j)))))))
        self.cash = {k: fresh_real(k) for k, a in CASH}

    def code(self, i):
        return str_fun("p_code", i)

    def form(self, i):
        t = ifun("p_form", i, 0, 2)
        for k in range(2):
            if truth(val_eq(t, k)):
                return FORMS[k]
        return FORMS[2]

    def is_long(self, i):
        f = z3.Function("p_long", z3.IntSort(), z3.BoolSort())
        return or_(mkbool(f(iterm(i))), val_eq(ifun("p_form", i, 0, 2), 2))

    def fields(self, i):
        f = {"code": self.code(i), "amount": ifun("p_amount", i, 0), "available_amount": ifun("p_avail", i, 0),
             "avg_cost": rfun("p_cost", i), "last_price": rfun("p_last", i), "position_value": rfun("p_value", i)}
        o = z3.Function("p_opt", z3.IntSort(), z3.IntSort(), z3.BoolSort())
        for k, x in enumerate(("last_price", "position_value")):
            if not truth(mkbool(o(iterm(i), k))):
                f[x] = None
        return f

    def entry(self, i):
        d = PDict()
        for k, v in self.fields(i).items():
            if v is not None:
                d.setitem(k, v)
        form = self.form(i)
        if form != "absent":
            side = self.O.OrderSide.long if truth(self.is_long(i)) else self.O.OrderSide.short
            d.setitem("side", side if form == "member" else side.value)
        return d

    def report(self):
        d = PDict()
        if self.missing != "cash":
            c = PDict()
            for k, v in self.cash.items():
                c.setitem(k, v)
            d.setitem("cash", c)
        if self.missing != "positions":
            d.setitem("positions", PList([self.seg]))
        return d


@harness("a successful report", covers=["held", "optional", "not reported"], max_paths=60000)
def report(I):
    w = World(I)
    r, e = catch(I, api(I).sync_balance)
    prove("the sync returns", e is None, repr(e))
    for k, a in CASH:
        prove("the %s is the reported one" % k, val_eq(I.getattr(w.acc, a), w.cash[k]))
    long, short = I.getattr(w.acc, "long_positions"), I.getattr(w.acc, "short_positions")
    if choose(2):
        i = fresh_int("i", 0)
        assume(i < w.n)
        w.seg.get(i)
        cover("held")
        isl = truth(w.is_long(i))
        d = long if isl else short
        witness(d, w.seg, i)
        got = d.find(w.code(i))
        prove("a reported position is held on its side", got is not None)
        for x, v in w.fields(i).items():
            cover("optional" if v is None else "held")
            prove("with the reported %s" % x, val_eq(I.getattr(got[1], x), v))
        prove("and its side", I.getattr(got[1], "side") is w.O.OrderSide["long" if isl else "short"])
    else:
        s = choose(2)
        c = fresh_str("other")
        w.seg.forall(lambda _, q: z3.Implies(bt(in_range_b(q, w.n)), z3.Not(bt(and_(
            val_eq(w.code(q), c), w.is_long(q) if s else not_(w.is_long(q)))))))
        got = (long if s else short).find(c)
        cover("not reported")
        prove("a position that is not reported is not held", got is None)


@harness("a failing or incomplete report changes nothing", covers=["error", "cash", "positions"])
def nothing(I):
    w = World(I)
    k = choose(3)
    w.error = k == 0
    w.missing = (None, "cash", "positions")[k]
    cover(("error", "cash", "positions")[k])
    r, e = catch(I, api(I).sync_balance)
    prove("no error escapes", e is None, repr(e))
    for k, a in CASH:
        prove("the %s is unchanged" % k, val_eq(I.getattr(w.acc, a), w.cash0[a]))
    for s in w.B:
        d = I.getattr(w.acc, s + "_positions")
        prove("the positions are unchanged", len(d.entries) == 1 and d.entries[0] is w.B[s].map)
