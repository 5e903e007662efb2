# -*- coding: utf-8 -*-
"""C25: a submitted closing order lowers what can still be closed."""
from pv.api import *
from contracts.acc import *

P = ("code", "amount", "available_amount", "avg_cost", "side", "last_price", "position_value", "locked_amount")


class Book2(object):
    """any number of positions of one side"""

    def __init__(self, I, d, tag, side):
        self.I, self.tag, self.side = I, tag, side
        self.n = fresh_int(tag + "_n", 0)
        self.map = SymMap(tag, self.n, lambda i: self.fields(i)["code"], lambda i: self.make(i))
        d._set([self.map])

    def fields(self, i):
        t = self.tag
        a, v = ifun(t + "_amount", i, 0), ifun(t + "_avail", i, 0)
        return {"code": str_fun(t + "_code", i), "amount": a, "available_amount": v, "avg_cost": rfun(t + "_cost", i),
                "side": self.side, "last_price": rfun(t + "_last", i), "position_value": rfun(t + "_value", i)}

    def make(self, i):
        return self.I.call(self.I.import_module("jqtrade.account.position").Position, [], self.fields(i))


@harness("orders on any positions", covers=["closing", "opening", "failed", "other position", "not held"])
def close(I):
    fails = choose(2)

    class G(Gate):
        def order(self, o):
            if fails:
                raise AnyError("no")
    ctx, acc = account(I, G())
    O = I.import_module("jqtrade.account.order")
    B = {s: Book2(I, I.getattr(acc, s + "_positions"), s, O.OrderSide[s]) for s in ("long", "short")}
    side = ("long", "short")[choose(2)]
    s2 = ("long", "short")[choose(2)]
    j = fresh_int("j", 0)
    assume(j < B[s2].n)
    c, p = B[s2].map.root_seg().get(j)
    f = B[s2].fields(j)
    code = c if choose(2) else fresh_str("code", nonempty=True)
    amount = fresh_int("amount")
    assume(not_(val_eq(amount, 0)))
    style = in_style(I)[0]
    r, e = catch(I, I.getattr(acc, "order"), code, amount, style, O.OrderSide[side])
    prove("order returns", e is None, repr(e))
    same_fields(I, p, f, ("code", "amount", "avg_cost", "side", "last_price", "position_value"), "a position keeps")
    av = I.getattr(p, "available_amount")
    lowered = and_(side == s2, val_eq(code, c), amount < 0, not fails)
    if truth(lowered):
        cover("closing")
        was = f["available_amount"]
        prove("the closeable amount is lower by the ordered amount but not below zero",
              val_eq(av, ite(was + amount < 0, 0, was + amount)))
    else:
        prove("the closeable amount of any other position stays", val_eq(av, f["available_amount"]))
        cover("failed" if fails else "other position")
        if not fails and truth(amount > 0):
            cover("opening")
    prove("what cannot be closed is locked", val_eq(I.getattr(p, "locked_amount"), f["amount"] - av))
    for s in B:
        d = I.getattr(acc, s + "_positions")
        prove("no position is added or removed", len(d.entries) == 1 and d.entries[0] is B[s].map)
    if truth(not_(val_eq(code, c))):
        cover("not held")
