# -*- coding: utf-8 -*-
"""C26: the user's views show the account's figures, unknown codes as empty."""
from pv.api import *
from contracts.acc import *
from contracts.c25 import Book2


@harness("portfolio figures", covers=["through the user's context"])
def figures(I):
    ctx, acc = account(I)
    f = {"_total_assert": fresh_real("total"), "_available_cash": fresh_real("cash"), "_locked_cash": fresh_real("locked")}

    class G(Gate):
        def sync_balance(self):
            return PDict({"cash": PDict({"total_asset": f["_total_assert"], "available_cash": f["_available_cash"],
                                         "locked_cash": f["_locked_cash"]}), "positions": PList([])})
    I.setattr(ctx, "trade_gate", G())
    I.call(I.getattr(acc, "sync_balance"), [])
    pf = I.getattr(ctx, "portfolio")
    if choose(2):
        pf = I.getattr(I.call(I.import_module("jqtrade.scheduler.api").UserContext, [ctx]), "portfolio")
        cover("through the user's context")
    prove("total value", val_eq(I.getattr(pf, "total_value"), I.getattr(acc, "total_assert")))
    prove("available cash", val_eq(I.getattr(pf, "available_cash"), I.getattr(acc, "available_cash")))
    prove("locked cash", val_eq(I.getattr(pf, "locked_cash"), I.getattr(acc, "locked_cash")))
    prove("the account's figures are the reported ones", and_(
        val_eq(I.getattr(acc, "total_assert"), f["_total_assert"]), val_eq(I.getattr(acc, "available_cash"), f["_available_cash"]),
        val_eq(I.getattr(acc, "locked_cash"), f["_locked_cash"])))


VIEW = {"security": "code", "code": "code", "total_amount": "amount", "closeable_amount": "available_amount",
        "avg_cost": "avg_cost", "acc_avg_cost": "avg_cost", "last_price": "last_price", "price": "last_price",
        "position_value": "position_value", "value": "position_value"}


@harness("positions seen by the user", covers=["held", "not held", "long", "short"])
def positions(I):
    ctx, acc = account(I)
    O = I.import_module("jqtrade.account.order")
    pf = I.getattr(ctx, "portfolio")
    name = ("long_positions", "positions", "short_positions")[choose(3)]
    s = "short" if name.startswith("short") else "long"
    cover(s)
    books = {x: Book2(I, I.getattr(acc, x + "_positions"), x, O.OrderSide[x]) for x in ("long", "short")}
    b = books[s]
    d = I.getattr(pf, name)
    size = d.entries
    if choose(2):
        cover("held")
        j = fresh_int("j", 0)
        assume(j < b.n)
        c, p = b.map.root_seg().get(j)
        u = I.call(I.getattr(d, "__getitem__"), [c])
        f = b.fields(j)
        for k, n in VIEW.items():
            prove("a held position is shown with its %s" % k, val_eq(I.getattr(u, k), f[n]))
        prove("its locked amount", val_eq(I.getattr(u, "locked_amount"), f["amount"] - f["available_amount"]))
        prove("its side", I.getattr(u, "side") == s)
    else:
        cover("not held")
        c = fresh_str("code", nonempty=True)
        b.map.root_seg().forall(lambda q, i: z3.Implies(bt(in_range_b(i, b.n)), z3.Not(bt(val_eq(b.fields(i)["code"], c)))))
        u, e = catch(I, I.getattr(d, "__getitem__"), c)
        prove("asking for an unknown code gives a position", e is None and u is not None, repr(e))
        prove("with that code and side", and_(val_eq(I.getattr(u, "security"), c), val_eq(I.getattr(u, "code"), c),
                                              I.getattr(u, "side") == s))
        for k in VIEW:
            if VIEW[k] != "code":
                prove("with zero %s" % k, val_eq(I.getattr(u, k), 0))
        prove("with zero locked amount", val_eq(I.getattr(u, "locked_amount"), 0))
        prove("and does not add it", d.entries is size or d.find(c) is None)
    for x in books:
        a = I.getattr(acc, x + "_positions")
        prove("looking does not change the account", len(a.entries) == 1 and a.entries[0] is books[x].map)


@harness("the portfolio's position value is the sum over the long positions", covers=["summed"])
def value(I):
    ctx, acc = account(I)
    O = I.import_module("jqtrade.account.order")
    b = Book2(I, I.getattr(acc, "long_positions"), "long", O.OrderSide.long)
    Book2(I, I.getattr(acc, "short_positions"), "short", O.OrderSide.short)
    v, e = catch(I, lambda: I.getattr(I.getattr(ctx, "portfolio"), "position_value"))
    cover("summed")
    prove("the value can be asked for", e is None, repr(e))
    want = total(I, b)
    prove("it is the sum of the values of the long positions", val_eq(v, want))


def total(I, b):
    from pv.lib import b_sum
    return b_sum(PList([Seg(b.tag, b.n, lambda i: b.fields(i)["position_value"])]))


OV = {"code": "code", "order_price": "price", "amount": "amount", "filled_amount": "filled_amount", "avg_price": "avg_cost",
      "order_id": "order_id", "commission": "commission", "err_msg": "err_msg", "canceled_amount": "canceled_amount",
      "create_time": "create_time", "entrust_time": "entrust_time", "deal_balance": "deal_balance", "style": "style"}


@harness("orders seen by the user", covers=["seen"])
def orders(I):
    ctx, acc = account(I)
    f = order_fields(I, "o", 0)
    o = make_order(I, f)
    I.getattr(acc, "orders").setitem(f["order_id"], o)
    r, e = catch(I, api(I).get_orders)
    prove("the orders can be asked for", e is None, repr(e))
    u = r.getitem(f["order_id"])
    cover("seen")
    for k, n in OV.items():
        prove("an order is shown with its %s" % k, val_eq(I.getattr(u, k), f[n]))
    for k in ("status", "side", "action"):
        prove("an order is shown with its %s" % k, val_eq(I.getattr(u, k), f[k].value))
