# -*- coding: utf-8 -*-
"""C16: an accepted order is submitted once, as requested, under a fresh id."""
from pv.api import *
from contracts.acc import *


@harness("order on any book", covers=["accepted", "gate failed"])
def order(I):
    calls = []
    fails = choose(2)
    msg = fresh_str("msg")

    class G(Gate):
        def order(self, o):
            calls.append((o, dict((n, I.getattr(o, n)) for n in FIELDS)))
            if fails:
                raise AnyError(msg)
            # the gate's result is of no account: only an error refuses an order
            return [None, False, True, 0, "x"][choose(5)]
    ctx, acc = account(I, G())
    b = book_of(I, acc)
    O = I.import_module("jqtrade.account.order")
    code, amount = fresh_str("code", nonempty=True), fresh_int("amount")
    assume(not_(val_eq(amount, 0)))
    style, price, market = in_style(I)
    side = (O.OrderSide.long, O.OrderSide.short)[choose(2)]
    r, e = catch(I, I.getattr(acc, "order"), code, amount, style, side)
    prove("order returns", e is None, repr(e))
    prove("the gate receives exactly one submission", len(calls) == 1)
    o, f = calls[0]
    action = O.OrderAction.open if truth(amount > 0) else O.OrderAction.close
    prove("submitted with the code, quantity, price, style and side asked for", and_(
        val_eq(f["code"], code), val_eq(f["amount"], abs(amount)), val_eq(f["price"], price), f["style"] is style,
        f["side"] is side))
    prove("a positive amount opens, a negative one closes", f["action"] is action)
    prove("submitted in status new", f["status"] is O.OrderStatus.new)
    oid = f["order_id"]
    j = fresh_int("j", 0)
    assume(j < b.n)
    k, v = b.entry(j)
    prove("its id is the id of no order in the book", not_(val_eq(oid, k)))
    d = I.getattr(acc, "orders")
    got = d.find(oid)
    prove("it is in the book under its id", got is not None and got[1] is o)
    old = d.find(k)
    prove("the other orders of the book stay", old is not None and old[1] is not o)
    same_fields(I, old[1], b.fields(j), FIELDS, "an order of the book keeps its fields")
    if fails:
        cover("gate failed")
        prove("a failed order returns no id", r is None)
        prove("a failed order is left as rejected with the error's message",
              and_(I.getattr(o, "status") is O.OrderStatus.rejected, val_eq(I.getattr(o, "err_msg"), msg)))
    else:
        cover("accepted")
        prove("the id is returned", val_eq(r, oid))
        prove("the order in the book is as submitted", and_(*[val_eq(I.getattr(o, n), f[n]) for n in FIELDS]))
