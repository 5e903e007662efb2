# -*- coding: utf-8 -*-
"""C31: cancel requests reach the gate exactly for orders in the book."""
from pv.api import *
from contracts.acc import *


@harness("cancel on any book", covers=["in the book", "not in the book", "gate failed"])
def cancel(I):
    calls = []
    fails = choose(2)

    class G(Gate):
        def cancel_order(self, oid):
            calls.append(oid)
            if fails:
                raise AnyError(fresh_str("msg"))
    ctx, acc = account(I, G())
    b = book_of(I, acc)
    j = fresh_int("j", 0)
    assume(j < b.n)
    k, v = b.entry(j)
    inside = choose(2)
    if inside:
        oid = k
        cover("in the book")
    elif choose(2):
        oid = fresh_str("oid")
        b.map.root_seg().forall(lambda s, i: z3.Implies(bt(in_range_b(i, b.n)), z3.Not(bt(val_eq(b.fields(i)["order_id"], oid)))))
        cover("not in the book")
    else:
        n = fresh_int("oid", 0)
        oid = n
        b.map.root_seg().forall(lambda s, i: z3.Implies(bt(in_range_b(i, b.n)), z3.Not(bt(val_eq(b.fields(i)["order_id"], mk([num(n)]))))))
    r, e = catch(I, api(I).cancel_order, oid)
    prove("no error escapes", e is None, repr(e))
    if inside:
        prove("exactly one cancel request with the order's id", and_(len(calls) == 1, val_eq(calls[0], k) if calls else False))
        if fails:
            cover("gate failed")
    else:
        prove("no cancel request for an id that is not in the book", calls == [])
    unchanged(I, acc, b, j)


def unchanged(I, acc, b, j):
    d = I.getattr(acc, "orders")
    prove("the order book is the same", b.d is d and len(d.entries) == 1 and d.entries[0] is b.map)
    k, v = b.entry(j)
    same_fields(I, v, b.fields(j), FIELDS, "an order of the book keeps its fields")
