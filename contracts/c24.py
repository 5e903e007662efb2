# -*- coding: utf-8 -*-
"""C24: get_orders returns exactly the orders matching all given filters."""
from pv.api import *
from contracts.acc import *


@harness("get_orders on any order book", covers=["id", "code", "status", "no filter", "matching", "not matching"])
def filters(I):
    ctx, acc = account(I)
    b = book_of(I, acc)
    O = I.import_module("jqtrade.account.order")
    kw = {}
    byid, bycode, bystat = choose(2), choose(2), choose(3)
    if byid:
        cover("id")
        kw["order_id"] = fresh_str("want_id", nonempty=True)
    if bycode:
        cover("code")
        kw["code"] = wf_code("want_code")
    stat = None
    if bystat:
        cover("status")
        stat = fresh_enum("want_status", O.OrderStatus)
        kw["status"] = stat if bystat == 1 else stat.value
    if not kw:
        cover("no filter")
    r, e = catch(I, api(I).get_orders, **kw)
    prove("the query succeeds", e is None, repr(e))
    j = fresh_int("j", 0)
    assume(j < b.n)
    k, o = b.entry(j)
    f = b.fields(j)
    match = and_(val_eq(k, kw["order_id"]) if byid else True, val_eq(f["code"], kw["code"]) if bycode else True,
                 val_eq(f["status"], stat) if bystat else True)
    got = r.find(k)
    if got is None:
        witness(r, b.map.root_seg(), j)
        prove("an order that matches every condition is returned", not_(match))
        cover("not matching")
    else:
        prove("an order that fails a condition is not returned", match)
        cover("matching")
        v = got[1]
        prove("the order returned under an id is that order", and_(val_eq(I.getattr(v, "order_id"), k), val_eq(
            I.getattr(v, "code"), f["code"]), val_eq(I.getattr(v, "status"), f["status"].value)))


@harness("get_orders returns nothing that is not in the book", covers=["asked"])
def nothing_else(I):
    ctx, acc = account(I)
    b = book_of(I, acc)
    kw = {}
    k = choose(3)
    other = fresh_str("other_id", nonempty=True)
    if k == 1:
        kw["code"] = wf_code("want_code")
    elif k == 2:
        kw["order_id"] = other
    b.map.root_seg().forall(lambda s, i: z3.Implies(bt(in_range_b(i, b.n)), z3.Not(bt(val_eq(b.fields(i)["order_id"], other)))))
    r, e = catch(I, api(I).get_orders, **kw)
    cover("asked")
    prove("an id that is not in the book is not returned", and_(e is None, r is not None and r.find(other) is None))


@harness("malformed conditions are refused", covers=["code", "status"])
def refused(I):
    ctx, acc = account(I)
    book_of(I, acc)
    X = I.import_module("jqtrade.common.exceptions")
    if choose(2):
        cover("code")
        s = bad_code()
        r, e = catch(I, api(I).get_orders, code=s)
    else:
        cover("status")
        s = fresh_str("bad_status", nonempty=True)
        O = I.import_module("jqtrade.account.order")
        for m in O.OrderStatus:
            assume(not_(val_eq(s, m.value)))
        r, e = catch(I, api(I).get_orders, status=s)
    prove("refused as an invalid parameter", isinstance(e, X.InvalidParam))
