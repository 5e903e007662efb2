# -*- coding: utf-8 -*-
"""C27: batch calls treat each entry on its own, one result per entry."""
from pv.api import *
from contracts.acc import *

KINDS = ("full", "plain", "none", "no code", "no amount", "bad code", "zero", "bad side", "bad style")


@harness("batch submission of any number of entries", covers=["submitted", "failed", "malformed"])
def submit(I):
    ctx, acc = account(I)
    O = I.import_module("jqtrade.account.order")
    g = cell(I, "g", calls=PList([]), n=0)
    fails = z3.Function("fails", z3.IntSort(), z3.BoolSort())

    def order(code, amount, style, side):
        i = g.n
        put(I, g, "n", i + 1)
        oid = str_fun("sid", i, nonempty=True)
        bad = mkbool(fails(iterm(i)))
        g.calls.append((code, amount, style, side, oid, bad))
        if truth(bad):
            raise AnyError("no")
        return oid
    acc.__dict__["order"] = order
    n = fresh_int("n", 0)

    def entry(i):
        k = kind(i)
        f = fields(I, i)
        d = PDict()
        if k != "no code":
            d.setitem("code", "600000" if k == "bad code" else f["code"])
        if k != "no amount":
            d.setitem("amount", 0 if k == "zero" else f["amount"])
        if k == "full":
            d.setitem("style", f["style"])
            d.setitem("side", f["side"])
        elif k == "none":
            d.setitem("style", None)
            d.setitem("side", None)
        elif k == "bad side":
            d.setitem("side", "up")
        elif k == "bad style":
            d.setitem("style", "limit")
        return d
    r, e = catch(I, api(I).batch_submit_orders, PList([Seg("batch", n, entry)]))
    prove("the batch returns", e is None, repr(e))
    j = fresh_int("j", 0)
    assume(j < n)
    prove("one result per entry", val_eq(r.length(), n))
    v = r.index_part(j)
    cuts = loop_instance("batch")
    made = [x for c in cuts for x in produced(c, g.calls, j)]
    prove("nothing else is submitted", all(isinstance(p, Seg) for p in g.calls.parts))
    k, f = kind(j), fields(I, j)
    if k in ("full", "plain", "none"):
        prove("a well-formed entry is submitted once", len(made) == 1)
        c, a, s, d, oid, bad = made[0]
        prove("with its own code and amount", and_(val_eq(c, f["code"]), val_eq(a, f["amount"])))
        if k == "full":
            prove("with its own style and side", and_(val_eq(s, f["style"]), d is O.OrderSide.short))
        else:
            prove("with the defaults of a single order", and_(isinstance(s, O.MarketOrderStyle), d is O.OrderSide.long))
        if truth(bad):
            cover("failed")
            prove("a failed entry's result is nothing", v is None)
        else:
            cover("submitted")
            prove("a submitted entry's result is its order id", val_eq(v, oid))
    else:
        cover("malformed")
        prove("a malformed entry is not submitted", made == [])
        prove("a malformed entry's result is nothing", v is None)


def kind(i):
    t = ifun("kind", i, 0, len(KINDS) - 1)
    for k, x in enumerate(KINDS[:-1]):
        if truth(val_eq(t, k)):
            return x
    return KINDS[-1]


def fields(I, i):
    O = I.import_module("jqtrade.account.order")
    a = ifun("b_amount", i)
    fact(iterm(a) != 0)
    d = z3.Function("b_digits", z3.IntSort(), z3.StringSort())
    return {"code": mk([Atom("digits", d(iterm(i)), "", True, True, "digits"), ".XSHE"]), "amount": a,
            "style": ofun("b_style", i, cls=O.LimitOrderStyle), "side": "short"}


@harness("batch cancel of any number of ids", covers=["cancelled"])
def cancel(I):
    ctx, acc = account(I)
    g = cell(I, "g", calls=PList([]))
    acc.__dict__["cancel_order"] = lambda oid: g.calls.append(oid)
    n = fresh_int("n", 0)
    r, e = catch(I, api(I).batch_cancel_orders, PList([Seg("ids", n, lambda i: str_fun("cid", i))]))
    prove("the batch returns", e is None, repr(e))
    j = fresh_int("j", 0)
    assume(j < n)
    prove("one cancel per id", val_eq(g.calls.length(), n))
    prove("in the order given", val_eq(g.calls.index_part(j), str_fun("cid", j)))
    cover("cancelled")
