# -*- coding: utf-8 -*-
"""C15: only well-formed orders reach the trade gate."""
from pv.api import *
from contracts.acc import *


def setting(I):
    ctx, acc = account(I)
    got = []

    def order(code, amount, style, side):
        got.append((code, amount, style, side))
        return "the id"
    acc.__dict__["order"] = order
    return got, I.import_module("jqtrade.account.order"), I.import_module("jqtrade.common.exceptions").InvalidParam


@harness("a well-formed order reaches the account as given", covers=["defaults", "style", "side"])
def accepted(I):
    got, O, Bad = setting(I)
    code, amount = wf_code(), fresh_int("amount")
    assume(not_(val_eq(amount, 0)))
    kw = {}
    ks, kd = choose(3), choose(4)
    if ks == 1:
        kw["style"] = None
    elif ks == 2:
        kw["style"] = in_style(I)[0]
        cover("style")
    if kd == 1:
        kw["side"] = None
    elif kd >= 2:
        kw["side"] = ("long", "short")[kd - 2]
        cover("side")
    r, e = catch(I, api(I).order, code, amount, **kw)
    prove("a well-formed order is accepted", e is None, repr(e))
    prove("handed to the account exactly once, its id returned", len(got) == 1 and r == "the id")
    c, a, s, d = got[0]
    prove("with the code and amount given", and_(val_eq(c, code), val_eq(a, amount)))
    if ks == 2:
        prove("with the style given", s is kw["style"])
    else:
        cover("defaults")
        prove("a missing style means a market order", isinstance(s, O.MarketOrderStyle))
    prove("with the side given, long if missing", d is (O.OrderSide.short if kd == 3 else O.OrderSide.long))


@harness("a malformed order is refused and submits nothing", covers=["code", "amount zero", "amount type", "style", "side"])
def refused(I):
    got, O, Bad = setting(I)
    k = choose(5)
    code, amount, style, side = wf_code(), 100, None, "long"
    if k == 0:
        cover("code")
        code = bad_code()
        amount = fresh_int("amount")
    elif k == 1:
        cover("amount zero")
        amount = 0
        side = ("long", "short")[choose(2)]
        style = in_style(I)[0] if choose(2) else None
    elif k == 2:
        cover("amount type")
        amount = [fresh_real("x"), "100", None, 2.0, fresh_str("s")][choose(5)]
    elif k == 3:
        cover("style")
        amount = fresh_int("amount")
        p = fresh_real("p")
        style = [I.call(O.OrderStyle, [p]), "limit", 9, O.LimitOrderStyle][choose(4)]
    else:
        cover("side")
        amount = fresh_int("amount")
        side = fresh_str("bad_side", nonempty=True)
        for m in O.OrderSide:
            assume(not_(val_eq(side, m.value)))
    r, e = catch(I, api(I).order, code, amount, style, side)
    prove("a malformed order is refused with an error", isinstance(e, Bad))
    prove("a malformed order reaches nobody", got == [])
