# -*- coding: utf-8 -*-
"""arbitrary accounts, orders, positions and trade gates for the account contracts"""
from pv.api import *

FIELDS = ("code", "price", "amount", "action", "order_id", "status", "style", "create_time", "entrust_time", "side",
          "confirm_id", "filled_amount", "canceled_amount", "deal_balance", "avg_cost", "commission", "err_msg")


def ifun(name, i, lo=None, hi=None):
    f = z3.Function(name, z3.IntSort(), z3.IntSort())
    t = f(iterm(i))
    if lo is not None:
        fact(t >= lo)
    if hi is not None:
        fact(t <= hi)
    return mkint(t)


def rfun(name, i, lo=None):
    f = z3.Function(name, z3.IntSort(), z3.RealSort())
    t = f(iterm(i))
    if lo is not None:
        fact(t >= lo)
    return mkreal(t)


def ofun(name, i, **kw):
    f = z3.Function(name, z3.IntSort(), OBJ)
    return Opaque(f(iterm(i)), **dict({"truth": True}, **kw))


def efun(name, i, cls):
    m = list(cls)
    return SymEnum(cls, iterm(ifun(name, i, 0, len(m) - 1)), m)


def order_fields(I, tag, i, **given):
    """field values of the i-th order of an arbitrary family, as Order() takes them"""
    O = I.import_module("jqtrade.account.order")
    f = {
        "code": str_fun(tag + "_code", i), "price": rfun(tag + "_price", i), "amount": ifun(tag + "_amount", i, 1),
        "action": efun(tag + "_action", i, O.OrderAction), "order_id": str_fun(tag + "_id", i, nonempty=True),
        "status": efun(tag + "_status", i, O.OrderStatus), "style": ofun(tag + "_style", i, cls=O.LimitOrderStyle),
        "create_time": SymDT(ifun(tag + "_ctime", i, 365 * D, 47000 * D)),
        "entrust_time": SymDT(ifun(tag + "_etime", i, 365 * D, 47000 * D)),
        "side": efun(tag + "_side", i, O.OrderSide), "confirm_id": str_fun(tag + "_confirm", i),
        "filled_amount": ifun(tag + "_filled", i, 0), "canceled_amount": ifun(tag + "_canceled", i, 0),
        "deal_balance": rfun(tag + "_deal", i), "avg_cost": rfun(tag + "_avg", i), "commission": rfun(tag + "_comm", i),
        "err_msg": str_fun(tag + "_err", i),
    }
    f.update(given)
    return f


def make_order(I, fields):
    O = I.import_module("jqtrade.account.order")
    return I.call(O.Order, [], dict(fields))


class Book(object):
    """an order book of unknown size: the i-th entry has key id(i) and an order with arbitrary fields and that id"""

    def __init__(self, I, d, tag="book"):
        self.I, self.tag = I, tag
        self.n = fresh_int(tag + "_n", 0)
        self.map = SymMap(tag, self.n, lambda i: self.fields(i)["order_id"], lambda i: make_order(I, self.fields(i)))
        d._set([self.map])
        self.d = d

    def fields(self, i):
        return order_fields(self.I, self.tag, i)

    def entry(self, i):
        return self.map.root_seg().get(i)


def context(I, **kw):
    C = I.import_module("jqtrade.scheduler.context")
    a = dict(task_name="task", event_bus=None, loop=None, scheduler=None, loader=None, debug=False, config=None, out=None,
             start=fresh_dt("start"))
    a.update(kw)
    return I.call(C.Context, [], a)


def account(I, gate=None, **kw):
    """a new account on a trade gate, in use"""
    ctx = context(I, **kw)
    A = I.import_module("jqtrade.account.account")
    I.setattr(ctx, "use_account", True)
    I.setattr(ctx, "trade_gate", gate)
    acc = I.call(A.Account, [ctx])
    I.setattr(ctx, "account", acc)
    P = I.import_module("jqtrade.account.portfolio")
    I.setattr(ctx, "portfolio", I.call(P.Portfolio, [acc]))
    return ctx, acc


def api(I):
    return I.import_module("jqtrade.account.api")


def book_of(I, acc, tag="book"):
    d = I.getattr(acc, "orders")
    if not isinstance(d, PDict) or d.entries:
        raise Unsupported("the account's order book is not one empty dictionary to start with")
    return Book(I, d, tag)


def same_fields(I, order, f, names, what):
    for n in names:
        prove("%s: %s" % (what, n), val_eq(I.getattr(order, n), f[n]))


class Gate(object):
    """a trade gate of arbitrary behaviour"""


def in_style(I):
    O = I.import_module("jqtrade.account.order")
    p = fresh_real("price")
    k = choose(2)
    return I.call((O.MarketOrderStyle, O.LimitOrderStyle)[k], [p]), p, k == 0


def wf_code(name="code"):
    """a well-formed code: digits and an exchange"""
    return mk([Atom(name, z3.String(eng().fresh_name(name)), "", True, True, "digits"), (".XSHE", ".XSHG")[choose(2)]])


BAD_CODES = ["600000XSHE", "600000", ".XSHE", "6000.00.XSHG", "600000.xshg", "600000.XSHE ", "600000.XSHG.XSH", "a00000.XSHE",
             " 600000.XSHG", "-600000.XSHG", "XSHE", "", "600000.", "600000.SZ", "600000-XSHG", "6e5.XSHE"]


def bad_code():
    """a code that is malformed: digits followed by an arbitrary wrong exchange suffix of five characters, an arbitrary
    first part that has a non-digit, or one of a list of near misses"""
    k = choose(len(BAD_CODES))
    if k == 0:
        t = z3.String(eng().fresh_name("suffix"))
        a = Atom("suffix", t, "", True, False, None)
        fact(z3.Length(t) == 5)
        assume(z3.And(t != ".XSHE", t != ".XSHG"))
        return mk([Atom("digits", z3.String(eng().fresh_name("digits")), "", True, True, "digits"), a])
    return [c for c in BAD_CODES if c][k - 1]
