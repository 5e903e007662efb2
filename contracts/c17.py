# -*- coding: utf-8 -*-
"""C17: broker order and cancel lines say exactly what was ordered."""
from pv.api import *
from pv.strings import to_str as I_str, sym_endswith
from contracts.acc import order_fields, make_order, in_style, wf_code
from contracts.gate import *


class Dir(Disk):
    """the order directory is there; nothing is stored from before; the files have any content"""

    def directory(self, path):
        return True if path in ("/orders", "/runtime/data", "/runtime") else None

    def new(self, path):
        f = File(path, False, 0)
        p = path.parts[0] if isinstance(path, SymStr) else path
        if isinstance(p, str) and p.startswith("/orders"):
            return Disk.new(self, path)
        return f


def options(I, given, missing=False):
    """every option may be given"""
    counter, algo = "UM0", "DMA"
    if missing:
        account = None
        k = choose(3)
        if k:
            given["account_no"] = (None, "")[k - 1]
    else:
        account = given["account_no"] = (fresh_str("account", excl=",\n\r", nonempty=True), fresh_int("account_no", 1))[choose(2)]
    supported = True
    if choose(2):
        counter = given["counter_type"] = fresh_str("counter", excl=",\n\r", nonempty=True)
        algo = given["algo_type"] = fresh_str("algo", excl=",\n\r", nonempty=True)
        t = given["account_type"] = fresh_str("account_type")
        supported = val_eq(t, "STOCK")
    return account, counter, algo, supported


def broker(disk):
    return [f for f in disk.files if f.added and isinstance(f.path, SymStr) and str(f.path.parts[0]).startswith("/orders")]


def an_order(I, code):
    O = I.import_module("jqtrade.account.order")
    style, price, market = in_style(I)
    action = (O.OrderAction.open, O.OrderAction.close)[choose(2)]
    f = order_fields(I, "o", 0, code=code, style=style, price=price, action=action, amount=fresh_int("amount"),
                     order_id=fresh_str("order_id", excl=",\n\r", nonempty=True))
    return make_order(I, f), f, market, action is O.OrderAction.open


def world(I, missing=False):
    disk, given = Dir(), {}
    o = options(I, given, missing)
    g = G(I, disk, **given)
    r, e = g.setup()
    prove("the gate is set up", e is None, repr(e))
    return (g, disk) + o


@harness("orders to be refused", covers=["no account", "account type", "short", "exchange"])
def refused(I):
    reason = choose(4)
    g, disk, account, counter, algo, supported = world(I, reason == 0)
    O = I.import_module("jqtrade.account.order")
    code = "600000.XSHE"
    if reason == 3:
        suffix = mk([Atom("suffix", z3.String("suffix"), ",\n\r", True, False, None)])
        code = mk([Atom("digits", z3.String("digits"), "", True, True, "digits"), ".", suffix])
        assume(not_(sym_endswith(code, "XSHE")))
        assume(not_(sym_endswith(code, "XSHG")))
    o, f, market, buy = an_order(I, code)
    if reason == 1:
        assume(not_(supported))
    if reason == 2:
        assume(val_eq(f["side"], O.OrderSide.short))
    r, e = catch(I, g.method("order"), o)
    cover(("no account", "account type", "short", "exchange")[reason])
    prove("the order is refused", isinstance(e, Exception))
    prove("and nothing is written", not broker(disk))


@harness("any order", covers=["market buy", "market sell", "limit", "header", "no header"])
def ordered(I):
    g, disk, account, counter, algo, supported = world(I)
    assume(supported)
    O = I.import_module("jqtrade.account.order")
    code = wf_code()
    o, f, market, buy = an_order(I, code)
    assume(val_eq(f["side"], O.OrderSide.long))
    price = I.getattr(f["style"], "price")
    c = readings()
    r, e = catch(I, g.method("order"), o)
    out = broker(disk)
    prove("the order is written", e is None, repr(e))
    cover("limit" if not market else "market buy" if buy else "market sell")
    prove("one of the broker's files is written", len(out) == 1)
    prove("the date's order file", val_eq(out[0].path, g.path("algoOrder")))
    text = mk(out[0].added)
    digits = code.parts[0]
    security = mk([digits, ".SZ" if code.parts[-1] == ".XSHE" else ".SH"])
    kind, lo, hi = ("P6" if buy else "P7", "0", "0") if market else ("AT", I_str(price), I_str(price))

    def line(us):
        cols = [stamp(us), f["order_id"], counter, I_str(account), security, "1" if buy else "2", I_str(abs(f["amount"])), algo,
                kind, "0", lo, hi]
        out = []
        for x in cols:
            out += [",", x] if out else [x]
        return out + ["\n"]
    head = [ORDER_HEADER + "\n"] if truth(out[0].start == 0) else []
    cover("header" if head else "no header")
    prove("the line says what was ordered", some(*[val_eq(text, mk(head + line(us))) for us in c.seen]),
          "%r is not like %r" % (text, mk(head + line(c.seen[0]))))


@harness("any cancellation", covers=["cancel", "header", "no header"])
def canceled(I):
    g, disk = world(I)[:2]
    oid = fresh_str("order_id", excl=",\n\r", nonempty=True)
    c = readings()
    r, e = catch(I, g.method("cancel_order"), oid)
    prove("the cancellation is written", e is None, repr(e))
    cover("cancel")
    out = broker(disk)
    prove("one of the broker's files is written", len(out) == 1)
    prove("the date's cancel file", val_eq(out[0].path, g.path("algoOrderStop")))
    head = [CANCEL_HEADER + "\n"] if truth(out[0].start == 0) else []
    cover("header" if head else "no header")
    prove("the line has the time and the order's id", some(*[val_eq(mk(out[0].added), mk(head + [stamp(us), ",", oid, "\n"]))
                                                            for us in c.seen]))
