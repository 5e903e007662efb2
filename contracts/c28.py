# -*- coding: utf-8 -*-
"""C28: the account interface is available exactly when the account is in use."""
from pv.api import *
from contracts.sched import *


class World(object):
    def __init__(self, I, options, gate="my.gates.G1", setup_account=None, before=None, before_gate="my.gates.G1"):
        w = self
        self.I = I
        self.calls = []
        self.made = []
        self.error = None

        class G1(object):
            def __init__(self):
                w.made.append(self)

            def setup(self, o):
                w.calls.append(("setup", self, o))

            def order(self, o):
                w.calls.append(("order", self, o))

            def cancel_order(self, i):
                w.calls.append(("cancel_order", self, i))

            def sync_balance(self):
                w.calls.append(("sync_balance", self))
                return PDict({"cash": PDict(), "positions": PList([])})

            def sync_orders(self):
                w.calls.append(("sync_orders", self))
                return PList([])
        class G0(G1):
            pass
        self.G0, self.G1 = G0, G1
        eng().ghost["on_import"] = lambda n: Module(G1=G1, G0=G0) if n == "my.gates" else self.lost(n)
        c = I.import_module("jqtrade.account.config").get_config()
        I.setattr(c, "TRADE_GATE", gate)
        if setup_account is not None:
            I.setattr(I.import_module("jqtrade.scheduler.config").get_config(), "SETUP_ACCOUNT", setup_account)

        def init(m):
            if before is not None:
                I.setattr(c, "TRADE_GATE", before_gate)
                I.call(m.set_options, [], dict(before))
                del w.calls[:]
                del w.made[:]
                I.setattr(c, "TRADE_GATE", gate)
            I.call(m.set_options, [], dict(options))
        dt.clock()
        self.ctx, self.s, self.m = strategy(I, init)
        r, self.error = catch(I, I.getattr(self.s, "setup"))

    def lost(self, n):
        raise ImportError(n)


USES = ("account", "trade_gate", "portfolio", "user portfolio", "order", "cancel", "query", "sync balance", "sync orders",
        "batch", "batch cancel")


def use(I, w, k):
    a = api(I)
    x = USES[k]
    if x in ("account", "trade_gate", "portfolio"):
        return catch(I, lambda: I.getattr(w.ctx, x))
    if x == "user portfolio":
        return catch(I, lambda: I.getattr(w.m.context, "portfolio"))
    if x == "order":
        return catch(I, a.order, "600000.XSHG", 100)
    if x == "cancel":
        return catch(I, a.cancel_order, fresh_str("oid"))
    if x == "query":
        return catch(I, a.get_orders)
    if x == "sync balance":
        return catch(I, a.sync_balance)
    if x == "sync orders":
        return catch(I, a.sync_orders)
    if x == "batch cancel":
        return catch(I, a.batch_cancel_orders, PList(["7"]))
    return catch(I, a.batch_submit_orders, PList([PDict({"code": "600000.XSHG", "amount": 100})]))


@harness("account switched off", covers=["option", "default", "switched off again"] + list(USES))
def off(I):
    how = choose(3)
    if how == 0:
        w = World(I, {"use_account": (False, 0, None, "")[choose(4)], "account_no": fresh_str("no")})
        cover("option")
    elif how == 1:
        w = World(I, {}, setup_account=False)
        cover("default")
    else:
        w = World(I, {"use_account": False}, before={"account_no": "1", "sync_balance": False, "sync_order": False})
        cover("switched off again")
    prove("the set-up succeeds", w.error is None, repr(w.error))
    prove("no trade gate is created or used", w.made == [] and w.calls == [])
    k = choose(len(USES))
    cover(USES[k])
    r, e = use(I, w, k)
    if USES[k] == "batch":
        prove("a batch entry is not submitted", e is not None or seq_parts(r) == [None])
    else:
        prove("every access is refused with an error", e is not None)
    prove("nothing is submitted", w.calls == [])


@harness("account switched on", covers=["used", "no account number", "no gate", "gate not importable", "synced"])
def on(I):
    opts = {"account_no": fresh_str("account_no")}
    k = choose(3)
    if k == 0:
        opts["use_account"] = (True, 1, "yes")[choose(3)]
    setup_account = True if k else fresh_bool("setup_account")
    syncs = choose(2)
    opts.update(sync_balance=bool(syncs), sync_order=bool(syncs), sync_internal=43200)
    miss = choose(4)
    gate = "my.gates.G1"
    if miss == 1:
        del opts["account_no"]
    elif miss == 2:
        gate = (None, "")[choose(2)]
    elif miss == 3:
        gate = ("other.gates.G1", "my.gates.G2", "G1")[choose(3)]
    w = World(I, opts, gate, setup_account)
    if miss:
        cover(("no account number", "no gate", "gate not importable")[miss - 1])
        prove("refused with an error", w.error is not None)
        prove("nothing is submitted", not any(c[0] == "order" for c in w.calls))
        return
    prove("the set-up succeeds", w.error is None, repr(w.error))
    prove("one gate is created", len(w.made) == 1)
    g = w.made[0]
    prove("it is set up, once, before anything else", w.calls[:1] != [] and w.calls[0][0] == "setup" and
          [c[0] for c in w.calls].count("setup") == 1)
    o = w.calls[0][2]
    prove("with the options given", and_(val_eq(o.find("account_no")[1], opts["account_no"]), o.find("sync_balance")[1] is bool(syncs)))
    if syncs:
        cover("synced")
    del w.calls[:]
    prove("the account is there", I.getattr(w.ctx, "account") is not None)
    prove("the gate in use is the one created", I.getattr(w.ctx, "trade_gate") is g)
    prove("the portfolio is there", I.getattr(w.ctx, "portfolio") is not None and
          I.getattr(w.m.context, "portfolio") is I.getattr(w.ctx, "portfolio"))
    r, e = catch(I, api(I).order, "600000.XSHG", 100)
    prove("an order reaches that gate", e is None and len(w.calls) == 1 and w.calls[0][:2] == ("order", g))
    cover("used")
    r, e = catch(I, api(I).sync_balance)
    r, e2 = catch(I, api(I).sync_orders)
    prove("syncs reach that gate", e is None and e2 is None and [c[:2] for c in w.calls[1:]] == [
        ("sync_balance", g), ("sync_orders", g)])


@harness("options set twice", covers=["another gate", "the same gate"])
def twice(I):
    o = {"sync_balance": False, "sync_order": False}
    k = choose(2)
    cover(("another gate", "the same gate")[k])
    no = fresh_str("account_no")
    w = World(I, dict(o, account_no=no), before=dict(o, account_no="1"), before_gate=("my.gates.G0", "my.gates.G1")[k])
    prove("the set-up succeeds", w.error is None, repr(w.error))
    del w.calls[:]
    r, e = catch(I, api(I).order, "600000.XSHG", 100)
    prove("orders reach one gate", e is None and len(w.calls) == 1 and w.calls[0][0] == "order")
    prove("which is the one configured when the options were set last", type(w.calls[0][1]) is w.G1)
