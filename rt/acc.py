# -*- coding: utf-8 -*-
"""an account on a recording trade gate, built through the package's own classes"""
import datetime

from rt.common import *

STATUS = ["new", "open", "filling", "filled", "canceling", "partly_canceled", "canceled", "rejected"]
CODES = ["600000.XSHG", "000001.XSHE", "510300.XSHG", "300750.XSHE"]
FIELDS = ["code", "price", "amount", "action", "order_id", "status", "style", "create_time", "entrust_time", "side",
          "confirm_id", "filled_amount", "canceled_amount", "deal_balance", "avg_cost", "commission", "err_msg"]


class GateError(Exception):
    pass


class FalsyError(Exception):
    def __len__(self):
        return 0


ERROR_KINDS = ["", "", "ValueError", "OSError", "TimeoutError", "ConnectionError", "ConnectionResetError", "RuntimeError",
               "TypeError", "AttributeError", "LookupError", "PermissionError", "FileNotFoundError", "FalsyError", "TimeOut",
               "InvalidParam", "InternalError", "AssertionError", "StopIteration", "NotImplementedError"]


def rand_error(rng, text="down"):
    """an error a gate may raise, as <class>|<message>"""
    return rng.choice(ERROR_KINDS) + "|" + text


def gate_error(e):
    k, _, text = e.rpartition("|")
    c = {"": GateError, "FalsyError": FalsyError}.get(k) or getattr(__import__("builtins"), k, None)
    return (c or getattr(mod("common.exceptions"), k, GateError))(text)


class Gate(object):
    """a trade gate that records every call; `fail` has, by name, the errors to raise on successive calls"""

    def __init__(self, mods):
        self.calls = []
        self.fail = {}
        self.orders_reply, self.balance_reply = [], None
        self.order_reply = None

    def _do(self, name, *a):
        self.calls.append((name,) + a)
        f = self.fail.get(name)
        if f:
            e = f.pop(0)
            if e:
                raise gate_error(e)

    def setup(self, options):
        self._do("setup", options)

    def order(self, sys_order):
        o = self._do("order", sys_order)
        self.calls[-1] = self.calls[-1] + (snap(sys_order),)
        # what the gate returns is of no account
        return self.order_reply(self, o) if self.order_reply else o

    def cancel_order(self, order_id):
        self._do("cancel_order", order_id)

    def sync_balance(self):
        self._do("sync_balance")
        import copy
        return copy.deepcopy(self.balance_reply)

    def sync_orders(self):
        self._do("sync_orders")
        import copy
        return copy.deepcopy(self.orders_reply)

    def of(self, name):
        return [c for c in self.calls if c[0] == name]


def snap(o):
    """the observable fields of an order"""
    d = {}
    for k in FIELDS:
        v = getattr(o, k)
        if k in ("action", "status", "side"):
            v = v.value if v is not None else None
        elif k == "style":
            v = (v.value, v.price) if v is not None else None
        d[k] = v
    return d


class World(object):
    def __init__(self, start=None, **ctx):
        fresh()
        self.api = mod("account.api")
        self.order = mod("account.order")
        self.InvalidParam = mod("common.exceptions").InvalidParam
        C = mod("scheduler.context")
        a = dict(task_name="task", event_bus=None, loop=None, scheduler=None, loader=None, debug=False, config=None,
                 out=None, start=start or datetime.datetime(2024, 3, 5, 9, 0))
        a.update(ctx)
        self.ctx = C.Context(**a)
        self.gate = Gate(self)
        self.ctx.use_account = True
        self.ctx.trade_gate = self.gate
        self.acc = mod("account.account").Account(self.ctx)
        self.ctx.account = self.acc
        self.ctx.portfolio = mod("account.portfolio").Portfolio(self.acc)

    def make(self, d):
        return self.order.Order.load(**order_args(d))

    def put(self, d):
        """an order in the book"""
        o = self.make(d)
        self.acc.orders[o.order_id] = o
        return o

    def book(self):
        return {k: snap(v) for k, v in self.acc.orders.items()}

    def style(self, s):
        if s is None:
            return None
        return (self.order.LimitOrderStyle if s[0] == "limit" else self.order.MarketOrderStyle)(s[1])

    def pos(self, code, amount, avail, side="long", cost=1.5, **kw):
        P = mod("account.position").Position
        side = self.order.OrderSide.get_side(side)
        p = P(code=code, amount=amount, available_amount=avail, avg_cost=cost, side=side, **kw)
        (self.acc.long_positions if side == self.order.OrderSide.long else self.acc.short_positions)[code] = p
        return p

    def positions(self):
        return {s: {c: (p.code, p.amount, p.available_amount, p.locked_amount, p.avg_cost, p.side.value, p.last_price,
                        p.position_value) for c, p in getattr(self.acc, s + "_positions").items()} for s in (
            "long", "short")}


def order_args(d):
    a = dict(d)
    for k in ("create_time", "entrust_time"):
        if isinstance(a.get(k), str):
            a[k] = datetime.datetime.fromisoformat(a[k])
    return a


def rand_order(rng, i, full=True):
    d = {"code": rng.choice(CODES), "price": rng.choice([0, 9.87, 12, 100.5]), "amount": rng.choice([1, 100, 2500]),
         "action": rng.choice(["open", "close"]), "order_id": str(i), "status": rng.choice(STATUS),
         "style": rng.choice(["market", "limit"]), "create_time": "2024-03-05 09:3%d:01.%06d" % (i % 10, rng.randint(0, 999999)),
         "side": rng.choice(["long", "long", "short"])}
    if full:
        d.update({"entrust_time": rng.choice([None, "2024-03-05 09:31:07"]), "confirm_id": rng.choice([None, "", "A%d" % i]),
                  "filled_amount": rng.choice([0, 0, 50, 100]), "canceled_amount": rng.choice([0, 0, 20]),
                  "deal_balance": rng.choice([0, 512.5]), "avg_cost": rng.choice([None, 0, 9.5]),
                  "commission": rng.choice([0, 1.25]), "err_msg": rng.choice(["", "bad"])})
    return d


def user_order(u):
    return {k: getattr(u, k) for k in ("code", "status", "side", "order_price", "amount", "filled_amount", "avg_price",
                                       "action", "order_id", "commission", "err_msg", "canceled_amount", "create_time",
                                       "entrust_time", "deal_balance")}


def expect_user(s):
    return {"code": s["code"], "status": s["status"], "side": s["side"], "order_price": s["price"], "amount": s["amount"],
            "filled_amount": s["filled_amount"], "avg_price": s["avg_cost"], "action": s["action"],
            "order_id": s["order_id"], "commission": s["commission"], "err_msg": s["err_msg"],
            "canceled_amount": s["canceled_amount"], "create_time": s["create_time"], "entrust_time": s["entrust_time"],
            "deal_balance": s["deal_balance"]}


def diff(a, b):
    return {k: (a.get(k), b.get(k)) for k in set(a) | set(b) if a.get(k) != b.get(k)}


CODE_OK = __import__("re").compile(r"[0-9]+\.(XSHE|XSHG)", __import__("re").ASCII)
BAD_CODES = ["600000XSHE", "600000", ".XSHE", "6000.00.XSHG", "600000.xshg", "600000.XSHE ", "600000.XSHG.XSH",
             "a00000.XSHE", " 600000.XSHG", "-600000.XSHG", "XSHE", "600000.", "600000.SZ", "600000-XSHG", "6e5.XSHE",
             "600000.XSHE\n", "600000.XSH", "600000.XSHEX", "600000..XSHE", "+60000.XSHG", "60 000.XSHG", "600000,XSHG"]


def rand_code(rng):
    x = rng.random()
    if x < .5:
        return rng.choice(CODES + ["1.XSHE", "00000000001.XSHG"])
    if x < .8:
        return rng.choice(BAD_CODES)
    return "".join(rng.choice("0123456789.XSHEGxa -") for _ in range(rng.randint(1, 12)))
