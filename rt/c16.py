# -*- coding: utf-8 -*-
"""histories of orders (all styles, sides, signs; some failing at the gate) on books that already hold orders, with an id
source that repeats ids already in use; submissions, returned ids and the book are compared with what was asked for"""
from rt.acc import *


MSG = ["no funds", "timeout", "资金不足", "x" * 101, "long message " * 60, "two\nlines", "", " padded ", "100%s {}"]


def generate(tier, rng):
    for k in range(250 if tier == "quick" else 5000):
        pool = [rng.randint(1, 12) for _ in range(80)]
        yield "orders", {"book": [rand_order(rng, i) for i in rng.sample(range(1, 7), rng.randint(0, 4))], "ids": pool if k % 3 else None,
                         "pos": [[rng.choice(CODES), rng.choice(["long", "short"]), rng.choice([0, 50, 100, 300])] for _ in range(3)],
                         "orders": [{"code": rng.choice(CODES), "amount": rng.choice([1, -1]) * rng.choice([1, 100, 2500]),
                                     "style": [rng.choice(["market", "limit"]), rng.choice([0, 9.87, 15])],
                                     "side": rng.choice(["long", "short"]), "direct": rng.random() < .4,
                                     "reply": rng.choice([None, None, False, True, 0, "x", ""]),
                                     "fail": rng.choice([None, None, rand_error(rng, rng.choice(MSG))])} for _ in range(rng.randint(1, 5))]}


def orders(inp):
    w = World()
    for d in inp["book"]:
        w.put(d)
    for c, s, n in inp["pos"]:
        w.pos(c, n, n, s)
    A = mod("account.account")
    import uuid

    class U(object):
        def __init__(self, i):
            self.int = i
            self.hex = "%032x" % i

        def __int__(self):
            return self.int

        def __str__(self):
            return self.hex
    real = uuid.uuid4
    pool = iter(list(inp["ids"] or []) + list(range(100, 200)))
    if inp["ids"]:
        uuid.uuid4 = lambda: U(next(pool))
    try:
        used = set()
        for o in inp["orders"]:
            before = w.book()
            w.gate.calls = []
            w.gate.fail = {"order": [o["fail"]]}
            w.gate.order_reply = lambda g, x, v=o["reply"]: v
            style = w.style(o["style"])
            if o["direct"]:
                r, v = outcome(w.acc.order, o["code"], o["amount"], style, w.order.OrderSide[o["side"]])
            else:
                r, v = outcome(w.api.order, o["code"], o["amount"], style=style, side=o["side"])
            require(r == "ok", "order raised %r", v)
            sent = w.gate.of("order")
            require(len(sent) == 1 and len(w.gate.calls) == 1, "the gate was called %r", [c[0] for c in w.gate.calls])
            so = sent[0][1]
            after = w.book()
            oid = so.order_id
            require(isinstance(oid, str) and oid and oid not in before, "the new order's id %r is already in the book", oid)
            require({k: x for k, x in after.items() if k != oid} == before, "other orders of the book changed")
            require(oid in after, "the order is not in the book under its id")
            exp = {"code": o["code"], "amount": abs(o["amount"]), "action": "open" if o["amount"] > 0 else "close",
                   "price": o["style"][1], "style": tuple(o["style"]), "side": o["side"], "order_id": oid}
            b = after[oid]
            require(not {k for k in exp if b[k] != exp[k]}, "the book has %r instead of %r", {k: b[k] for k in exp}, exp)
            if o["fail"]:
                require(not v, "a failed order returned an id %r", v)
                require(b["status"] == "rejected", "a failed order is left as %r", b["status"])
                require(b["err_msg"] == str(gate_error(o["fail"])), "a failed order's message is %r", b["err_msg"])
            else:
                require(v == oid, "returned %r for order %r", v, oid)
                s = sent[0][2]
                require(not {k for k in exp if s[k] != exp[k]}, "submitted %r instead of %r", {k: s[k] for k in exp}, exp)
                require(s["status"] == "new", "submitted in status %r", s["status"])
                require(w.acc.orders[oid] is so or b == s, "the book holds another order than the one submitted")
            used.add(oid)
    finally:
        uuid.uuid4 = real


CASES = {"orders": orders}
