# -*- coding: utf-8 -*-
"""random order books; queries with every combination of id (known, unknown, number), code (held, not held, malformed) and
status (name, status value, unknown), against a plain filter over the book"""
from rt.acc import *


# the same digits on both exchanges, codes that begin or end with another one
MANY = CODES + ["000001.XSHG", "600000.XSHE", "6000001.XSHG", "1600000.XSHG", "00001.XSHE"]


def generate(tier, rng):
    for k in range(250 if tier == "quick" else 6000):
        n = rng.choice([0, 1, 3, 6, 9])
        inp = {"orders": [dict(rand_order(rng, i + 10), code=rng.choice(MANY), order_id=rng.choice(["", "1", "10"]) + str(i + 10)) for i in range(n)], "queries": []}
        for _ in range(6):
            q = {}
            if rng.random() < .4:
                q["order_id"] = rng.choice(["10", "12", 11, "1", "99", "0", "110", "1012"])
            if rng.random() < .5:
                q["code"] = rand_code(rng) if rng.random() < .4 else rng.choice(MANY)
            if rng.random() < .5:
                q["status"] = rng.choice(STATUS + ["@" + s for s in STATUS] + ["done", "NEW", "finished"])
            inp["queries"].append(q)
        yield "query", inp


def query(inp):
    w = World()
    orders = [w.put(d) for d in inp["orders"]]
    before = w.book()
    for q in inp["queries"]:
        kw = dict(q)
        st = q.get("status")
        if st and st.startswith("@"):
            st = st[1:]
            kw["status"] = w.order.OrderStatus[st]
        bad = ("code" in q and not CODE_OK.fullmatch(q["code"])) or (st and st not in STATUS)
        r, v = outcome(w.api.get_orders, **kw)
        if bad:
            require(r == "raise" and isinstance(v, w.InvalidParam), "malformed condition %r gives %r", q, v)
            continue
        require(r == "ok", "query %r raised %r", q, v)
        exp = {o.order_id for o in orders if ("order_id" not in q or o.order_id == str(q["order_id"])) and (
            "code" not in q or o.code == q["code"]) and (not st or o.status.value == st)}
        require(set(v) == exp, "query %r returned %r instead of %r", q, sorted(v), sorted(exp))
        for k, u in v.items():
            s = before[k]
            require(not diff(user_order(u), expect_user(s)), "order %s is shown as %r", k, diff(user_order(u), expect_user(s)))
    require(w.book() == before, "the query changed the book")
    require(not w.gate.calls, "the query called the gate")


CASES = {"query": query}
