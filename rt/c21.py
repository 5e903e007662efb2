# -*- coding: utf-8 -*-
"""order books synchronised with series of reports: new orders, changed and unchanged ones, local orders not reported, ids as
numbers, errors of the gate; the book after each sync and the snapshots taken before it"""
from rt.acc import *

KEY = ["status", "confirm_id", "filled_amount", "canceled_amount", "deal_balance", "avg_cost", "commission"]


def generate(tier, rng):
    for k in range(250 if tier == "quick" else 5000):
        reps = []
        state = {}
        for _ in range(rng.randint(1, 4)):
            if rng.random() < .15:
                reps.append(rand_error(rng))
                continue
            rep = []
            for i in rng.sample(range(8), rng.randint(0, 6)):
                if i in state and rng.random() < .7:
                    d = dict(state[i])
                    for f in rng.sample(KEY + ["err_msg", "entrust_time"], rng.randint(0, 2)):
                        d[f] = rand_order(rng, i)[f]
                else:
                    d = rand_order(rng, i, full=rng.random() < .8)
                state[i] = d
                rep.append(dict(d))
            reps.append(rep)
        local = [rand_order(rng, i, full=False) for i in rng.sample(range(10), rng.randint(0, 4))]
        for d in local:
            d["status"] = "new"
        yield "sync", {"local": local, "reports": reps, "num": rng.random() < .2, "members": rng.random() < .2}


def reported(w, d, inp):
    """the report of the gate: ids as numbers, members instead of names, on demand"""
    a = order_args(d)
    if inp["num"]:
        a["order_id"] = int(a["order_id"])
    if inp["members"]:
        O = w.order
        a.update(status=O.OrderStatus[a["status"]], action=O.OrderAction[a["action"]], side=O.OrderSide[a["side"]])
    return a


def as_shown(d):
    a = order_args(d)
    for n, v in (("entrust_time", None), ("confirm_id", None), ("filled_amount", 0), ("canceled_amount", 0), ("deal_balance", 0),
                 ("avg_cost", None), ("commission", 0), ("err_msg", "")):
        a.setdefault(n, v)
    a["style"] = (a["style"], a["price"])
    return a


def sync(inp):
    w = World()
    for d in inp["local"]:
        w.put(d)
    for rep in inp["reports"]:
        before = w.book()
        held = {k: (u, user_order(u)) for k, u in w.api.get_orders().items()}
        fail = isinstance(rep, str)
        w.gate.fail = {"sync_orders": [rep if fail else None]}
        w.gate.orders_reply = [] if fail else [reported(w, d, inp) for d in rep]
        r, v = outcome(w.api.sync_orders)
        require(r == "ok", "the sync raised %r", v)
        after = w.book()
        if fail:
            require(after == before, "a failing gate changed the book: %r", diff(after, before))
            continue
        ids = {d["order_id"]: d for d in rep}
        for k in set(before) | set(after):
            if k not in ids:
                require(after.get(k) == before.get(k), "order %s is not reported and changed", k)
                continue
            require(k in after, "reported order %s is not in the book", k)
            exp = as_shown(ids[k])
            require(str(after[k]["order_id"]) == k, "the order under %s has the id %r", k, after[k]["order_id"])
            exp["order_id"] = after[k]["order_id"]
            d = {x: (after[k][x], exp[x]) for x in (KEY if k in before else FIELDS) if after[k][x] != exp[x]}
            require(not d, "order %s has %r (book, report)", k, d)
        require(set(after) == set(before) | set(ids), "the book holds %r", sorted(after))
        for k, (u, s) in held.items():
            require(user_order(u) == s, "a snapshot of order %s changed: %r", k, diff(user_order(u), s))


CASES = {"sync": sync}
