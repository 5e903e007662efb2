# -*- coding: utf-8 -*-
"""series of balance reports (zero and missing cash figures, both sides, side as name, member or absent, optional fields,
positions coming and going, gate errors, reports without cash or positions); the account after each against the report"""
from rt.acc import *


def generate(tier, rng):
    for k in range(250 if tier == "quick" else 5000):
        reps = []
        for _ in range(rng.randint(1, 5)):
            x = rng.random()
            if x < .12:
                reps.append({"fail": rand_error(rng)})
                continue
            r = {"cash": {n: rng.choice([0, 0, 10.5, 2000, 99.75, -310.25]) for n in ("total_asset", "available_cash", "locked_cash")},
                 "positions": []}
            seen = set()
            for _ in range(rng.randint(0, 5)):
                c, s = rng.choice(CODES), rng.choice([None, "long", "short", "@long", "@short"])
                if (c, (s or "long").strip("@")) in seen:
                    continue
                seen.add((c, (s or "long").strip("@")))
                n = rng.choice([100, 500, 0])
                p = {"code": c, "amount": n, "available_amount": rng.choice([0, n, 50]), "avg_cost": rng.choice([0, 9.25, 3])}
                if s:
                    p["side"] = s
                if rng.random() < .6:
                    p["last_price"] = rng.choice([0, 9.5])
                if rng.random() < .6:
                    p["position_value"] = rng.choice([0, 950.0])
                r["positions"].append(p)
            if x > .9:
                r.pop(rng.choice(["cash", "positions"]))
            reps.append(r)
        yield "sync", {"reports": reps}


def sync(inp):
    w = World()
    cash = (w.acc.total_assert, w.acc.available_cash, w.acc.locked_cash)
    pos = {"long": {}, "short": {}}
    for r in inp["reports"]:
        w.gate.fail = {"sync_balance": [r.get("fail")]}
        rep = {k: v for k, v in r.items() if k != "fail"}
        ps = []
        for p in rep.get("positions", ()):
            p = dict(p)
            if p.get("side", "").startswith("@"):
                p["side"] = w.order.OrderSide[p["side"][1:]]
            ps.append(p)
        if "positions" in rep:
            rep["positions"] = ps
        w.gate.balance_reply = rep
        q, v = outcome(w.api.sync_balance)
        require(q == "ok", "the sync raised %r", v)
        if not r.get("fail") and "cash" in r and "positions" in r:
            cash = tuple(r["cash"][n] for n in ("total_asset", "available_cash", "locked_cash"))
            pos = {"long": {}, "short": {}}
            for p in r["positions"]:
                s = p.get("side", "long").strip("@")
                pos[s][p["code"]] = (p["code"], p["amount"], p["available_amount"], p["amount"] - p["available_amount"],
                                     p["avg_cost"], s, p.get("last_price"), p.get("position_value"))
        got = (w.acc.total_assert, w.acc.available_cash, w.acc.locked_cash)
        require(got == cash, "cash figures are %r instead of %r", got, cash)
        require(w.positions() == pos, "positions are %r instead of %r", w.positions(), pos)


CASES = {"sync": sync}
