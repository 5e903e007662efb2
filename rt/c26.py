# -*- coding: utf-8 -*-
"""random account figures, positions of both sides and orders; every view field, unknown codes, views taken before and
after a change of the account"""
import math

from rt.acc import *


def generate(tier, rng):
    for k in range(200 if tier == "quick" else 4000):
        pos = []
        for c in CODES[:3]:
            for s in ("long", "short"):
                if rng.random() < .6:
                    n = rng.choice([0, 100, 500])
                    pos.append([c, n, rng.choice([0, n, n // 2]), s, rng.choice([0, 8.25, 10, 9.87654321]), rng.choice([0, 3.5, 11, 3.00049]),
                                rng.choice([0, 350.0, 1100, 0.123456])])
        yield "views", {"pos": pos, "cash": [rng.choice([0, 1000.5, 99, 0.000123]) for _ in range(3)],
                        "orders": [rand_order(rng, i) for i in range(3)], "drop": rng.random() < .5}


def views(inp):
    w = World()
    for c, n, a, s, cost, last, val in inp["pos"]:
        w.pos(c, n, a, s, cost, last_price=last, position_value=val)
    for d in inp["orders"]:
        w.put(d)
    pf = w.ctx.portfolio
    ctxs = [pf, mod("scheduler.api").UserContext(w.ctx).portfolio]
    look(w, inp, ctxs)
    # a later change of the account shows
    w.gate.balance_reply = {"cash": {"total_asset": 7.5, "available_cash": 3, "locked_cash": 4.5}, "positions": [
        {"code": "600036.XSHG", "amount": 300, "available_amount": 200, "avg_cost": 5, "last_price": 2, "position_value": 600},
        {"code": "600036.XSHG", "amount": 30, "available_amount": 20, "avg_cost": 4, "side": "short", "last_price": 2,
         "position_value": 60}]}
    w.acc.sync_balance()
    look(w, inp, ctxs)


def look(w, inp, pfs):
    a = w.acc
    for pf in pfs:
        require(pf.total_value == a.total_assert, "total_value %r, account %r", pf.total_value, a.total_assert)
        require(pf.available_cash == a.available_cash, "available_cash")
        require(pf.locked_cash == a.locked_cash, "locked_cash")
        P = w.positions()
        require(math.isclose(pf.position_value, sum(p[7] for p in P["long"].values()), rel_tol=1e-9, abs_tol=1e-9), "position_value is %r", pf.position_value)
        for s, names in (("long", ("long_positions", "positions")), ("short", ("short_positions",))):
            for nm in names:
                d = getattr(pf, nm)
                require(set(d) == set(P[s]), "%s holds %r instead of %r", nm, sorted(d), sorted(P[s]))
                for c, p in P[s].items():
                    check(d[c], c, p, s)
                for c in ("123456.XSHE", "600519.XSHG"):
                    if c in P[s]:
                        continue
                    u = d[c]
                    require((u.security, u.code, u.side) == (c, c, s), "unknown code shown as %r", (u.security, u.code, u.side))
                    z = (u.total_amount, u.closeable_amount, u.locked_amount, u.avg_cost, u.acc_avg_cost, u.last_price,
                         u.price, u.position_value, u.value)
                    require(all(x == 0 and x is not None for x in z), "an empty position shows %r", z)
                    require(c not in d and set(d) == set(P[s]), "asking for an unknown code added it")
                require(w.positions() == P, "looking changed the account")
    for k, u in w.api.get_orders().items():
        d = diff(user_order(u), expect_user(snap(a.orders[k])))
        require(not d, "order view differs: %r", d)
        require(u.style is a.orders[k].style, "style of the order view")


def check(u, c, p, s):
    code, n, av, lo, cost, side, last, val = p
    got = (u.security, u.code, u.total_amount, u.closeable_amount, u.locked_amount, u.avg_cost, u.acc_avg_cost, u.side,
           u.last_price, u.price, u.position_value, u.value)
    exp = (c, c, n, av, n - av, cost, cost, s, last, last, val, val)
    require(got == exp, "position shown as %r instead of %r", got, exp)


CASES = {"views": views}
