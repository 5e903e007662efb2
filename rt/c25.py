# -*- coding: utf-8 -*-
"""positions of both sides; closing and opening orders of held and unknown codes, larger than closeable, several in a row,
some failing at the gate; every position figure afterwards against the rule"""
from rt.acc import *


def generate(tier, rng):
    for k in range(250 if tier == "quick" else 5000):
        pos = []
        for c in CODES[:3]:
            for s in ("long", "short"):
                if rng.random() < .6:
                    n = rng.choice([100, 500, 1000])
                    pos.append([c, n, rng.choice([0, n, n // 2, n - 1, n + 100]), s])
        yield "close", {"pos": pos, "orders": [{"code": rng.choice(CODES), "amount": rng.choice([1, -1, -1, -1]) * rng.choice(
            [1, 50, 100, 400, 5000]), "side": rng.choice(["long", "short"]), "style": rng.choice([None, ["limit", 9.5]]),
            "fail": rand_error(rng) if rng.random() < .2 else None} for _ in range(rng.randint(1, 6))]}


def close(inp):
    w = World()
    for c, n, a, s in inp["pos"]:
        w.pos(c, n, a, s, last_price=3.5, position_value=n * 3.5)
    for o in inp["orders"]:
        exp = w.positions()
        w.gate.fail = {"order": [o["fail"]]}
        r, v = outcome(w.api.order, o["code"], o["amount"], style=w.style(o["style"]), side=o["side"])
        require(r == "ok", "order raised %r", v)
        p = exp[o["side"]].get(o["code"])
        if p and o["amount"] < 0 and not o["fail"]:
            av = max(0, p[2] + o["amount"])
            exp[o["side"]][o["code"]] = p[:2] + (av, p[1] - av) + p[4:]
        got = w.positions()
        require(got == exp, "after %r the positions are %r instead of %r", o, got, exp)
        for s in ("long", "short"):
            up = getattr(w.ctx.portfolio, s + "_positions")
            for c, p in exp[s].items():
                u = up[c]
                require((u.total_amount, u.closeable_amount, u.locked_amount) == (p[1], p[2], p[3]),
                        "the user sees %r of %s", (u.total_amount, u.closeable_amount, u.locked_amount), c)


CASES = {"close": close}
