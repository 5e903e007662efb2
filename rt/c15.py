# -*- coding: utf-8 -*-
"""order() with combinations of well-formed and malformed codes, amounts, styles and sides; what reaches the account is
compared with what was asked for, and everything malformed must be refused and reach nothing"""
from rt.acc import *

AMOUNTS = [100, -100, 1, -1, 10**9, 2**31, 2**32, -2**33, 2**64, 10**18 + 1, 0, "100", None, 1.0, 2.5, -0.5, [100], "@nan"]
STYLES = [None, None, ["market", 0], ["market", 12.5], ["limit", 9.9], ["limit", 0], "@limit", "@base", 5, "@cls"]
SIDES = ["@none", "long", "short", None, "LONG", "sell", "longer", "l", 1, "buy"]


def generate(tier, rng):
    for c in CODES + ["1.XSHE", "0.XSHG"] + BAD_CODES:
        yield "order", {"code": c, "amount": 100, "style": None, "side": "long"}
    for a in AMOUNTS:
        yield "order", {"code": CODES[0], "amount": a, "style": None, "side": "long"}
    for s in STYLES:
        for side in SIDES:
            yield "order", {"code": CODES[1], "amount": -200, "style": s, "side": side}
    for k in range(300 if tier == "quick" else 5000):
        yield "order", {"code": rand_code(rng) if rng.random() < .4 else rng.choice(CODES), "amount": rng.choice(
            AMOUNTS) if rng.random() < .4 else rng.choice([1, -1]) * rng.randint(1, 5000), "style": rng.choice(STYLES), "side": rng.choice(SIDES)}


def order(inp):
    w = World()
    got = []
    w.acc.order = lambda code, amount, style, side: got.append((code, amount, style, side)) or "id77"
    O = w.order
    a, s, side = inp["amount"], inp["style"], inp["side"]
    if a == "@nan":
        a = float("nan")
    style = w.style(s) if isinstance(s, list) else {"@limit": "limit", "@base": O.OrderStyle(1), "@cls": O.LimitOrderStyle,
                                                    None: None}.get(s, s)
    kw = {} if side == "@none" else {"side": side}
    if style is not None:
        kw["style"] = style
    ok = CODE_OK.fullmatch(inp["code"]) and isinstance(a, int) and not isinstance(a, bool) and a != 0 and (
        style is None or isinstance(s, list)) and side in ("@none", None, "long", "short")
    r, v = outcome(w.api.order, inp["code"], a, **kw)
    if not ok:
        require(r == "raise", "the malformed order was accepted: %r", v)
        require(isinstance(v, w.InvalidParam), "refused with %r", v)
        require(not got and not w.gate.calls, "a malformed order was submitted: %r", got)
        return
    require(r == "ok", "a well-formed order was refused: %r", v)
    require(len(got) == 1, "handed over %d times", len(got))
    c, am, st, sd = got[0]
    require(c == inp["code"] and am == a, "handed over as %r %r", c, am)
    require(sd is (O.OrderSide.short if side == "short" else O.OrderSide.long), "side became %r", sd)
    if style is None:
        require(isinstance(st, O.MarketOrderStyle) and not st.price, "a missing style became %s", st)
    else:
        require(st is style, "style became %s", st)
    require(v == "id77", "returned %r", v)


CASES = {"order": order}
