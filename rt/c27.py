# -*- coding: utf-8 -*-
"""batches mixing valid, malformed, incomplete and failing entries; results and submissions compared entry by entry with
single orders; batch cancels of known, unknown and repeated ids, some failing"""
from rt.acc import *


def generate(tier, rng):
    for k in range(250 if tier == "quick" else 5000):
        b = []
        for i in range(rng.randint(0, 7)):
            e = {"code": rng.choice(CODES) if rng.random() < .8 else rng.choice(BAD_CODES[:6]), "amount": rng.choice(
                [100, -200, 300, 5, 0, "9", 1.5]) if rng.random() < .4 else rng.choice([1, -1]) * rng.randint(1, 900)}
            if rng.random() < .5:
                e["style"] = rng.choice([None, ["limit", 9.5], ["market", 0], "limit"])
            if rng.random() < .5:
                e["side"] = rng.choice([None, "long", "short", "up"])
            if rng.random() < .12:
                e.pop(rng.choice(["code", "amount"]))
            if rng.random() < .1:
                e["code"] = rng.choice([None, 600000])
            b.append(e)
        yield "submit", {"batch": b, "fail": [rng.choice([None, None, None, rand_error(rng)]) for _ in b]}
        if k % 3 == 0:
            yield "cancel", {"book": [rand_order(rng, i) for i in range(4)], "ids": [rng.choice(["0", "1", "2", "3", "9", 1])
                             for _ in range(rng.randint(0, 6))], "fail": [rng.choice([None, None, rand_error(rng)]) for _ in range(6)]}


def submit(inp):
    w = World()
    w.gate.fail = {"order": list(inp["fail"])}
    batch = []
    for e in inp["batch"]:
        e = dict(e)
        if isinstance(e.get("style"), list):
            e["style"] = w.style(e["style"])
        batch.append(e)
    r, v = outcome(w.api.batch_submit_orders, batch)
    require(r == "ok", "the batch raised %r", v)
    v = list(v)
    require(len(v) == len(batch), "%d results for %d entries", len(v), len(batch))
    sent = [c[1] for c in w.gate.of("order")]
    fails = list(inp["fail"])
    k = 0
    for i, e in enumerate(inp["batch"]):
        c, a = e.get("code"), e.get("amount")
        st, sd = e.get("style"), e.get("side")
        ok = isinstance(c, str) and CODE_OK.fullmatch(c) and isinstance(a, int) and a and st != "limit" and sd in (
            None, "long", "short")
        if not ok:
            require(v[i] is None, "entry %d is malformed and gave %r", i, v[i])
            continue
        require(k < len(sent), "entry %d was not submitted", i)
        o = snap(sent[k])
        got = (o["code"], o["amount"], o["action"], o["style"], o["side"])
        exp = (c, abs(a), "open" if a > 0 else "close", tuple(st) if st else ("market", 0), sd or "long")
        require(got == exp, "entry %d submitted as %r instead of %r", i, got, exp)
        if fails[k]:
            require(v[i] is None, "entry %d failed and gave %r", i, v[i])
        else:
            require(v[i] == o["order_id"], "entry %d gave %r, its order is %r", i, v[i], o["order_id"])
        k += 1
    require(k == len(sent), "%d submissions instead of %d", len(sent), k)


def cancel(inp):
    w = World()
    for d in inp["book"]:
        w.put(d)
    w.gate.fail = {"cancel_order": list(inp["fail"])}
    before = w.book()
    r, v = outcome(w.api.batch_cancel_orders, inp["ids"])
    require(r == "ok", "batch cancel raised %r", v)
    got = [c[1] for c in w.gate.of("cancel_order")]
    exp = [str(i) for i in inp["ids"] if str(i) in before]
    require(got == exp, "cancelled %r instead of %r", got, exp)
    require(w.book() == before, "cancelling changed the book")


CASES = {"submit": submit, "cancel": cancel}
