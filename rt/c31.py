# -*- coding: utf-8 -*-
"""cancels of ids in and not in the book (strings and numbers, orders in every status), with and without gate errors"""
from rt.acc import *


def generate(tier, rng):
    for k in range(250 if tier == "quick" else 4000):
        yield "cancel", {"book": [rand_order(rng, i) for i in range(rng.randint(0, 6))], "ops": [
            [rng.choice(["0", "1", "3", "5", "77", "", 2, 4, 99]), rng.choice([None, None, rand_error(rng)]), rng.random() < .5] for _ in range(5)]}


def cancel(inp):
    w = World()
    for d in inp["book"]:
        w.put(d)
    w.pos(CODES[0], 100, 60)
    before, pos = w.book(), w.positions()
    for oid, fail, direct in inp["ops"]:
        w.gate.calls = []
        w.gate.fail = {"cancel_order": [fail]}
        if direct:
            oid = str(oid)
        r, v = outcome(w.acc.cancel_order if direct else w.api.cancel_order, oid)
        require(r == "ok", "cancel_order(%r) raised %r", oid, v)
        exp = [("cancel_order", str(oid))] if str(oid) in before else []
        require(w.gate.calls == exp, "the gate got %r instead of %r", w.gate.calls, exp)
        require(w.book() == before and w.positions() == pos, "cancelling changed the account")


CASES = {"cancel": cancel}
