# -*- coding: utf-8 -*-
"""random balance and position tables (several accounts, exchanges, zero quantities, missing rows) written as the broker does
and read by the real gate, also incomplete, missing, or completed only while the gate retries; the report against the tables"""
from rt.gate import *

ASSET = ("acctType", "acct", "exchange", "totalAsset", "currentBalance", "enabledBalance")
POS = ("acct", "symbol", "currentQty", "enabledQty", "costPrice", "lastPrice", "mktValue")
ACCTS = ("12345", "00123", "1234", "123456", "7")


def generate(tier, rng):
    for k in range(250 if tier == "quick" else 5000):
        acct = rng.choice(ACCTS)
        money = lambda: rng.choice([0, 0.0, 1, 10.5, 12345.67891, 99999999.12345, 3.00005, round(rng.random() * 1e6, 5)])  # noqa
        rows = []
        for a in rng.sample(ACCTS, rng.randint(1, 4)):
            for x in rng.sample(["", "SH", "SZ", "HK"], rng.randint(1, 3)):
                if a != acct or x:
                    rows.append([rng.choice(["STOCK", "S0"]), a, x, money(), money(), money() * rng.choice([1, 1, 1, -1])])
        if rng.random() < .85:
            rows.insert(rng.randint(0, len(rows)), ["STOCK", acct, "", money(), money(), money() * rng.choice([1, 1, 1, -1])])
        if rng.random() < .05:
            rows = []
        held = []
        for _ in range(rng.randint(0, 6)):
            q = rng.choice([0, 100, 200, 1200, 7, 1000000])
            held.append([rng.choice([acct, acct, rng.choice(ACCTS)]), "%06d.%s" % (rng.choice([600000, 1, 2594, 688001, 300750]),
                        rng.choice(["SH", "SZ"] * 6 + ["BJ"])), q, rng.choice([0, q, 100]), money() * rng.choice([1, 1, 1, -1]), rng.choice([money(), money(), money(), ""]), money() * rng.choice([1, 1, 1, -1])])
        opts = {"account_no": rng.choice([acct] * 5 + [int(acct) if str(int(acct)) == acct else acct, "99999"])}
        if rng.random() < .07:
            opts["account_no"] = rng.choice(["absent", "", None])
        how = {}
        for kind in ("assetInfo", "positionInfo"):
            x = rng.random()
            how[kind] = "missing" if x < .05 else "cut" if x < .1 else "growing" if x < .2 else "empty" if x < .23 else "fine"
        yield "report", {"assets": rows, "held": held, "opts": opts, "how": how, "retries": rng.choice([None, 1, 2])}


def text(head, rows):
    return "".join(",".join(map(str, r)) + "\n" for r in [head] + rows)


def report(inp):
    with gates() as w:
        import time
        how, opts = inp["how"], dict(inp["opts"])
        if inp["retries"] is not None:
            opts["sync_retry_kwargs"] = {"max_attempts": inp["retries"], "attempt_internal": 0.01}
        full = {"assetInfo": text(ASSET, inp["assets"] + [[""] * len(ASSET)]), "positionInfo": text(POS, inp["held"] + [[""] * len(POS)])}
        rows = {"assetInfo": inp["assets"], "positionInfo": inp["held"]}

        def put(kind, s):
            with open(w.path(kind), "w") as f:
                f.write(s)
        for kind, s in full.items():
            if how[kind] == "fine":
                put(kind, s)
            elif how[kind] in ("cut", "growing"):
                put(kind, text(ASSET if kind == "assetInfo" else POS, rows[kind]))
            elif how[kind] == "empty":
                put(kind, "")

        def wait(s):
            for kind, t in full.items():
                if how[kind] == "growing":
                    put(kind, t)
        with patched(time, "sleep", wait):
            g = w.start(**opts)
            r, v = outcome(g.sync_balance)
        a = opts["account_no"]
        cash = [x for x in inp["assets"] if x[1] == str(a) and x[2] == ""]
        mine = [x for x in inp["held"] if x[0] == str(a) and x[2] != 0]
        bad = [k for k in how if how[k] in ("missing", "cut", "empty")]
        if a in ("absent", "", None) or bad or not cash:
            require(r == "raise", "no error for account %r, files %r, %d cash rows: %r" % (a, how, len(cash), v))
            return
        if any(x[1].endswith("BJ") for x in mine):
            require(r == "raise", "no error for a security of another exchange: %r" % (v,))
            return
        require(r == "ok", "complete files are not read: %r" % (v,))
        c = cash[0]
        require(set(v) == {"cash", "positions"}, "report: %r" % (v,))
        require(v["cash"] == {"total_asset": round(float(c[3]), 4), "available_cash": round(float(c[5]), 4),
                              "locked_cash": round(float(c[4]) - float(c[5]), 4)}, "cash %r from %r" % (v["cash"], c))
        want = [(x[1].replace(".SH", ".XSHG").replace(".SZ", ".XSHE"), x[2], x[3], round(float(x[4]), 3), None if x[5] == "" else round(float(x[5]), 3),
                 round(float(x[6]), 4), "long") for x in mine]
        got = [(p["code"], p["amount"], p["available_amount"], p["avg_cost"], None if p["last_price"] != p["last_price"] else p["last_price"], p["position_value"],
                getattr(p["side"], "value", p["side"])) for p in v["positions"]]
        require(sorted(got, key=repr) == sorted(want, key=repr), "positions %r instead of %r" % (got, want))


CASES = {"report": report}
