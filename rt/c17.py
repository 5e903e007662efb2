# -*- coding: utf-8 -*-
"""random orders and cancellations under random gate options, written by the real gate into files in a scratch directory that
are empty, have lines already or do not exist; the lines that appear are compared column by column with what was ordered"""
from rt.gate import *

CHARS = "0123456789"


def generate(tier, rng):
    for k in range(150 if tier == "quick" else 4000):
        opts = {}
        if rng.random() < .2:
            opts["account_no"] = rng.choice(["absent", "", None, 123, "000888"])
        if rng.random() < .2:
            opts["account_type"] = rng.choice(["STOCK", "CREDIT", "FUTURE", "stock"])
        if rng.random() < .4:
            opts["counter_type"] = rng.choice(["UF0", "AT0", "UM0"])
        if rng.random() < .2:
            opts["algo_type"] = rng.choice(["DMA", "TWAP"])
        ops = []
        for _ in range(rng.randint(1, 4)):
            if rng.random() < .25:
                ops.append({"cancel": rng.choice(["7", "1234567890123", "abc"])})
            else:
                d = rand_order(rng, rng.randint(1, 10**9))
                d["side"] = rng.choice(["long"] * 9 + ["short"])
                d["price"] = rng.choice([0, 9.87, 12, 0.001, 123456.789, 1e-05, 10.10])
                d["amount"] = rng.choice([1, 100, 2500, 123456789, -300])
                if rng.random() < .15:
                    d["code"] = rng.choice(["1.XSHE", "0000001.XSHG", "00700.XSHE", "12345678.XSHG", "600000.SZ", "600000", "600000.XSHX", "0700.XHKG", "600000.xshg"])
                ops.append({"order": d})
        yield "lines", {"opts": opts, "ops": ops, "at": "2024-%02d-%02d %02d:%02d:%02d.%06d" % (
            rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59), rng.choice(
                [0, 7, 999999, 120000])), "before": rng.choice([None, "", "x,y\n1,2\n", "tail"])}


def lines(inp):
    with gates(inp["at"]) as w:
        g = w.start(**inp["opts"])
        for k in ("algoOrder", "algoOrderStop"):
            if inp["before"] is not None:
                with open(w.path(k), "w") as f:
                    f.write(inp["before"])
        o = dict({"account_no": "12345", "account_type": "STOCK", "counter_type": "UM0", "algo_type": "DMA"}, **inp["opts"])
        for op in inp["ops"]:
            before = w.files()
            kind = "algoOrder" if "order" in op else "algoOrderStop"
            name = os.path.basename(w.path(kind))
            stamp = w.clock().strftime("%H%M%S.%f")
            bad = None
            if "order" in op:
                d = op["order"]
                code = d["code"]
                bad = o["account_no"] in ("absent", "", None) or o["account_type"] != "STOCK" or d["side"] == "short" or not (
                    code.endswith(".XSHE") or code.endswith(".XSHG"))
                r, v = outcome(g.order, w.make(d))
                buy = d["action"] == "open"
                want = [stamp, d["order_id"], o["counter_type"], str(o["account_no"]),
                        code.replace(".XSHE", ".SZ").replace(".XSHG", ".SH"), "1" if buy else "2", str(abs(d["amount"])),
                        o["algo_type"]]
                want += ["P6" if buy else "P7", "0", "0", "0"] if d["style"] == "market" else ["AT", "0", str(d["price"]), str(d["price"])]
                head = ORDER_HEADER
            else:
                r, v = outcome(g.cancel_order, op["cancel"])
                want, head = [stamp, op["cancel"]], CANCEL_HEADER
            after = w.files()
            if bad:
                require(r == "raise", "an order that is to be refused was accepted")
                require({k: v for k, v in after.items() if v} == {k: v for k, v in before.items() if v},
                        "a refused order changed the broker's files")
                continue
            require(r == "ok", "%s raised %r", kind, v)
            old = before.get(name, b"").decode()
            require(name in after, "the date's file %s was not written (there are %r)", name, sorted(after))
            require(after[name].decode().startswith(old), "what was in the file changed")
            new = after[name].decode()[len(old):].replace("\r\n", "\n")
            exp = ("" if old else head + "\n") + ",".join(want) + "\n"
            require(new == exp, "the file got %r, expected %r", new, exp)
            require({k: x for k, x in after.items() if k != name} == {k: x for k, x in before.items() if k != name},
                    "another of the broker's files changed")


CASES = {"lines": lines}
