# -*- coding: utf-8 -*-
"""histories of broker files growing by arbitrary pieces of bytes (cut inside lines and inside characters) between
synchronisations, restarts and changes of date: records of own and foreign orders, blank, header, short, long, malformed and
undecodable lines, failed submissions and cancellations; after every synchronisation each own order is compared with the last
complete record for it in the date's file, computed from the bytes"""
from rt.gate import *

FIG = ("status", "entrust_time", "confirm_id", "filled_amount", "deal_balance", "canceled_amount", "avg_cost", "err_msg")
STATUS_OF = {"0": "open", "1": "filling", "2": "filled", "3": "partly_canceled", "4": "canceled", "5": "rejected", "7": "new",
             "8": "canceling"}
OWN = ["11", "12", "113"]
FOREIGN = ["1", "99", "1 1", ""]


def rec(rng, oid, **kw):
    v = dict(status=rng.choice(list(STATUS_OF)), time="%02d%02d%02d" % (rng.randint(9, 14), rng.randint(0, 59), rng.randint(0, 59)),
             filled=str(rng.choice([0, 100, 12345])), avg=rng.choice(["0", "9.8765", "10.1"]), amt=rng.choice(["0", "123.45678", "1e3"]),
             cancel=str(rng.choice([0, 50])), no=rng.choice(["B7", "B8", ""]), cliOrderId=rng.choice(["", "c1", "cli-77"]), text=rng.choice(["", "ok", "资金不足", "a b"] * 8 + ["资金" * 3000]))
    v.update(kw)
    return record(oid, **v)


def update_line(rng, bad):
    x = rng.random()
    if x < .55:
        t = rec(rng, rng.choice(OWN))
    elif x < .7:
        t = rec(rng, rng.choice(FOREIGN))
    elif x < .76:
        t = rng.choice(["", "  ", "\t"])
    elif x < .8:
        t = ",".join(COLS)
    elif not bad:
        t = rec(rng, rng.choice(OWN))
    else:
        k = rng.randint(0, 8)
        o = rng.choice(OWN + FOREIGN[:2])
        if k == 0:
            t = ",".join(rec(rng, o).split(",")[:rng.randint(1, 19)])
        elif k == 1:
            t = rec(rng, o) + ",more"
        elif k == 2:
            t = rec(rng, o, status=rng.choice(["6", "9", "", "x"]))
        elif k == 3:
            t = rec(rng, o, **{rng.choice(["filled", "cancel"]): rng.choice(["", "abc", "1.5", "-"])})
        elif k == 4:
            t = rec(rng, o, **{rng.choice(["avg", "amt"]): rng.choice(["", "abc"])})
        elif k == 5:
            t = rec(rng, o, date=rng.choice(["20241301", "", "x"]))
        elif k == 6:
            t = rng.choice(["x", "garbage", "-", "#1,2", "Zupd,time", "?" + ",1" * 30, ",,,,", "\"" + rec(rng, o)[:40]])
        else:
            t = rec(rng, o).encode()
            at = rng.randint(0, len(t))
            return t[:at] + rng.choice([b"\xff", b"\xff\xfe", b"\x80", b"\xe5\xa5"]) + t[at:]
    if rng.random() < .1:
        t = " , ".join(t.split(","))
    return t.encode()


def result_line(rng, bad):
    x = rng.random()
    t = ",".join(["093001000", rng.choice(["1", "2", "1", "3"]), rng.choice(OWN + FOREIGN[:2]), rng.choice(["1", "0", "1"]), "E7",
                  rng.choice(["no funds", "资金不足", ""])])
    if x > .85 and bad:
        t = rng.choice([",".join(t.split(",")[:4]), "x", t + ",more"])
    elif x > .8:
        t = rng.choice(["", ",".join(RESULT)])
    return t.encode()


def stream(rng, n, line, bad):
    eol = rng.choice([b"\n", b"\n", b"\r\n"])
    return b"".join(line(rng, bad) + eol for _ in range(n))


def inside_last(rng, data):
    """a cut just before the end of a line"""
    ends = [i for i, c in enumerate(data) if c == 10]
    return max(0, rng.choice(ends) - rng.randint(0, 3)) if ends else len(data)


def generate(tier, rng):
    for k in range(250 if tier == "quick" else 6000):
        ignore = rng.random() < .65
        bad = rng.random() < .7
        ops = []
        for day in range(rng.choice([1, 1, 1, 2])):
            if day:
                ops.append({"op": "day"})
            up = stream(rng, rng.randint(0, 9), update_line, bad)
            res = stream(rng, rng.choice([0, 0, 1, 3]), result_line, bad)
            if rng.random() < .5:
                up = (",".join(COLS) + "\n").encode() + up
            while up or res or not ops or ops[-1]["op"] != "sync":
                n = rng.choice([len(up), rng.randint(0, 400), rng.randint(0, 60), inside_last(rng, up)])
                m = rng.choice([len(res), rng.randint(0, 40), inside_last(rng, res)])
                ops.append({"op": "grow", "up": up[:n].decode("latin1"), "res": res[:m].decode("latin1")})
                up, res = up[n:], res[m:]
                ops += [{"op": "sync"}] * rng.choice([1, 1, 2])
                if rng.random() < .1 and not day:
                    ops += [{"op": "restart"}, {"op": "sync"}]
        yield "growth", {"ops": ops, "ignore": ignore, "at": rng.randint(0, 3), "ids": rng.sample(OWN, rng.randint(1, 3))}


def figures(line):
    """the figures of a record, None if it is none"""
    c = [x.strip() for x in line.split(",")]
    if len(c) != len(COLS):
        return None
    r = dict(zip(COLS, c))
    try:
        return r["custBatchNo"], {
            "status": STATUS_OF[r["status"]],
            "entrust_time": datetime.datetime.strptime(r["orderDate"] + r["orderTime"], "%Y%m%d%H%M%S").strftime("%Y-%m-%d %H:%M:%S.%f"),
            "confirm_id": r["orderNo"], "filled_amount": int(r["filledQty"]), "deal_balance": round(float(r["filledAmt"]), 4),
            "canceled_amount": int(r["cancelQty"]), "avg_cost": round(float(r["avgPrice"]), 3), "err_msg": r["text"]}
    except (KeyError, ValueError):
        return None


def is_bad(text, own):
    """a complete line that cannot be read although it should be"""
    t = text.strip()
    if not t or t.startswith("updTime"):
        return False
    c = [x.strip() for x in t.split(",")]
    if len(c) != len(COLS):
        return True
    return c[COLS.index("custBatchNo")] in own and figures(t) is None


def expected(up, res, own, initial, tail):
    """figures of each own order after the bytes up and res; does anything in them have to be reported?"""
    out = {o: dict(initial[o]) for o in own}
    seen, bad = set(), False
    lines = up.split(b"\n")
    for i, raw in enumerate(lines):
        last = i == len(lines) - 1
        if last and (not tail or not raw):
            continue
        try:
            text = raw.decode("utf-8", "ignore" if last else "strict")
        except UnicodeDecodeError:
            bad = True
            continue
        if not last and is_bad(text, own):
            bad = True
        f = figures(text.strip())
        if f and f[0] in out and not text.strip().startswith("updTime"):
            out[f[0]].update(f[1])
            seen.add(f[0])
    unsure = set()
    lines = res.split(b"\n")
    for i, raw in enumerate(lines):
        last = i == len(lines) - 1
        if last and (not tail or not raw):
            continue
        try:
            text = raw.decode("utf-8", "ignore" if last else "strict").strip()
        except UnicodeDecodeError:
            bad = True
            continue
        c = [x.strip() for x in text.split(",")]
        if text and not text.startswith("updTime") and len(c) != len(RESULT) and not last:
            bad = True
        if len(c) == len(RESULT) and c[1] == "1" and c[3] == "1" and c[2] in out:
            if c[2] in seen:
                unsure.add(c[2])
            else:
                out[c[2]].update(status="rejected", err_msg=c[5])
    return out, unsure, bad


def spoilt(tails, up, res):
    """orders of lines that looked whole before their end was written and turned out to be malformed"""
    out = set()
    for k, data, n, i in (("up", up, len(COLS), COLS.index("custBatchNo")), ("res", res, len(RESULT), 2)):
        for at, o in tails.get(k, {}).items():
            line, eol, _ = data[at:].partition(b"\n")
            try:
                if len(line.decode("utf-8").split(",")) != n:
                    out.add(o)
            except UnicodeDecodeError:
                out.add(o)
        at = data.rfind(b"\n") + 1
        c = data[at:].decode("utf-8", "ignore").split(",")
        if len(c) == n:
            tails.setdefault(k, {})[at] = c[i].strip()
    return out


def growth(inp):
    with gates() as w:
        g = w.start(ignore_error_line=inp["ignore"])
        own = inp["ids"]
        initial = {}
        for i, oid in enumerate(own):
            d = {"code": CODES[i], "price": 9.87, "amount": 1000 + i, "action": "open", "order_id": oid, "status": "new",
                 "style": "limit", "side": "long", "create_time": "2024-03-05 09:30:00.000001"}
            g.order(w.make(d))
            initial[oid] = {"status": "new", "entrust_time": None, "confirm_id": None, "filled_amount": 0, "deal_balance": 0,
                            "canceled_amount": 0, "avg_cost": None, "err_msg": ""}
        w.touch("orderUpdate", "execResult")
        up = res = b""
        unsure = set()
        tails = {}
        for op in inp["ops"]:
            if op["op"] == "day":
                w.clock.t += datetime.timedelta(days=1)
                w.touch("orderUpdate", "execResult")
                initial, up, res, tails = {o: dict(now[o]) for o in own}, b"", b"", {}
            elif op["op"] == "restart":
                g = w.start(ignore_error_line=inp["ignore"])
            elif op["op"] == "grow":
                for kind, t in (("orderUpdate", op["up"]), ("execResult", op["res"])):
                    with open(w.path(kind), "ab") as f:
                        f.write(t.encode("latin1"))
                up += op["up"].encode("latin1")
                res += op["res"].encode("latin1")
            else:
                r, v = outcome(g.sync_orders)
                a, u1, bad = expected(up, res, own, initial, False)
                b, u2, _ = expected(up, res, own, initial, True)
                unsure = unsure | u1 | u2 | spoilt(tails, up, res)
                if bad and not inp["ignore"]:
                    require(r == "raise", "a malformed line was skipped although errors are not to be ignored")
                    return
                require(r == "ok", "sync_orders raised %r", v)
                got = {o["order_id"]: o for o in v}
                require(sorted(got) == sorted(own), "sync_orders gave the orders %r, own are %r", sorted(got), sorted(own))
                now = {}
                for i, oid in enumerate(own):
                    have = {k: got[oid].get(k) for k in FIG}
                    now[oid] = have
                    require((got[oid]["code"], got[oid]["amount"], got[oid]["price"], got[oid]["action"], got[oid]["style"]) == (
                        CODES[i], 1000 + i, 9.87, "open", "limit"), "order %s became %r", oid, got[oid])
                    if oid in unsure:
                        continue
                    require(have == a[oid] or have == b[oid], "order %s shows %r, its last complete record says %r", oid, have, a[oid])


CASES = {"growth": growth}
