# -*- coding: utf-8 -*-
"""random configuration files with names of every kind, loaded once or several times into both configurations (directly and
by a strategy process); every setting before and after against the definitions of the file"""
from rt.sched import *

PARTS = ["EVENT_DAYS_COUNT", "MARKET_PERIOD", "RUNTIME_DIR", "SYNC_INTERNAL", "TRADE_GATE", "SYNC_BALANCE", "ENABLE_HISTORY_START",
         "REDUCE", "SCHEDULER_X", "ACCOUNT_NO", "A", "NEW_SETTING", "CASH", "lower", "_x", "", "DEBUG", "SETUP_ACCOUNT", "SYNC_PERIOD"]
PRE = ["SCHEDULER_", "ACCOUNT_", "SCHEDULER_ACCOUNT_", "ACCOUNT_SCHEDULER_", "", "scheduler_", "X_SCHEDULER_", "SCHEDULER", "_ACCOUNT_"]


def generate(tier, rng):
    for k in range(250 if tier == "quick" else 10000):
        defs = []
        for _ in range(rng.randint(0, 8)):
            n = rng.choice(PRE) + rng.choice(PARTS)
            if n and n.isidentifier():
                defs.append([n, rng.choice(["1", "'x'", "None", "[]", "False", "(1, 2)", "''", "0", "{'SCHEDULER_A': 1}", "{'a': 1}", "['b']"])])
        yield "load", {"defs": defs, "order": rng.choice([["scheduler"], ["account"], ["scheduler", "account"],
                                                        ["account", "scheduler", "account"]]),
                       "spelling": rng.choice(["abs", "rel", "home"]), "again": rng.random() < .3, "other": rng.choice([None, "new", 17, {"b": 2}, ["c"]]), "before": rng.choice(["earlier", {"b": 2}, ["c"]]), "earlier": [[rng.choice(["scheduler", "account"]), rng.choice(PARTS)] for _ in range(rng.choice([0, 1, 3]))], "header": rng.random() < .3}
    for k in range(20 if tier == "quick" else 200):
        yield "process", {"interval": rng.choice([3, 7, 60]), "balance": rng.random() < .5}


def load(inp):
    fresh()
    with scratch() as d:
        text = "# -*- coding: utf-8 -*-\nimport datetime\nfrom os import path as SCHEDULER_PATH_\ndef ACCOUNT_f_():\n    return 1\n" if inp["header"] else ""
        defs, header = {}, text
        for n, v in inp["defs"]:
            text += "%s = %s\n" % (n, v)
            defs[n] = eval(v)
        home = os.environ.get("HOME")
        old = os.getcwd()
        os.environ["HOME"] = d
        os.chdir(d)
        try:
            with open(os.path.join(d, "custom.py"), "w") as f:
                f.write(text)
            path = {"abs": os.path.join(d, "custom.py"), "rel": "custom.py", "home": "~/custom.py"}[inp["spelling"]]
            cfgs = {k: mod(k + ".config").get_config() for k in ("scheduler", "account")}
            for k, n in inp["earlier"]:      # set before the file is loaded
                if n:
                    setattr(cfgs[k], n, inp["before"])
            want = {k: dict(vars(c)) for k, c in cfgs.items()}
            for i, k in enumerate(inp["order"] * (1 + inp["again"])):
                if i >= len(inp["order"]) and inp["other"]:       # the file has been written again with other values
                    defs = dict((n, inp["other"]) for n in defs)
                    with open(os.path.join(d, "custom.py"), "w") as f:
                        f.write(header + "".join("%s = %r\n" % x for x in defs.items()))
                getattr(mod(k + ".config"), "setup_%s_config" % k)(path)
                p = k.upper() + "_"
                for n, v in defs.items():
                    if n.startswith(p):
                        want[k][n[len(p):]] = v
                if inp["header"]:
                    if k == "scheduler":
                        want[k]["PATH_"] = os.path
                    else:
                        want[k]["f_"] = vars(cfgs[k]).get("f_")
                        require(callable(want[k]["f_"]), "a function defined in the file is not set")
                for j, c in cfgs.items():
                    require(mod(j + ".config").get_config() is c, "the %s configuration in use is another one", j)
                    for n in set(vars(c)) | set(want[j]):
                        a, b = vars(c).get(n, "(not set)"), want[j].get(n, "(not set)")
                        require(type(a) is type(b) and a == b, "%s setting %s is %r instead of %r", j, n, a, b)
        finally:
            os.chdir(old)
            if home is not None:
                os.environ["HOME"] = home


def process(inp):
    """the account settings of a file given to a strategy process are in force for its account"""
    with scratch() as d:
        p = os.path.join(d, "custom.py")
        with open(p, "w") as f:
            f.write("ACCOUNT_SYNC_INTERNAL = %d\nACCOUNT_SYNC_BALANCE = %r\nACCOUNT_TRADE_GATE = 'pv_rt_gates.G'\n"
                    "SCHEDULER_SYNC_INTERNAL = 1\nSYNC_INTERNAL = 2\n" % (inp["interval"], inp["balance"]))
        s = Sim("2024-03-05 10:00:00", lambda c: s.module.set_options(account_no="1", runtime_dir=d), config=p, gate=False)
        s.gate.orders_reply = []
        n = []
        for k in ("sync_balance", "sync_orders"):
            def f(k=k, g=getattr(s.gate, k)):
                n.append((k, s.clock.t))
                return g()
            setattr(s.gate, k, f)
        with s:
            s.start()
            del n[:]
            s.loop.run(datetime.datetime(2024, 3, 5, 10, 7, 0))
        t = [x for k, x in n if k == "sync_orders"]
        first = datetime.datetime(2024, 3, 5)
        want = [x for x in range(36000, 36421) if x % inp["interval"] == 0]
        require([int((x - first).total_seconds()) for x in t] == want, "synchronised at %s ...", [str(x) for x in t[:3]])
        require(bool([1 for k, x in n if k == "sync_balance"]) == inp["balance"], "balance synchronised: %r", not inp["balance"])


CASES = {"load": load, "process": process}
