# -*- coding: utf-8 -*-
"""strategies with the account on, off, off by default or switched off again, with and without account number, gate or a
custom configuration naming the gate; then every interface call, against refused/used"""
from rt.sched import *

USES = {
    "account": lambda s: s.ctx.account, "trade_gate": lambda s: s.ctx.trade_gate, "portfolio": lambda s: s.ctx.portfolio,
    "context.portfolio": lambda s: s.module.context.portfolio, "order": lambda s: s.module.order("600000.XSHG", 100),
    "market order": lambda s: s.module.order("000001.XSHE", -100, None, None),
    "cancel_order": lambda s: s.module.cancel_order("12"), "get_orders": lambda s: s.module.get_orders(),
    "get_orders id": lambda s: s.module.get_orders(order_id="5"), "sync_balance": lambda s: s.module.sync_balance(),
    "sync_orders": lambda s: s.module.sync_orders(), "batch_cancel": lambda s: s.module.batch_cancel_orders(["1"]),
}


def generate(tier, rng):
    for k in range(60 if tier == "quick" else 1000):
        o = {}
        if rng.random() < .9:
            o["account_no"] = rng.choice(["123", "", "0"])
        x = rng.random()
        if x < .4:
            o["use_account"] = rng.choice([False, 0, None, ""])
        elif x < .8:
            o["use_account"] = rng.choice([True, 1, "on"])
        o["sync_balance"], o["sync_order"], o["sync_internal"] = rng.random() < .5, rng.random() < .5, 21600
        yield "options", {"options": o, "default": rng.random() < .6, "gate": rng.choice(
            ["pv_rt_gates.G"] * 6 + ["", None, "pv_rt_gates.Missing", "pv_no_such.G", "config"]),
            "again": rng.random() < .3, "first": rng.random() < .5, "order": rng.sample(sorted(USES), len(USES))}


def options(inp):
    opts, first = inp["options"], Gate(None)
    with scratch() as d:
        conf = None
        if inp["gate"] == "config":
            conf = os.path.join(d, "conf.py")
            open(conf, "w").write("ACCOUNT_TRADE_GATE = 'pv_rt_gates.G'\n")

        def init(ctx):
            if inp["again"]:
                named = s.acfg.TRADE_GATE
                if inp["first"] and named:
                    sys.modules["pv_rt_gates"].First = lambda: first
                    s.acfg.TRADE_GATE = "pv_rt_gates.First"
                s.module.set_options(account_no="1", use_account=True, sync_balance=False, sync_order=False, runtime_dir=d)
                s.acfg.TRADE_GATE = named
                del s.gate.calls[:]
            s.module.set_options(runtime_dir=d, **opts)
        s = Sim("2024-03-05 08:00:00", init, config=conf)
        s.acfg.TRADE_GATE = "pv_rt_other.Gate" if conf else inp["gate"]
        s.cfg.SETUP_ACCOUNT = True
        with s:
            s.build()
            s.strategy.make_apis()
            s.cfg.SETUP_ACCOUNT = inp["default"]
            if inp["again"] and not (inp["gate"] in ("pv_rt_gates.G", "config")):
                return
            use = bool(opts["use_account"]) if "use_account" in opts else inp["default"]
            r, e = outcome(s.strategy.setup)
            bad = use and ("account_no" not in opts or inp["gate"] not in ("pv_rt_gates.G", "config"))
            if bad:
                require(r == "raise", "no account number or no usable gate, but the set-up was accepted")
                require(not s.gate.of("order"), "an order was submitted")
                return
            require(r == "ok", "the set-up failed: %r", e)
            if use:
                names = [c[0] for c in s.gate.calls]
                require(names[:1] == ["setup"] and names.count("setup") == 1, "the gate's calls are %r", names)
                so = s.gate.calls[0][1]
                require(all(so.get(k) == v for k, v in opts.items() if k not in ("use_account", "sync_internal")),
                        "the gate was set up with %r", so)
                require(s.ctx.trade_gate is s.gate, "another gate is in use")
                require(s.module.context.portfolio is s.ctx.portfolio, "no portfolio")
            elif not inp["again"]:
                require(not s.gate.calls, "the gate was used: %r", s.gate.calls)
            del s.gate.calls[:]
            for n in inp["order"]:
                r, e = outcome(USES[n], s)
                if use:
                    require(r == "ok", "%s failed: %r", n, e)
                else:
                    require(r == "raise", "%s was not refused but gave %r", n, e)
            if use:
                exp = {"order": ["order"], "market order": ["order"], "sync_balance": ["sync_balance"],
                       "sync_orders": ["sync_orders"]}
                exp = sum((exp.get(n, []) for n in inp["order"]), [])
                require([c[0] for c in s.gate.calls] == exp, "the gate saw %r instead of %r", [c[0] for c in s.gate.calls], exp)
            else:
                r, e = outcome(s.module.batch_submit_orders, [{"code": "600000.XSHG", "amount": 100}])
                require(r == "raise" or e == [None], "a batch entry was accepted: %r", e)
                require(not s.gate.calls, "the gate was used: %r", s.gate.calls)


CASES = {"options": options}
