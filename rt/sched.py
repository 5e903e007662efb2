# -*- coding: utf-8 -*-
"""strategies driven through the package's own scheduler, bus and event sources, on a simulated clock and loop"""
import datetime
import heapq
import types

from rt.common import *
from rt.acc import Gate, GateError, snap


class SimLoop(object):
    """takes the place of the event loop: runs messages by due time, priority, order of submission on a simulated clock"""

    def __init__(self, clock):
        self.clock, self.q, self.n = clock, [], 0
        self.now_ms = None
        self.ran = []

    def push_message(self, message, notify=True):
        self.n += 1
        heapq.heappush(self.q, (message.time, -message.priority, self.n, message))

    def run(self, until, limit=100000):
        """run everything due up to the given moment"""
        end = ms(until)
        while self.q and self.q[0][0] <= end and limit:
            limit -= 1
            t, p, n, m = heapq.heappop(self.q)
            self.clock.t = max(self.clock.t, from_ms(t))
            self.now_ms = t
            self.ran.append((t, -p))
            m.callback(**m.callback_data)
        if self.clock.t < until:
            self.clock.t = until
        return limit

    @property
    def strategy_dt(self):
        return from_ms(self.now_ms) if self.now_ms else None

    @property
    def current_dt(self):
        return self.clock.t


def ms(d):
    return int(d.replace(microsecond=0).timestamp()) * 1000 + d.microsecond // 1000


def from_ms(t):
    return datetime.datetime.fromtimestamp(t // 1000) + datetime.timedelta(milliseconds=t % 1000)


def parse(d):
    return datetime.datetime.fromisoformat(d)


def tod(s):
    return datetime.time(*map(int, s.split(":")))


class Sim(object):
    """one strategy process: fresh package, clock at `now`, process_initialize = init(api module)"""

    def __init__(self, now, init=None, config=None, end=None, options=None, module=None, task="task", gate=True):
        fresh()
        self.clock = Clock(parse(now) if isinstance(now, str) else now)
        self.loop = SimLoop(self.clock)
        self.mods = {n: mod(n) for n in ("scheduler.strategy", "scheduler.context", "scheduler.bus", "scheduler.event_source",
                                         "scheduler.event", "scheduler.api", "account.account", "account.api",
                                         "account.config", "scheduler.config", "account.portfolio")}
        self.cfg = self.mods["scheduler.config"].get_config()
        self.acfg = self.mods["account.config"].get_config()
        self.module = module or types.ModuleType("user_strategy")
        self.gate = Gate(None)
        self.gate.balance_reply = {"cash": {"total_asset": 1, "available_cash": 1, "locked_cash": 0}, "positions": []}
        self.gate_class()
        if gate:
            self.acfg.TRADE_GATE = "pv_rt_gates.G"
        self.init = init
        self.config, self.end, self.task = config, end, task

    def gate_class(self):
        m = types.ModuleType("pv_rt_gates")
        m.G = lambda: self.gate
        sys.modules["pv_rt_gates"] = m

    def __enter__(self):
        self.cm = frozen_clock(self.clock)
        self.cm.__enter__()
        return self

    def __exit__(self, *a):
        self.cm.__exit__(*a)

    def build(self):
        """context and strategy; call inside `with`"""
        C = self.mods["scheduler.context"]
        sim = self

        class Loader(object):
            def load(self):
                return sim.module
        if self.init is not None:
            self.module.process_initialize = self.init
        self.bus = self.mods["scheduler.bus"].EventBus()
        self.sched = self.mods["scheduler.event_source"].EventSourceScheduler()
        self.ctx = C.Context(task_name=self.task, event_bus=self.bus, loop=self.loop, scheduler=self.sched,
                             loader=Loader(), debug=False, config=self.config, out=None, end=self.end)
        self.strategy = self.mods["scheduler.strategy"].Strategy(self.ctx)
        return self.strategy

    def start(self):
        self.build()
        self.strategy.setup()
        return self
