# -*- coding: utf-8 -*-
"""the broker gate on real files in a scratch directory"""
import contextlib
import datetime
import json

from rt.acc import *

COLS = ("updTime", "orderDate", "orderTime", "acctType", "acct", "symbol", "tradeSide", "status", "orderQty", "orderPrice",
        "orderType", "filledQty", "avgPrice", "filledAmt", "cancelQty", "orderNo", "corrId", "custBatchNo", "text", "cliOrderId")
RESULT = ("updTime", "resultType", "custBatchNo", "status", "errorCode", "errorMsg")
ORDER_HEADER = "updTime,custBatchNo,acctType,acct,symbol,tradeSide,targetQty,algoId,priceType,ticks,highLimitPrice,lowLimitPrice"
CANCEL_HEADER = "updTime,custBatchNo"


class Loop(object):
    def __init__(self, clock):
        self.clock = clock

    @property
    def current_dt(self):
        return self.clock()

    strategy_dt = current_dt


class Gates(object):
    """one broker directory; any number of gates (tasks, restarts) on it"""

    def __init__(self, d, now="2024-03-05 09:30:00"):
        fresh()
        self.d = d
        self.clock = Clock(datetime.datetime.fromisoformat(now))
        self.orders, self.runtime = os.path.join(d, "orders"), os.path.join(d, "run")
        os.makedirs(self.orders)
        self.T = mod("account.trade_gate")
        self.order = mod("account.order")

    def start(self, task="task", **opts):
        """a gate in a process of its own"""
        C = mod("scheduler.context")
        C.Context(task, None, Loop(self.clock), None, None, False, None, None, start=self.clock())
        g = self.T.AnXinDMATradeGate()
        o = {"order_dir": self.orders, "runtime_dir": self.runtime, "account_no": "12345", "file_encoding": "utf-8",
             "wait_lock_internal": 0.05, "wait_lock_time_out": 1}
        o.update(opts)
        o = {k: v for k, v in o.items() if v != "absent"}
        g.setup(o)
        return g

    def switch(self, task):
        C = mod("scheduler.context")
        C.Context(task, None, Loop(self.clock), None, None, False, None, None, start=self.clock())

    def path(self, kind):
        return os.path.join(self.orders, "%s_%s.csv" % (kind, self.clock().strftime("%Y%m%d")))

    def read(self, kind):
        p = self.path(kind)
        if not os.path.exists(p):
            return None
        with open(p, "rb") as f:
            return f.read()

    def files(self):
        out = {}
        for n in sorted(os.listdir(self.orders)):
            with open(os.path.join(self.orders, n), "rb") as f:
                out[n] = f.read()
        return out

    def touch(self, *kinds):
        for k in kinds:
            with open(self.path(k), "ab"):
                pass

    def make(self, d):
        return self.order.Order.load(**order_args(d))


@contextlib.contextmanager
def gates(now="2024-03-05 09:30:00"):
    with scratch() as d, captured():
        g = Gates(d, now)
        with frozen_clock(g.clock):
            yield g


def record(oid, status="0", date="20240305", time="093001", filled="0", avg="0", amt="0", cancel="0", no="B1", text="", **kw):
    """one line of the broker's order file"""
    v = {"updTime": "093001000", "orderDate": date, "orderTime": time, "acctType": "UM0", "acct": "12345", "symbol": "600000.SH",
         "tradeSide": "1", "status": status, "orderQty": "100", "orderPrice": "9.87", "orderType": "0", "filledQty": filled,
         "avgPrice": avg, "filledAmt": amt, "cancelQty": cancel, "orderNo": no, "corrId": "", "custBatchNo": oid, "text": text,
         "cliOrderId": ""}
    v.update(kw)
    return ",".join(str(v[c]) for c in COLS)
