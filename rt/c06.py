# -*- coding: utf-8 -*-
"""random local dates with microseconds (1971-2098, edges of seconds and milliseconds favoured) and millisecond counts,
converted with the real code and compared with exact integer arithmetic; the strategy clock while a message runs"""
import datetime as D
from rt.common import *

US = [0, 1, 499, 500, 999, 1000, 1001, 999000, 999499, 999500, 999999, 123456, 100000]


def generate(tier, rng):
    n = 400 if tier == "quick" else 20000
    for k in range(n):
        s = rng.randint(365 * 86400, 47000 * 86400)
        us = rng.choice(US) if rng.random() < .6 else rng.randint(0, 999999)
        yield "dates", {"s": s, "us": us, "d": rng.choice([0, 1, 999, 1000, 1001, 1000000])}
        yield "ms", {"ms": s * 1000 + rng.choice([0, 1, 9, 99, 499, 500, 501, 999, rng.randint(0, 999)])}


def exact(d):
    return (d - D.datetime(1970, 1, 1, 8)) // D.timedelta(milliseconds=1)      # Asia/Shanghai, no daylight saving after 1991


def dates(inp):
    u = mod("common.utils")
    d = D.datetime(1970, 1, 1) + D.timedelta(seconds=inp["s"], microseconds=inp["us"])
    d2 = d + D.timedelta(microseconds=inp["d"])
    ms = u.dt_to_milliseconds(d)
    if d.year > 1992:
        require(ms == exact(d), "dt_to_milliseconds(%s) = %s, exact %s", d, ms, exact(d))
    require(type(ms) is int, "not an integer: %r", ms)
    if not (1986 <= d.year <= 1991):
        b = u.milliseconds_to_dt(ms)
        require(b == d.replace(microsecond=d.microsecond // 1000 * 1000), "%s -> %s -> %s", d, ms, b)
        require(u.dt_to_milliseconds(d2) >= ms, "%s is later than %s but its number is smaller", d2, d)


def ms(inp):
    u = mod("common.utils")
    d = u.milliseconds_to_dt(inp["ms"])
    if not (1986 <= d.year <= 1991):
        require(u.dt_to_milliseconds(d) == inp["ms"], "%s -> %s -> %s", inp["ms"], d, u.dt_to_milliseconds(d))
        require(d.microsecond % 1000 == 0, "%s -> %r", inp["ms"], d)


CASES = {"dates": dates, "ms": ms}
