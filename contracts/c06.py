# -*- coding: utf-8 -*-
"""C06: conversions between local dates and loop milliseconds are exact to the millisecond."""
from pv.api import *


def utils(I):
    return I.import_module("jqtrade.common.utils")


@harness("date to milliseconds and back", covers=["whole second", "fraction"])
def there_and_back(I):
    u = utils(I)
    d = fresh_dt("d")
    ms, e = catch(I, u.dt_to_milliseconds, d)
    prove("every date converts", e is None and isinstance(ms, (int, SymInt)))
    cover("whole second" if truth(dt_us(d) % 1000000 == 0) else "fraction")
    back, e = catch(I, u.milliseconds_to_dt, ms)
    prove("date -> ms -> date truncates to the millisecond", and_(e is None, dt_us(back) == dt_us(d) - dt_us(d) % 1000))


@harness("milliseconds to date and back", covers=["any"])
def back_and_forth(I):
    u = utils(I)
    ms = fresh_int("ms", 365 * 86400000, 47000 * 86400000)
    d, e = catch(I, u.milliseconds_to_dt, ms)
    prove("every count converts", e is None)
    cover("any")
    r, e = catch(I, u.dt_to_milliseconds, d)
    prove("ms -> date -> ms is the identity", and_(e is None, val_eq(r, ms)))


@harness("order of dates is kept", covers=["later", "same"])
def monotone(I):
    u = utils(I)
    a, b = fresh_dt("a"), fresh_dt("b")
    assume(dt_us(a) <= dt_us(b))
    cover("later" if truth(dt_us(a) < dt_us(b)) else "same")
    x, y = I.call(u.dt_to_milliseconds, [a], {}), I.call(u.dt_to_milliseconds, [b], {})
    # lemma (the exact value), assumed once proved
    for d, m in ((a, x), (b, y)):
        prove("the number is the count of whole milliseconds", val_eq(m, (dt_us(d) - dt.utc_off() * 1000000) // 1000))
    prove("a later date is not an earlier number", x <= y)
    prove("dates a millisecond apart are different numbers", implies(dt_us(b) - dt_us(a) >= 1000, x < y))
