# -*- coding: utf-8 -*-
"""C01: time expressions denote the documented instant of the day."""
import itertools

from pv.api import *
from contracts.sched import *
from pv.strings import part_z3


class Event(object):
    pass


class Options(object):
    def __init__(self, options):
        self.options = options


class World(object):
    """one trading period or more, from the options or the configuration, and a source whose window is open"""

    def __init__(self, I, source=None, texts=None, given=None, many=None):
        self.I = I
        self.cfg = I.import_module("jqtrade.scheduler.config").get_config()
        I.setattr(self.cfg, "EVENT_DAYS_COUNT", 1)
        M = I.import_module("jqtrade.scheduler.event_source")
        self.EventSource = source or M.EventSource
        I.setattr(self.cfg, "ENABLE_HISTORY_START", True)
        self.open, self.close = fresh_int("open", 0, 86399), fresh_int("close", 0, 86399)
        texts = choose(2) if texts is None else texts
        mk = lambda s: hms_text(I, s * US) if texts else hms(s)      # noqa
        cover("text" if texts else "time")
        many = choose(2) if many is None else many
        if many:
            cover("many periods")
            mid = Seg("between", fresh_int("more", 0), lambda i: tuple(mk(ifun(n, i, 0, 86399)) for n in ("a", "b")))
            p = [(mk(self.open), mk(fresh_int("x", 0, 86399))), mid, (mk(fresh_int("y", 0, 86399)), mk(self.close))]
        else:
            p = [(mk(self.open), mk(self.close))]
        given = choose(2) if given is None else given
        other = PList([(mk(fresh_int("o", 0, 86399)), mk(fresh_int("c", 0, 86399)))])
        if given:
            cover("from the options")
            I.setattr(self.cfg, "MARKET_PERIOD", other)
            options = PDict([("market_period", PList(p))])
        else:
            cover("from the configuration")
            I.setattr(self.cfg, "MARKET_PERIOD", PList(p))
            options = PDict([])
        self.options = options
        self.day = fresh_int("day", EPOCH + 365, EPOCH + 47000)

    def context(self):
        c = context(self.I)
        self.I.setattr(c, "strategy", Options(self.options))

    def event(self, expr, due=None):
        """the event of a source with one task at expr, on the day"""
        I = self.I
        start = fresh_dt("start")
        if due is not None:
            assume(dt.dt_us(start) <= dt.dt_us(due))
        es = I.call(self.EventSource, [], {"start": start})
        I.call(I.getattr(es, "daily"), [Event, expr])
        I.call(I.getattr(es, "setup"), [])
        r, e = catch(I, I.getattr(es, "add_daily_events"), mkdate(self.day))
        if e is not None:
            return None, e
        n, e = catch(I, I.getattr(es, "get_next_event"))
        return n, e

    def due(self, base, delta=0):
        b = self.open if base == "open" else self.close
        return mkdt(dt.dt_us(dt.combine(mkdate(self.day), hms(b))) + delta * US)

    def at(self, expr, due, what):
        n, e = self.event(expr, due)
        prove("the expression is accepted", e is None, repr(e))
        prove("the task has an event on the day", n is not None)
        prove(what, val_eq(n[0], due))
        prove("of its class", isinstance(n[1], Event))


@harness("clock times", covers=["seconds", "no seconds", "one digit"])
def clock(I):
    w = World(I, texts=0, given=1, many=0)
    w.context()
    h, m, s = fresh_int("h", 0, 23), fresh_int("m", 0, 59), fresh_int("s", 0, 59)

    def text(v):
        if choose(2):
            return num(v, 2)
        assume(v < 10)
        cover("one digit")
        return num(v, 1)
    expr = text(h) + ":" + text(m)
    at = h * 3600 + m * 60
    if choose(2):
        expr = expr + ":" + text(s)
        at = at + s
        cover("seconds")
    else:
        cover("no seconds")
    due = mkdt(dt.dt_us(dt.combine(mkdate(w.day), hms(0))) + at * US)
    w.at(expr, due, "at that time of the day")


@harness("open and close of the period in force", covers=["open", "close", "text", "time", "many periods", "from the options",
                                                           "from the configuration"])
def base(I):
    w = World(I)
    w.context()
    b = ("open", "close")[choose(2)]
    cover(b)
    w.at(b, w.due(b), "at the start of the first or the end of the last period")


UNITS = {"h": 3600, "m": 60, "s": 1}
ORDERS = [o for k in (1, 2, 3) for o in itertools.permutations("hms", k)]


@harness("open and close with an offset", covers=["plus", "minus"], max_paths=4000)
def offset(I):
    w = World(I, texts=0, given=1, many=0)
    w.context()
    b = ("open", "close")[choose(2)]
    sign = choose(2)
    cover("plus" if sign else "minus")
    expr = b + ("+" if sign else "-")
    delta = 0
    for u in ORDERS[choose(len(ORDERS))]:
        two = choose(2)
        v = fresh_int(u, 0, 99 if two else 9)
        expr = expr + num(v, 2 if two else 1) + u
        delta = delta + v * UNITS[u]
    w.at(expr, w.due(b, delta if sign else -delta), "at that distance from the open or the close")


@harness("one expression after another", covers=["base", "plus", "minus", "clock"])
def again(I):
    """what an earlier expression, on another day or with another trading period, denoted changes nothing"""
    def some(w, u):
        k = choose(4)
        b = ("open", "close")[choose(2)] if k < 3 else None
        if k == 0:
            cover("base")
            return b, w.due(b)
        v = fresh_int("v", 0, 23)
        if k == 3:
            cover("clock")
            return num(v, 2) + ":00", mkdt(dt.dt_us(dt.combine(mkdate(w.day), hms(0))) + v * 3600 * US)
        cover(("plus", "minus")[k - 1])
        return b + "+-"[k - 1] + num(v, 2) + u, w.due(b, v * UNITS[u] * (3 - 2 * k))
    w = World(I, texts=0, given=1, many=0)
    w.context()
    expr, due = some(w, "hm"[choose(2)])
    n, e = w.event(expr, due)
    prove("the first expression is accepted", e is None, repr(e))
    w = World(I, texts=0, given=1, many=0)
    w.context()
    expr, due = some(w, "m")
    w.at(expr, due, "the next expression denotes its own instant")


@harness("the words for the open, the close and the times around them", covers=["open", "close", "before_open", "after_close"])
def words(I):
    M = I.import_module("jqtrade.scheduler.event_source")
    source = M.EventSource
    word, b, delta = (("open", "open", 0), ("close", "close", 0), ("before_open", "open", -1800), ("after_close", "close", 1800))[choose(4)]
    cover(word)
    w = World(I, source, texts=0, given=0, many=0)
    M.EventSource = SourceStub
    eng().ghost["sources"] = []

    def init(m):
        I.call(m.set_options, [], {"use_account": False})
        I.call(m.run_daily, [task, word])

    def task(c):
        pass
    c, s, m = strategy(I, init)
    r, e = catch(I, I.getattr(s, "setup"))
    prove("a strategy with such a task can be set up", e is None, repr(e))
    log = [x for src in eng().ghost["sources"] for x in src.log.parts]
    prove("one daily task is set up", len(log) == 1)
    w.at(log[0][1], w.due(b, delta), "at that instant")


def grammar():
    d = z3.Loop(z3.Range("0", "9"), 1, 2)
    out = []
    for o in ORDERS:
        ps = [z3.Concat(d, z3.Re(z3.StringVal(u))) for u in o]
        out.append(ps[0] if len(ps) == 1 else z3.Concat(*ps))
    return z3.Union(*out)


def refused(I, expr):
    w = World(I, texts=0, given=1, many=0)
    w.context()
    n, e = w.event(expr)
    prove("it is refused with an error", e is not None and isinstance(e, Exception), repr(n))


def unknown_base():
    b = fresh_str("base", excl=":+-")
    assume(and_(*[not_(val_eq(b, x)) for x in ("open", "close")]))
    return b


@harness("an unknown base is rejected", covers=["unknown base"])
def bad_base(I):
    cover("unknown base")
    refused(I, unknown_base())


@harness("more than one sign is rejected", covers=["more than one sign"])
def signs(I):
    cover("more than one sign")
    refused(I, fresh_str("base", excl=":+-") + "+-"[choose(2)] + fresh_str("offset", excl=":+-") + "+-"[choose(2)] + fresh_str(
        "rest", excl=":"))


# the six following are one statement each, taken apart to be checked at the same time
def bad_base_offset(sign):
    @harness("an unknown base with an offset is rejected (%s)" % sign, covers=["unknown base"], max_paths=4000)
    def f(I):
        cover("unknown base")
        refused(I, unknown_base() + sign + fresh_str("offset", excl=":+-"))


def bad_offset(b, sign):
    @harness("a malformed offset is rejected (%s%s)" % (b, sign), covers=["malformed offset"], max_paths=4000)
    def f(I):
        o = fresh_str("offset", excl=":+-")
        assume(mkbool(z3.Not(z3.InRe(part_z3(o.parts[0]), grammar()))))
        cover("malformed offset")
        refused(I, b + sign + o)


for sign_ in "+-":
    bad_base_offset(sign_)
    for base_ in ("open", "close"):
        bad_offset(base_, sign_)
