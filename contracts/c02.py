# -*- coding: utf-8 -*-
"""C02: a daily task is generated exactly once for every day of its window."""
from pv.api import *
from contracts.sched import *

TODAY = 738950          # arbitrary days are given relative to the clock's day


class Event(object):
    def __init__(self, i):
        self.i = i


class World(object):
    """a source with any number of daily tasks, task i at second t(i) of the day with its own event class"""

    def __init__(self, I, mode, tasks=True, days=None):
        self.I, self.mode = I, mode
        dt.freeze()
        self.cfg = I.import_module("jqtrade.scheduler.config").get_config()
        self.count = fresh_int("days_ahead", 1) if days is None else days
        I.setattr(self.cfg, "EVENT_DAYS_COUNT", self.count)
        I.setattr(self.cfg, "ENABLE_HISTORY_START", mode == "history")
        self.ES = I.import_module("jqtrade.scheduler.event_source")
        now = dt.now()
        self.today = dt.date_ord(now)
        self.end = fresh_dt("end") if mode != "live" else None
        if mode == "history":
            self.start = fresh_dt("start")
        else:
            self.start = now
        # a start given to a source of a live run is replaced by the moment of its set-up
        given = None if choose(2) and mode != "history" else self.start if mode == "history" else fresh_dt("given")
        self.es = I.call(self.ES.EventSource, [], {"start": given, "end": self.end})
        r, e = catch(I, I.getattr(self.es, "setup"))
        prove("a source can be set up", e is None, repr(e))
        self.first = dt.date_ord(self.start)
        self.last = dt.date_ord(self.end) if self.end is not None else None
        self.n = fresh_int("tasks", 0)
        self.classes = Seg("classes", self.n, lambda i: Opaque(z3.Function("evcls", z3.IntSort(), OBJ)(iterm(i)), truth=True,
                                                               call=lambda: Event(i)))
        if tasks:
            d = self.find_tasks()
            d._set([Seg("daily", self.n, lambda i: self.entry(i))])

    def find_tasks(self):
        """the list a daily() call adds to"""
        I = self.I
        mark = type("Mark", (), {})
        I.call(I.getattr(self.es, "daily"), [mark, "00:00:00"])
        for k, v in vars(self.es).items():
            if isinstance(v, PList) and any(isinstance(p, tuple) and mark in p for p in v.parts):
                p = v.parts[0]
                self.order = p.index(mark)
                return v
        raise Unsupported("the daily tasks are not kept in one list of pairs")

    def second(self, i):
        return ifun("t", i, 0, 86399)

    def entry(self, i):
        e = (hms_text(self.I, self.second(i) * US), self.classes.get(i))
        return e if self.order == 1 else e[::-1]

    def due(self, i, day):
        """instant of task i on a day"""
        return combine_day(day, self.second(i))

    def within(self, i, day):
        t = dt.dt_us(self.due(i, day))
        c = t >= dt.dt_us(self.start)
        return c if self.end is None else and_(c, t <= dt.dt_us(self.end))


def combine_day(day, sec):
    return dt.combine(mkdate(day), hms(sec))


@harness("the events of one day", covers=["in the window", "outside", "live", "with an end", "history"])
def one_day(I):
    mode = ("live", "end", "history")[choose(3)]
    w = World(I, mode)
    cover({"live": "live", "end": "with an end", "history": "history"}[mode])
    day = fresh_int("day", EPOCH + 365, EPOCH + 47000)
    evs = I.getattr(w.es, "_events")
    prove("a new source has no events", evs.parts == [])
    r, e = catch(I, I.getattr(w.es, "add_daily_events"), mkdate(day))
    prove("the day is expanded", e is None, repr(e))
    evs = I.getattr(w.es, "_events")
    j = fresh_int("j", 0)
    assume(j < w.n)
    got = None
    if len(evs.parts) == 1 and isinstance(evs.parts[0], Seg):
        base = [whole(c.dom) for c in loop_instance("daily")]
        p = position(evs.parts[0], base[0], j) if base else None
        got = evs.parts[0].get(p) if p is not None else None
        only = True
    else:
        only = evs.parts == [] and False
        prove("the events of the day stem from the tasks one by one", only)
    prove("a task has an event on a day exactly if its time is within the window", iff(got is not None, w.within(j, day)))
    if got is not None:
        cover("in the window")
        prove("at the task's time of that day", val_eq(got[0], w.due(j, day)))
        prove("of the task's class", isinstance(got[1], Event) and val_eq(got[1].i, j))
    else:
        cover("outside")


class Days(object):
    """invariant of the search for the next day with events: the days before were expanded, in order, without any event;
    what remains are the following days in order"""

    def __init__(self, w, first):
        self.w, self.first = w, first       # first: the day to be expanded first

    def applies(self, fr):
        return fr.locals.get("self") is self.w.es

    def owns(self, key, obj):
        w = self.w
        if getattr(obj, "o", None) is w.es:
            return obj.name in ("_days", "_events", "_last_day", "_has_gen_his_days")
        return isinstance(obj, PList) and (obj is w.es._days or obj is w.es._events)

    def assume(self, k):
        w = self.w
        if isinstance(k, int) and k == 0:
            return
        if eng().choose(2) == 0 and k is not None:
            # the entry state
            assume(val_eq(k, 0))
            return
        assume(k > 0)
        last = self.first + k - 1
        self.set(last, k)

    def set(self, last, k):
        w = self.w
        I = w.I
        w.set_state(last, [(last, "ev")] if choose(2) else [])
        # the days before `last` have no event; `last` has one exactly if it is waiting
        if w.mode != "live":
            assume(last <= w.last)
        w.noev(self.first, last)
        if I.getattr(w.es, "_events").parts:
            fact(w.ev(last))
        else:
            fact(z3.Not(w.ev(last)))

    def check(self, k1):
        w = self.w
        if isinstance(k1, int) and k1 == 0:
            return
        k = mkint(iterm(k1) - 1)
        day = self.first + k
        prove("days are expanded one after another", val_eq(dt.date_ord(w.I.getattr(w.es, "_last_day")), day))
        prove("each once", w.expanded == 1)
        w.check_days(day + 1)
        evs = w.I.getattr(w.es, "_events").parts
        prove("nothing but the day's events is waiting", iff(len(evs) == 1, mkbool(w.ev(day))))


class Abstract(World):
    """a source whose expansion of a day is known by its contract only: the events of day d are given by a predicate"""

    def __init__(self, I, mode):
        World.__init__(self, I, mode, tasks=False)
        self.expanded = 0
        w = self

        def add_daily_events(day):
            d = dt.date_ord(day)
            w.expanded += 1
            if truth(mkbool(w.ev(d))):
                I.getattr(w.es, "_events").append(w.event(d))
        self.es.__dict__["add_daily_events"] = add_daily_events
        w.limits = []

    def ev(self, d):
        return z3.Function("has_events", z3.IntSort(), z3.BoolSort())(iterm(d))

    def event(self, d):
        return (combine_day(d, ifun("at", d, 0, 86399)), Event(d))

    def noev(self, a, b):
        self.limits.append((a, b))

    def none_in(self, d):
        """instantiate: no events on the skipped days"""
        for a, b in self.limits:
            fact(z3.Implies(z3.And(iterm(d) >= iterm(a), iterm(d) < iterm(b)), z3.Not(self.ev(d))))

    def set_state(self, last, events):
        """a state between two calls: `last` was the last day expanded, any number of the following days remain"""
        I, es = self.I, self.es
        r = fresh_int("left", 0)
        if self.mode != "live":
            r = self.last - last
        I.setattr(es, "_last_day", mkdate(last))
        I.setattr(es, "_days", PList([Seg("days", r, lambda i: mkdate(last + 1 + i))]))
        I.setattr(es, "_events", PList([self.event(d) for d, _ in events]))
        I.setattr(es, "_need_regenerate_events", False)
        I.setattr(es, "_has_gen_his_days", True)

    def check_days(self, nxt):
        days = self.I.getattr(self.es, "_days")
        i = fresh_int("i", 0)
        n = days.length()
        if truth(i < n):
            prove("the remaining days follow without gap or repetition", val_eq(dt.date_ord(days.index_part(i)), nxt + i))
        if self.mode != "live":
            prove("up to the last day of the window", val_eq(n, self.last - nxt + 1) if truth(self.last - nxt + 1 >= 0) else val_eq(n, 0))

    def first_day(self):
        """the first day to be expanded"""
        return self.today if self.mode == "live" else self.first


@harness("the next event of any source at any time", covers=["new", "consumed", "waiting", "found", "none", "live", "end", "history"])
def next_event(I):
    mode = ("live", "end", "history")[choose(3)]
    w = Abstract(I, mode)
    cover(mode)
    stage = ("new", "consumed", "waiting")[choose(3)]
    cover(stage)
    if stage == "new":
        first = w.first_day()
    else:
        last = fresh_int("last", EPOCH + 365, EPOCH + 40000)
        if mode != "live":
            assume(last >= w.first)
            assume(last <= w.last)
        w.set_state(last, [(last, 0)] if stage == "waiting" else [])
        first = last + 1
        if choose(2):
            # the source has been looked at before: no events were found to wait
            pass
    inv = Days(w, first)
    I.while_invariants.append(inv)
    peek = choose(2)
    op = I.getattr(w.es, "peek_next_event" if peek else "get_next_event")
    r, e = catch(I, op)
    prove("the next event is given", e is None, repr(e))
    if stage == "waiting":
        want = w.event(last)
        prove("the waiting event is the next one", and_(r is not None, val_eq(r[0], want[0]), r[1].i is want[1].i or val_eq(r[1].i, last)))
        day = last
    elif r is None:
        cover("none")
        prove("only a window with an end runs out of events", mode != "live")
        d = fresh_int("d")
        assume(d >= first)
        assume(d <= w.last)
        w.none_in(d)
        prove("and only if no day is left that has one", z3.Not(w.ev(d)))
        return
    else:
        cover("found")
        day = mkint(iterm(r[1].i))
        prove("the day of the event has it", and_(mkbool(w.ev(day)), val_eq(r[0], w.event(day)[0])))
        prove("it is not before the next day", day >= first)
        d = fresh_int("d")
        assume(d >= first)
        assume(d < day)
        if eng()._check() != z3.unsat:
            w.none_in(d)
            prove("no day before it has one", z3.Not(w.ev(d)))
    w_evs = I.getattr(w.es, "_events").parts
    if peek:
        prove("peeking leaves the event waiting", len(w_evs) == 1 and w_evs[0][1] is r[1])
        r2, e = catch(I, op)
        prove("peeking again gives the same", r2 is not None and val_eq(r2[0], r[0]) and r2[1] is r[1])
        r3, e = catch(I, I.getattr(w.es, "get_next_event"))
        prove("and so does taking it", r3 is not None and val_eq(r3[0], r[0]) and r3[1] is r[1])
    prove("afterwards the event has been taken", I.getattr(w.es, "_events").parts == [])
    prove("and the day it belongs to is the last expanded", val_eq(dt.date_ord(I.getattr(w.es, "_last_day")), day))
    w.check_days(day + 1)


@harness("the events of a day come out in order of time", covers=["two", "first"])
def order(I):
    w = World(I, "live", tasks=False, days=1)
    n = fresh_int("m", 1)
    base = Seg("unsorted", n, lambda i: (combine_day(w.today, ifun("u", i, 0, 86399)), Event(i)))

    def add_daily_events(day):
        I.getattr(w.es, "_events")._set([base])
    w.es.__dict__["add_daily_events"] = add_daily_events
    r, e = catch(I, I.getattr(w.es, "get_next_event"))
    prove("an event is given", and_(e is None, r is not None), repr(e))
    rest = I.getattr(w.es, "_events")
    prove("one event is taken", val_eq(rest.length(), n - 1))
    j = fresh_int("j", 0)
    assume(j < n - 1)
    cover("first")
    x = rest.index_part(j)
    prove("the earliest event comes first", dt.dt_us(r[0]) <= dt.dt_us(x[0]))
    prove("each event once", not_(val_eq(r[1].i, x[1].i)))
    k = fresh_int("k", 0)
    assume(j < k)
    assume(k < n - 1)
    cover("two")
    y = rest.index_part(k)
    prove("the others follow in order of time", dt.dt_us(x[0]) <= dt.dt_us(y[0]))
    prove("each event once", not_(val_eq(x[1].i, y[1].i)))


@harness("any number of events waiting", covers=["peeked", "taken"])
def waiting(I):
    mode = ("live", "end", "history")[choose(3)]
    w = Abstract(I, mode)
    last = fresh_int("last", EPOCH + 365, EPOCH + 40000)
    if mode != "live":
        assume(last >= w.first)
        assume(last <= w.last)
    w.set_state(last, [])
    n = fresh_int("waiting", 1)
    I.setattr(w.es, "_events", PList([Seg("waiting", n, lambda i: (combine_day(last, ifun("u", i, 0, 86399)), Event(i)))]))
    j = fresh_int("j", 0)
    for _ in range(choose(2) + 1):
        r, e = catch(I, I.getattr(w.es, "peek_next_event"))
        cover("peeked")
        prove("peeking gives the first of them", e is None and r is not None and val_eq(r[1].i, 0), repr(e))
        prove("and leaves all of them", val_eq(I.getattr(w.es, "_events").length(), n))
        if truth(j < n):
            prove("in their order", val_eq(I.getattr(w.es, "_events").index_part(j)[1].i, j))
    r, e = catch(I, I.getattr(w.es, "get_next_event"))
    cover("taken")
    prove("the first of them is taken", e is None and r is not None and val_eq(r[1].i, 0), repr(e))
    prove("and only this one", val_eq(I.getattr(w.es, "_events").length(), n - 1))
    if truth(j < n - 1):
        prove("the others stay in their order", val_eq(I.getattr(w.es, "_events").index_part(j)[1].i, j + 1))
    prove("no day is expanded meanwhile", w.expanded == 0)
    w.check_days(last + 1)
