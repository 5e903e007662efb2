# -*- coding: utf-8 -*-
"""C09: each scheduled source keeps exactly one wake-up, at its next event."""
import ast
import types

from pv.api import *
from pv.interp import IFunc
from pv.lib import Partial
from contracts.sched import *


class Loop(object):
    def __init__(self):
        self.messages = []

    def push_message(self, m, *a, **k):
        self.messages.append(m)


class EventBus(object):
    def __init__(self):
        self.emitted = []
        self.during = None

    def emit(self, e):
        self.emitted.append(e)
        if self.during:
            self.during()
        return PList([[], [False], [True]][choose(3)])


class Event(object):
    def __init__(self, src, i):
        self.src, self.i = src, i
        self.priority = ifun("prio_" + src.tag, i)


class Source(object):
    """a source with any events at any times: those from number i on are still to come"""

    def __init__(self, tag, n):
        self.tag, self.n = tag, n       # n: number of events
        self.i = 0
        self.taken = []
        self.changed = []
        self.memo = []

    def at(self, i):
        return mkdt(ifun("at_" + self.tag, i, 365 * D, 47000 * D))

    def event(self):
        for i, e in self.memo:
            if i is self.i:
                return e
        e = (self.at(self.i), Event(self, self.i))
        self.memo.append((self.i, e))
        return e

    def peek_next_event(self):
        return self.event() if truth(self.i < self.n) else None

    def get_next_event(self):
        if not truth(self.i < self.n):
            return None
        e = self.event()
        self.taken.append(self.i)
        self.i = self.i + 1
        return e

    def register_event_changed(self, cb):
        self.changed.append(cb)


class World(object):
    """a scheduler with any sources scheduled before, some of them removed again"""

    def __init__(self, I):
        self.I = I
        self.loop, self.bus = Loop(), EventBus()
        self.ctx = context(I, loop=self.loop, event_bus=self.bus)
        M = I.import_module("jqtrade.scheduler.event_source")
        self.sched = I.call(M.EventSourceScheduler, [])
        u = fresh_int("used_ids", 0)
        I.setattr(M.EventSourceScheduler, "_unique_id", u)
        m = fresh_int("others", 0)
        idx = z3.Function("other_index", z3.IntSort(), z3.IntSort())
        self.table = [v for v in vars(self.sched).values() if isinstance(v, PDict)][0]
        self.others = SymMap("others", m, lambda i: ifun("other_id", i), lambda i: Opaque(z3.Function(
            "other", z3.IntSort(), OBJ)(iterm(i))), lambda k: mkint(idx(iterm(k))))
        self.m = m
        self.u = u
        self.table._set([self.others])

    def used(self, k):
        """an id under which another source is scheduled, at an arbitrary place of the table"""
        j = fresh_int("j", 0)
        assume(j < self.m)
        k, _ = self.others.root_seg().get(j)
        assume(and_(k >= 1, k <= self.u))
        return k

    def schedule(self, src):
        r, e = catch(self.I, I_get(self.I, self.sched, "schedule"), src)
        prove("a source can be scheduled", e is None, repr(e))
        return r

    def last(self, src, i, what):
        """one message was submitted, for event i of the source"""
        ms = self.loop.messages
        prove(what + " one wake-up is submitted", len(ms) == 1)
        m = ms.pop()
        t = self.I.call(self.I.import_module("jqtrade.common.utils").dt_to_milliseconds, [src.at(i)])
        prove("at the time of the event", val_eq(self.I.getattr(m, "time"), t))
        prove("with its priority", val_eq(self.I.getattr(m, "priority"), ifun("prio_" + src.tag, i)))
        return m

    def run(self, m):
        return catch(self.I, self.I.getattr(m, "callback"), **dict(items(self.I, self.I.getattr(m, "callback_data"))))


def items(I, d):
    return list(d.entries) if isinstance(d, PDict) else list(d.items())


def same_work(a, b, seen=()):
    """the same thing, or the same code over the same things"""
    if a is b or (id(a), id(b)) in seen:
        return True
    seen += ((id(a), id(b)),)
    if isinstance(a, types.MethodType) and isinstance(b, types.MethodType):
        return a.__func__ is b.__func__ and a.__self__ is b.__self__
    if isinstance(a, Partial) and isinstance(b, Partial):
        return same_work(a.func, b.func, seen) and len(a.args) == len(b.args) and a.keywords.keys() == b.keywords.keys() and \
            all(same_work(x, y, seen) for x, y in zip(a.args, b.args)) and \
            all(same_work(v, b.keywords[k], seen) for k, v in a.keywords.items())
    if isinstance(a, IFunc) and isinstance(b, IFunc):
        if a.node is not b.node or a.fr.g is not b.fr.g:
            return False
        names = {n.id for n in ast.walk(a.node) if isinstance(n, ast.Name)}
        pairs = [(found(a.fr, n), found(b.fr, n)) for n in sorted(names)]
        pairs += list(zip(a.defaults, b.defaults)) if len(a.defaults) == len(b.defaults) else [(a, None)]
        return all(same_work(x, y, seen) for x, y in pairs)
    if isinstance(a, (int, str, SymInt)) and isinstance(b, (int, str, SymInt)):
        return val_eq(a, b) is True
    return False


def found(fr, name):
    """what the name means there, None if it is nothing of an enclosing function"""
    while fr is not None:
        if name in fr.locals and fr.kind == "func":
            return fr.locals[name]
        fr = fr.parent
    return None


def same_data(a, b):
    return len(a) == len(b) and all(x == y and isinstance(x, str) and same_work(v, w) for (x, v), (y, w) in zip(a, b))


def I_get(I, o, n):
    return I.getattr(o, n)


@harness("a source is scheduled and followed to its end", covers=["has events", "without events", "next", "ended", "several"])
def chain(I):
    w = World(I)
    n = fresh_int("n", 0)
    s = Source("s", n)
    sid = w.schedule(s)
    if not truth(n > 0):
        cover("without events")
        prove("nothing is submitted for a source without events", w.loop.messages == [])
        return
    cover("has events")
    m = w.last(s, 0, "for the first event")
    prove("nothing is dispatched or taken yet", and_(w.bus.emitted == [], s.taken == []))
    # event i is the next one, and its wake-up runs
    first = m
    i = fresh_int("i", 0)
    assume(i < n)
    s.i = i
    cover("several")
    r, e = w.run(m)
    prove("the wake-up runs", e is None, repr(e))
    prove("it takes its event", len(s.taken) == 1 and s.taken[0] is i)
    prove("and dispatches it once", len(w.bus.emitted) == 1 and w.bus.emitted[0].src is s and w.bus.emitted[0].i is i)
    if truth(i + 1 < n):
        cover("next")
        m = w.last(s, i + 1, "for the next event")
        prove("which works like the one before",
              same_work(I.getattr(m, "callback"), I.getattr(first, "callback")) and
              same_data(items(I, I.getattr(m, "callback_data")), items(I, I.getattr(first, "callback_data"))))
    else:
        cover("ended")
        prove("after the last event nothing is submitted", w.loop.messages == [])


@harness("an unscheduled source", covers=["unscheduled", "again"])
def unscheduled(I):
    w = World(I)
    n = fresh_int("n", 1)
    s = Source("s", n)
    sid = w.schedule(s)
    m = w.last(s, 0, "for the first event")
    i = fresh_int("i", 0)
    assume(i <= n)
    s.i = i
    r, e = catch(I, I.getattr(w.sched, "unschedule"), sid)
    prove("a source can be unscheduled", e is None, repr(e))
    cover("unscheduled")
    if choose(2):
        r, e = catch(I, I.getattr(w.sched, "unschedule"), sid)
        prove("even twice", e is None, repr(e))
        cover("again")
    other = choose(2)
    if other:
        # another source is scheduled afterwards
        o = Source("o", fresh_int("no", 1))
        oid = w.schedule(o)
        prove("it has an id of its own", not_(val_eq(oid, sid)))
        mo = w.last(o, 0, "for the other source's first event")
    r, e = w.run(m)
    prove("its pending wake-up does nothing", and_(e is None, w.bus.emitted == [], w.loop.messages == [], s.taken == []), repr(e))
    if other:
        prove("and takes nothing from the other source", o.taken == [])
        w.run(mo)
        prove("which works as before", len(w.bus.emitted) == 1 and w.bus.emitted[0].src is o)


@harness("two sources do not affect each other", covers=["both", "one gone"])
def two(I):
    w = World(I)
    a, b = Source("a", fresh_int("na", 1)), Source("b", fresh_int("nb", 1))
    ida = w.schedule(a)
    ma = w.last(a, 0, "for the first event")
    idb = w.schedule(b)
    mb = w.last(b, 0, "for the other's first event")
    prove("they have different ids", not_(val_eq(ida, idb)))
    a.i, b.i = fresh_int("ia", 0), fresh_int("ib", 0)
    assume(and_(a.i < a.n, b.i < b.n))
    gone = choose(2)
    if gone:
        cover("one gone")
        I.call(I.getattr(w.sched, "unschedule"), [ida])
    else:
        cover("both")
    ib = b.i
    w.run(ma)
    prove("the wake-up of one source takes nothing from the other", b.taken == [])
    prove("and dispatches nothing of it", all(e.src is a for e in w.bus.emitted) and len(w.bus.emitted) == (not gone))
    del w.loop.messages[:], w.bus.emitted[:]
    w.run(mb)
    prove("the other's wake-up dispatches its event", len(w.bus.emitted) == 1 and w.bus.emitted[0].src is b and
          w.bus.emitted[0].i is ib)


@harness("sources scheduled before", covers=["kept", "unscheduled"])
def others(I):
    w = World(I)
    k = w.used(0)
    s = Source("s", fresh_int("n", 0))
    # all ids given so far are at most the last one
    sid = w.schedule(s)
    prove("a new source does not take the id of another", not_(val_eq(sid, k)))
    cover("kept")
    v = w.table.get(k, None)
    prove("which stays scheduled", v is not None)
    prove("so does the new one", w.table.get(sid, None) is s)
    I.call(I.getattr(w.sched, "unschedule"), [k])
    cover("unscheduled")
    prove("unscheduling one of them removes it", w.table.get(k, None) is None)
    prove("and leaves the new one", w.table.get(sid, None) is s)
