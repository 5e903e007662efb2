# -*- coding: utf-8 -*-
"""C10: tasks and options can be set only during initialisation and take effect as given."""
from pv.api import *
from contracts.sched import *


class Log(object):
    """a bus, scheduler or loop that records what it is given in a sequence the verifier follows through loops"""

    def __init__(self, I, name):
        self.c = cell(I, name, log=PList([]))

    @property
    def log(self):
        return self.c.log

    def register(self, cls, cb, priority=0):
        self.log.append((cls, cb, priority))

    def schedule(self, es):
        self.log.append(es)
        return 0


def sources(I):
    I.import_module("jqtrade.scheduler.event_source").EventSource = SourceStub


def named(name, f=None):
    f = f or (lambda c: None)
    f.__name__ = name
    return f


@harness("tasks and options outside the initialisation", covers=["before", "after", "failed", "in a task", "run_daily", "set_options"])
def outside(I):
    sources(I)
    when = ("before", "after", "failed", "in a task")[choose(4)]
    what = ("run_daily", "set_options")[choose(2)]
    cover(when)
    cover(what)
    got = []
    given = fresh_obj("option")

    def attempt(m):
        if what == "run_daily":
            got.append(catch(I, m.run_daily, named("late"), "close"))
        else:
            got.append(catch(I, m.set_options, use_account=False, other=given, market_period=PList([])))
    count = choose(2) if when != "in a task" else 1

    def init(m):
        I.call(m.set_options, [], {"use_account": False, "x": 1})
        for i in range(count):
            I.call(m.run_daily, [named("task", lambda c: attempt(m) if when == "in a task" else None), "open"])
        if when == "failed":
            raise ValueError("initialisation")
    c, s, m = strategy(I, init)
    if when == "before":
        I.call(I.getattr(s, "make_apis"), [])
        attempt(m)
    r, e = catch(I, I.getattr(s, "setup"))
    if when == "failed":
        prove("the error of the initialisation gets out", isinstance(e, ValueError))
    else:
        prove("the set-up succeeds", e is None, repr(e))
    if when in ("after", "failed"):
        attempt(m)
    if when == "in a task":
        cls, cb, p = c._event_bus.registered[0]
        I.call(cb, [I.call(cls, [])])
    prove("the attempt is refused", len(got) == 1 and got[0][1] is not None)
    IC = I.import_module("jqtrade.common.exceptions").InvalidCall
    prove("as an invalid call", isinstance(got[0][1], IC))
    o = I.getattr(s, "options")
    prove("the options stay as set by the initialisation", val_eq(len_(I, o), 2) and o.get("x", None) == 1)
    prove("the use of the account too", I.getattr(c, "use_account") is False)
    if when == "failed":
        prove("nothing is scheduled", c._scheduler.sources == [] and c._event_bus.registered == [])
        return
    prove("only the tasks of the initialisation are scheduled", len(c._scheduler.sources) == count and len(c._event_bus.registered) == count)


def len_(I, o):
    return len(o) if isinstance(o, (tuple, list)) else o.length()


class EventClass(object):
    """an event class as create_event_class is known (see "event classes") to give it: one for every name"""

    def __init__(self, name, priority):
        self.name, self.priority = name, priority

    def __call__(self):
        return self


@harness("event classes", covers=["existing", "new"])
def event_classes(I):
    E = I.import_module("jqtrade.scheduler.event")
    reg = [v for k, v in vars(E).items() if isinstance(v, PDict)]
    prove("the classes are kept in one table", len(reg) == 1)
    n = fresh_int("n", 0)
    obj = z3.Function("class_of", z3.IntSort(), OBJ)
    m = SymMap("classes", n, lambda i: str_fun("clsname", i), lambda i: Opaque(obj(iterm(i)), truth=True))
    reg[0]._set([m])
    name = fresh_str("wanted")
    i = fresh_int("i", 0)
    if choose(2):
        assume(i < n)
        m.root_seg().get(i)
        name = str_fun("clsname", i)
    c, e = catch(I, E.create_event_class, name, fresh_int("priority"))
    prove("there is a class for every name", e is None, repr(e))
    if isinstance(c, Opaque):
        cover("existing")
        j = fresh_int("j", 0)
        assume(j < n)
        k, v = m.root_seg().get(j)
        prove("the class of that name, if there is one", implies(val_eq(k, name), mkbool(v.t == c.t)))
    else:
        cover("new")
        prove("a new kind of event otherwise", isinstance(c, type) and issubclass(c, E.Event))
    c2, e = catch(I, E.create_event_class, name, fresh_int("priority"))
    prove("the same name gives the same class", c2 is c or isinstance(c, Opaque) and val_eq(c2, c))
    other = fresh_str("other")
    assume(not_(val_eq(other, name)))
    c3, e = catch(I, E.create_event_class, other, 0)
    prove("another name gives another class", c3 is not c if isinstance(c, type) or isinstance(c3, type) else True)
    p = fresh_int("priority")
    c4, e = catch(I, E.create_event_class, fresh_str("third"), p)
    if isinstance(c4, type) and c4 is not c and c4 is not c3:
        prove("a new class has the given priority", val_eq(I.getattr(c4, "priority"), p))


@harness("any number of tasks", covers=["two"])
def tasks(I):
    sources(I)
    I.import_module("jqtrade.scheduler.event").create_event_class = lambda name, priority=0: EventClass(name, priority)
    sched, bus = Log(I, "sched"), Log(I, "bus")
    ran = []
    n = fresh_int("n", 0)
    mark = named("mark")

    def name(i):
        return str_fun("name", i)

    def time(i):
        return str_fun("time", i, excl="_")

    def make(like):
        def func(i):
            return Opaque(z3.Function("func", z3.IntSort(), OBJ)(iterm(i)), truth=True, attrs={"__name__": name(i), "__module__": "user"},
                          call=lambda c: ran.append((i, c)))

        def get(i):
            f = func(i)
            return PDict([(k, f if v is mark else name(i) if v == "mark" else time(i) if v == "open+0m" else v)
                          for k, v in like.entries])
        return get

    def init(m):
        I.call(m.set_options, [], {"use_account": False})
        I.call(m.run_daily, [mark, "open"])
        for v in vars(s).values():
            if isinstance(v, PList) and any(isinstance(p, PDict) and any(x is mark for _, x in p.entries) for p in v.parts):
                v._set([Seg("tasks", n, make(v.parts[0]))])
                return
        raise Unsupported("the registered tasks are not kept in one list of dicts")
    m = Module()
    m.process_initialize = lambda c: init(m)
    eng().ghost.setdefault("on_isdir", lambda p: True)
    c = context(I, loader=Loader(m), scheduler=sched, event_bus=bus)
    S = I.import_module("jqtrade.scheduler.strategy")
    s = I.call(S.Strategy, [c])
    r, e = catch(I, I.getattr(s, "setup"))
    prove("the set-up succeeds", e is None, repr(e))
    cut = [x for x in loop_instance("tasks")]
    j, k = fresh_int("j", 0), fresh_int("k", 0)
    assume(and_(j < k, k < n))
    cover("two")
    prove("one subscription and one source for every task", and_(val_eq(len_(I, bus.log), n), val_eq(len_(I, sched.log), n)))
    got = []
    for i in (j, k):
        cls, cb, p = bus.log.index_part(i)
        es = sched.log.index_part(i)
        got.append(cls)
        prove("its events are of the usual priority", cls.priority == 0)
        prove("the source is ready", es.ready is True)
        prove("it has the task's time and event", len(es.log.parts) == 1 and es.log.parts[0][0] is cls and val_eq(es.log.parts[0][1], time(i)))
        del ran[:]
        I.call(cb, [None])
        prove("its event runs the task's own function once, with the user's context", len(ran) == 1 and val_eq(ran[0][0], i) and
              ran[0][1] is m.context)
    prove("different tasks have different events", not_(val_eq(got[0].name, got[1].name)))


@harness("a task that cannot be called, a strategy without initialisation", covers=["not callable", "no initialisation"])
def refused(I):
    sources(I)
    if choose(2):
        cover("not callable")
        got = []
        x = [None, 5, "handle", PList([]), fresh_int("x"), fresh_str("s")][choose(6)]
        c, s, m = strategy(I, lambda m: (I.call(m.set_options, [], {"use_account": False}), got.append(catch(I, m.run_daily, x, "open"))))
        r, e = catch(I, I.getattr(s, "setup"))
        prove("a thing that cannot be called is refused", len(got) == 1 and got[0][1] is not None)
        prove("and not scheduled", and_(e is None, c._scheduler.sources == []), repr(e))
    else:
        cover("no initialisation")
        c, s, m = strategy(I, None)
        r, e = catch(I, I.getattr(s, "setup"))
        prove("a strategy without process_initialize is refused", isinstance(e, I.import_module("jqtrade.common.exceptions").TaskError))
        prove("and nothing is scheduled", c._scheduler.sources == [])


def truthy(v):
    return [True, False, 1, 0, "yes", "", None][v]      # truth values of every kind


def a_time(I, tag, i, form):
    """a time of day given as text or as such, and the time it is"""
    t = hms(ifun(tag, i, 0, 86399))
    return (t if form else I.call(I.getattr(t, "strftime"), ["%H:%M:%S"])), t


def set_(I, given):
    got = []
    c, s, m = strategy(I, lambda m: got.append(catch(I, m.set_options, **given)))
    r, e = catch(I, I.getattr(s, "setup"))
    prove("the options are accepted", and_(e is None, got[0][1] is None), repr(e or got[0][1]))
    o = I.getattr(s, "options")
    prove("exactly the given options are stored", val_eq(len_(I, o), len(given)))
    return o


@harness("switches, interval and other options", covers=["switch", "interval", "other"])
def options(I):
    sources(I)
    given, want = {"use_account": truthy([1, 3, 5, 6][choose(4)])}, {"use_account": False}
    k = ("sync_balance", "sync_order")[choose(2)]
    if choose(2):
        cover("switch")
        v = truthy(choose(7))
        given[k], want[k] = v, bool(v)
    if choose(2):
        cover("interval")
        given["sync_internal"] = want["sync_internal"] = fresh_real("interval") if choose(2) else fresh_int("seconds")
    x = fresh_obj("other")
    given["something"] = want["something"] = x
    cover("other")
    o = set_(I, given)
    for k, v in want.items():
        r = o.get(k, None)
        if isinstance(v, bool):
            prove("switches are stored as booleans", r is v)
        elif k == "sync_internal":
            prove("the interval is stored as a number", val_eq(r, v))
        else:
            prove("other options are stored as given", r is v)


@harness("any number of periods", covers=["market_period", "sync_period"])
def periods(I):
    sources(I)
    n = fresh_int("n", 1)
    given = {"use_account": False}
    both = choose(3)
    for key in (("market_period", "sync_period"), ("market_period",), ("sync_period",))[both]:
        cover(key)
        form = choose(2)
        given[key] = PList([Seg(key, n, lambda i, key=key, form=form: tuple(a_time(I, key + x, i, form)[0] for x in ("_a", "_b")))])
    o = set_(I, given)
    for key in ("market_period", "sync_period"):
        if key in given:
            ps = o.get(key, None)
            i = fresh_int("i", 0)
            assume(i < n)
            prove("every period is stored", val_eq(len_(I, ps), n))
            p = ps.index_part(i)
            prove("as a pair of times of day, in order", and_(val_eq(len_(I, p), 2), *[val_eq(
                seq_parts(p)[k], a_time(I, key + x, i, 1)[1]) for k, x in enumerate(("_a", "_b"))]))


@harness("malformed periods", covers=["market_period", "sync_period", "length", "type"])
def malformed(I):
    sources(I)
    key = ("market_period", "sync_period")[choose(2)]
    cover(key)
    t = a_time(I, "t", 0, choose(2))[0]
    k = choose(5)
    p = [(t,), (t, t, t), (), (t, 5), (None, t)][k]
    cover("length" if k < 3 else "type")
    ps = PList([(t, t)] * choose(2) + [p])
    got = []

    def init(m):
        I.call(m.set_options, [], {"use_account": False, "x": 1})
        got.append(catch(I, m.set_options, **{"use_account": False, key: ps}))
    c, s, m = strategy(I, init)
    r, e = catch(I, I.getattr(s, "setup"))
    prove("the set-up succeeds otherwise", e is None, repr(e))
    prove("a malformed period is refused", got[0][1] is not None)
    o = I.getattr(s, "options")
    prove("and the options stay as they were", val_eq(len_(I, o), 2) and o.get("x", None) == 1)
