# -*- coding: utf-8 -*-
"""C08: an event reaches exactly its subscribers, by priority."""
from pv.api import *


def classes(I):
    E = I.import_module("jqtrade.scheduler.event")
    A = E.create_event_class("A")
    B = type("C", (A,), {})         # the name of a class that is not its base
    C = I.call(E.create_event_class, ["C"], {})
    prove("event classes of different names differ, the same name gives the same class",
          A is not C and I.call(E.create_event_class, ["C"], {}) is C and issubclass(A, E.Event) and not issubclass(C, A))
    return A, B, C


def callback(i, calls):
    def cb(event):
        calls.append((i, event))
        return ("result", i)
    cb.__name__ = "cb%d" % i
    cb.number = i
    return cb


@harness("three registrations, emit", covers=["two classes", "same class"],
         bounded="three registrations over a hierarchy of three classes; priorities unbounded")
def registrations(I):
    history(I, False)


@harness("three registrations, unregister one, emit", covers=["two classes", "same class", "same callback twice"],
         bounded="three registrations over a hierarchy of three classes; priorities unbounded")
def unregistration(I):
    history(I, True)


def history(I, unreg):
    A, B, C = classes(I)
    bus = I.call(I.import_module("jqtrade.scheduler.bus").EventBus, [])
    calls, regs = [], []
    for i in range(3):
        cls = (A, B, C)[choose(3)] if i else (A, B)[choose(2)]
        p = fresh_int("priority%d" % i)
        cb = callback(i, calls)
        if i == 2 and unreg and cls is regs[0][1] and choose(2):      # the same callback once more, with another priority
            cover("same callback twice")
            cb = regs[0][3]
            assume(not_(val_eq(p, regs[0][2])))
        I.call(I.getattr(bus, "register"), [cls, cb], {"priority": p})
        regs.append((i, cls, p, cb))
    left = list(regs)
    if unreg:
        k = choose(3)
        I.call(I.getattr(bus, "unregister"), [regs[k][1], regs[k][3]])
        left = [r for r in regs if not (r[1] is regs[k][1] and r[3] is regs[k][3])]
        # a second unregistration of the same callback, and one for a class never registered, change nothing
        catch(I, I.getattr(bus, "unregister"), regs[k][1], regs[k][3])
    ev = I.call(B, [])
    res, e = catch(I, I.getattr(bus, "emit"), ev)
    prove("emit returns", e is None)
    exp = [r for r in left if issubclass(B, r[1])]
    if len(set(id(r[3]) for r in exp)) < len(exp):
        a, b = [r for r in exp if r[3] is regs[0][3]]
        got = [i for i, _ in calls]
        prove("a callback registered with two priorities is called once for each of them",
              got.count(0) == 2 and len(got) == len(exp) and all(x is ev for _, x in calls))
        return
    cover("two classes" if len(set(r[1] for r in exp)) > 1 else "same class")
    got = [i for i, _ in calls]
    prove("exactly the subscribers of the event's class and its base classes are called, once each, with the event",
          sorted(got) == sorted(r[3].number for r in exp) and all(x is ev for _, x in calls))
    for a in exp:
        for b in exp:
            if a[1] is b[1] and got.index(a[3].number) < got.index(b[3].number):
                prove("the callbacks of one class run by descending priority, equal ones in order of registration",
                      or_(a[2] > b[2], and_(val_eq(a[2], b[2]), a[0] < b[0])))
    parts = seq_parts(res)
    prove("the results come back in calling order", parts == [("result", i) for i in got])


@harness("any number of callbacks of one class and priority", covers=["called"])
def many(I):
    A, B, C = classes(I)
    bus = I.call(I.import_module("jqtrade.scheduler.bus").EventBus, [])
    p, q = fresh_int("p"), fresh_int("q")
    assume(not_(val_eq(p, q)))
    g = cell(I, "g", next=0, other=0)
    n = fresh_int("n", 1)
    ev = I.call(B, [])

    def first(event):
        prove("the callbacks are called with the event", event is ev)
        put(I, g, "next", g.next + 1)

    def other(event):
        prove("a group of lower priority runs after the whole group of higher priority",
              ite(q < p, val_eq(g.next, n), val_eq(g.next, 0)))
        put(I, g, "other", g.other + 1)
    I.call(I.getattr(bus, "register"), [A, first], {"priority": p})
    I.call(I.getattr(bus, "register"), [A, other], {"priority": q})
    o = z3.Function("cbo", z3.IntSort(), OBJ)

    def item(i):
        def called(event):
            prove("the callbacks are called with the event", event is ev)
            prove("the callbacks of equal priority are called in order of registration, once each", val_eq(g.next, i + 1))
            put(I, g, "next", g.next + 1)
        return Opaque(o(iterm(i)), truth=True, call=called, attrs={"__name__": "cb"})
    groups = [l for l in lists(bus) if first in l.parts]
    if len(groups) != 1:
        raise Unsupported("the callbacks of one class and priority are not kept in one list")
    groups[0]._set([first, Seg("callbacks", mkint(n.t - 1), item)])
    res, e = catch(I, I.getattr(bus, "emit"), ev)
    cover("called")
    prove("every callback has been called", and_(e is None, val_eq(g.next, n), val_eq(g.other, 1)))


def number_of(i, calls, ev):
    """a callback that returns its own number"""
    def called(event):
        prove("the callbacks are called with the event", event is ev)
        calls.append(i)
        return i
    return called


def same_list(res, calls, n=None):
    """the results are those of the calls, in calling order; the sequence of the calls"""
    s, c = seq_parts(res), seq_parts(calls)
    if not s and not c:
        return None
    prove("one result for each call", len(s) == 1 and len(c) == 1 and isinstance(s[0], Seg) and isinstance(c[0], Seg))
    s, c = s[0], c[0]
    prove("as many results as calls", val_eq(s.n, c.n))
    k = fresh_int("k", 0)
    assume(k < s.n)
    prove("the results come back in calling order", val_eq(s.get(k), c.get(k)))
    return c


@harness("any number of priorities of one class", covers=["called", "two"])
def priorities(I):
    A, B, C = classes(I)
    bus = I.call(I.import_module("jqtrade.scheduler.bus").EventBus, [])
    n = fresh_int("n", 0)
    ev = I.call(B, [])
    g = cell(I, "g", calls=PList([]))
    pf, o = z3.Function("priority", z3.IntSort(), z3.IntSort()), z3.Function("cbp", z3.IntSort(), OBJ)
    prio = lambda i: mkint(pf(iterm(i)))
    probe = [callback(0, []), callback(1, [])]
    for k, p in ((0, 3), (1, 8)):
        I.call(I.getattr(bus, "register"), [A, probe[k]], {"priority": p})
    groups = [d for d in dicts(bus) if len(d.entries) == 2 and all(
        isinstance(en, tuple) and isinstance(en[0], int) and isinstance(en[1], PList) for en in d.entries)]
    if len(groups) != 1:
        raise Unsupported("the callbacks of one class are not kept in a table of lists by priority")

    def make(i):
        return PList([Opaque(o(iterm(i)), truth=True, call=number_of(i, g.calls, ev), attrs={"__name__": "cb"})])
    m = SymMap("groups", n, prio, make)
    groups[0]._set([m])
    res, e = catch(I, I.getattr(bus, "emit"), ev)
    prove("emit returns", e is None, repr(e))
    cover("called")
    s = same_list(res, g.calls)
    if s is None:
        prove("every callback is called", val_eq(n, 0))
        return
    prove("as many calls as callbacks", val_eq(s.n, n))
    a, b = fresh_int("a", 0), fresh_int("b", 0)
    assume(and_(a < b, b < n))
    cover("two")
    x, y = s.get(a), s.get(b)
    prove("the callbacks called are registered ones", and_(in_range_b(x, n), in_range_b(y, n)))
    prove("none is called twice", not_(val_eq(x, y)))
    prove("they are called in descending priority", prio(x) > prio(y))


@harness("any number of classes", covers=["subscribed", "other class", "two"])
def many_classes(I):
    bus = I.call(I.import_module("jqtrade.scheduler.bus").EventBus, [])
    n = fresh_int("n", 0)
    g = cell(I, "g", calls=PList([]))
    base, o, cl, pf = (z3.Function("base", z3.IntSort(), z3.BoolSort()), z3.Function("cbc", z3.IntSort(), OBJ),
                       z3.Function("cls", z3.IntSort(), OBJ), z3.Function("priority", z3.IntSort(), z3.IntSort()))
    isbase = lambda i: mkbool(base(iterm(i)))
    ev = I.call(classes(I)[1], [])

    def instance(i):
        def f(x):
            prove("what is asked is whether the event belongs to the class", x is ev)
            return isbase(i)
        return f
    key = lambda i: Opaque(cl(iterm(i)), truth=True, attrs={"*instance": instance(i), "__name__": "E"})
    A, B, C = classes(I)
    for c in (A, C):
        I.call(I.getattr(bus, "register"), [c, callback(0, [])], {"priority": 4})
    tables = [d for d in dicts(bus) if len(d.entries) == 2 and all(isinstance(en, tuple) and en[0] in (A, C) for en in d.entries)]
    if len(tables) != 1 or not all(isinstance(en[1], PDict) and len(en[1].entries) == 1 and en[1].entries[0][0] == 4 and
                                   isinstance(en[1].entries[0][1], PList) for en in tables[0].entries):
        raise Unsupported("the callbacks are not kept in a table of tables by class")

    def make(i):
        d = PDict()
        d.setitem(mkint(pf(iterm(i))), PList([Opaque(o(iterm(i)), truth=True, call=number_of(i, g.calls, ev),
                                                     attrs={"__name__": "cb"})]))
        return d
    m = SymMap("classes", n, key, make)
    tables[0]._set([m])
    res, e = catch(I, I.getattr(bus, "emit"), ev)
    prove("emit returns", e is None, repr(e))
    j, h = fresh_int("j", 0), fresh_int("h", 0)
    assume(and_(j < n, h < n))
    at = []
    for what, l in (("called", g.calls), ("that give a result", res)):
        s = seq_parts(l)
        if not s:
            prove("there is no subscriber if none is %s" % what, not_(isbase(j)))
            continue
        prove("one entry for each", len(s) == 1 and isinstance(s[0], Seg))
        s = s[0]
        a, b = fresh_int("a", 0), fresh_int("b", 0)
        assume(and_(a < b, b < s.n))
        cover("two")
        x, y = s.get(a), s.get(b)
        prove("the callbacks %s are registered ones" % what, and_(in_range_b(x, n), in_range_b(y, n)))
        prove("the callbacks %s are those of a class of the event" % what, and_(isbase(x), isbase(y)))
        prove("the callbacks %s are different ones" % what, not_(val_eq(x, y)))
        if truth(and_(isbase(j), isbase(h))):
            cover("subscribed")
            q = [position(s, m.root_seg(), i) for i in (j, h)]
            for i, p in zip((j, h), q):
                prove("all callbacks of a class of the event are %s" % what, and_(in_range_b(p, s.n), val_eq(s.get(p), i)))
            at.append(q)
        else:
            cover("other class")
            prove("no callback of another class is among those %s" % what, not_(and_(val_eq(x, j), val_eq(y, h))))
    if len(at) == 2:
        prove("the results come back in calling order", iff(at[0][0] < at[0][1], at[1][0] < at[1][1]))


class Registry(object):
    """one class with any number of priorities, each with any number of callbacks"""

    def __init__(self, I):
        self.I = I
        self.A, B, C = classes(I)
        self.bus = I.call(I.import_module("jqtrade.scheduler.bus").EventBus, [])
        self.n = fresh_int("n", 0)
        two, i1 = (z3.IntSort(), z3.IntSort()), z3.IntSort()
        pf, self.size = z3.Function("priority", i1, i1), z3.Function("size", i1, i1)
        self.cb = z3.Function("cb", i1, i1, OBJ)
        self.prio = lambda i: mkint(pf(iterm(i)))
        for p in (3, 8):
            I.call(I.getattr(self.bus, "register"), [self.A, callback(p, [])], {"priority": p})
        groups = [d for d in dicts(self.bus) if len(d.entries) == 2 and all(
            isinstance(en, tuple) and isinstance(en[0], int) and isinstance(en[1], PList) for en in d.entries)]
        if len(groups) != 1:
            raise Unsupported("the callbacks of one class are not kept in a table of lists by priority")
        self.d = groups[0]
        self.map = SymMap("groups", self.n, self.prio, self.make)
        self.d._set([self.map])

    def item(self, i, k):
        return Opaque(self.cb(iterm(i), iterm(k)), truth=True, attrs={"__name__": "cb"})

    def make(self, i):
        n = mkint(self.size(iterm(i)))
        fact(n >= 0)
        return PList([Seg("callbacks", n, lambda k: self.item(i, k))])


class Unregistered(object):
    """loop invariant of unregistering x: the first k groups have lost x, the others are as they were"""

    def __init__(self, w):
        self.w, self.k, self.seen = w, 0, {}

    def owns(self, key, obj):
        return obj is self.w.d or any(obj is v for v in self.seen.values())

    def make(self, i):
        w = self.w
        l = w.make(i)
        if truth(and_(i < self.k, w.has(i))):
            l._set(w.without(i))
        self.seen[len(self.seen)] = l
        return l

    def assume(self, k):
        self.k, self.seen = k, {}
        self.map = SymMap("groups", self.w.n, self.w.prio, self.make)
        self.w.d._set([self.map])
        if not isinstance(k, int) and truth(k < self.w.n):
            self.map.root_seg().get(k)

    def check(self, k1):
        w = self.w
        if isinstance(k1, int) and k1 == 0:
            prove("nothing has changed before the first priority", w.d.entries == [w.map])
            return
        k = mkint(iterm(k1) - 1)
        prove("the table of priorities is the same", w.d.entries == [self.map])
        l = w.d.find(w.prio(k))[1]
        prove("no other priority is touched", len(self.seen) == 1 and l is self.seen[0])
        w.check(l, k)


class Without(Registry):
    def __init__(self, I):
        Registry.__init__(self, I)
        i1 = z3.IntSort()
        self.x = Opaque(z3.Const("x", OBJ), truth=True, attrs={"__name__": "x"})
        self.hasf, self.at = z3.Function("has", i1, z3.BoolSort()), z3.Function("at", i1, i1)
        self.lists = {}
        self.inv = Unregistered(self)

    def has(self, i):
        return mkbool(self.hasf(iterm(i)))

    def pos(self, i):
        """where x is in the list of priority i"""
        p = mkint(self.at(iterm(i)))
        fact(implies(self.has(i), in_range_b(p, mkint(self.size(iterm(i))))))
        return p

    def item(self, i, k):
        if truth(and_(self.has(i), val_eq(k, self.pos(i)))):
            return self.x
        o = Registry.item(self, i, k)
        fact(not_(val_eq(o, self.x)))
        return o

    def make(self, i):
        t = str(iterm(i))
        if t not in self.lists:
            l = self.lists[t] = Registry.make(self, i)
            if truth(self.has(i)):
                l.parts[0].get(self.pos(i))
        return self.lists[t]

    def without(self, i):
        n, p = mkint(self.size(iterm(i))), self.pos(i)
        return [Seg("left", p, lambda k: self.item(i, k)), Seg("right", n - p - 1, lambda k: self.item(i, k + p + 1))]

    def check(self, l, i):
        n, p, I = mkint(self.size(iterm(i))), self.pos(i), self.I
        gone = truth(self.has(i))
        cover("there" if gone else "not there")
        prove("only the one registration is gone", val_eq(I.call(I.builtins["len"], [l]), n - 1 if gone else n))
        q = fresh_int("q", 0)
        assume(q < (n - 1 if gone else n))
        want = self.item(i, q + 1 if gone and truth(q >= p) else q)
        prove("the others are left in their order", val_eq(l[q], want))


@harness("unregistering in any registry", covers=["there", "not there", "left"])
def unregister(I):
    w = Without(I)
    I.invariants["groups"] = w.inv
    r, e = catch(I, I.getattr(w.bus, "unregister"), w.A, w.x)
    prove("unregistering returns", e is None, repr(e))
    j = fresh_int("j", 0)
    assume(j < w.n)
    cover("left")
    w.d.entries[0].root_seg().get(j)
    prove("the invariant was used to the end", val_eq(w.inv.k, w.n))
    w.check(w.d.find(w.prio(j))[1], j)


@harness("registering in any registry", covers=["known priority", "new priority", "known class", "new class"])
def register(I):
    w = Registry(I)
    x = Opaque(z3.Const("x", OBJ), truth=True, attrs={"__name__": "x"})
    other = choose(2)
    cls = I.call(I.import_module("jqtrade.scheduler.event").create_event_class, ["new"], {}) if other else w.A
    cover("new class" if other else "known class")
    j, h = fresh_int("j", 0), fresh_int("h", 0)
    assume(and_(j < w.n, h < w.n, not_(val_eq(j, h))))
    w.map.root_seg().get(j), w.map.root_seg().get(h)
    known = choose(2)
    cover("known priority" if known else "new priority")
    if known:
        p = w.prio(j)
    else:
        p = fresh_int("p")
        w.map.root_seg().forall(lambda s, i: z3.Implies(bt(in_range_b(i, w.n)), z3.Not(bt(val_eq(w.prio(i), p)))))
    r, e = catch(I, I.getattr(w.bus, "register"), cls, x, p)
    prove("registering returns", e is None, repr(e))

    def old(i):
        l = w.d.find(w.prio(i))
        k = fresh_int("k", 0)
        n = mkint(w.size(iterm(i)))
        assume(k < n)
        prove("the callbacks registered before are left in their order", val_eq(l[1][k], w.item(i, k)) if l else False)
        return l[1], I.call(I.builtins["len"], [l[1]]), n
    l, got, n = old(h)
    prove("other priorities are left as they are", val_eq(got, n))
    l, got, n = old(j)
    if known and not other:
        prove("the new callback comes after those of the same priority", and_(val_eq(got, n + 1), val_eq(l[n], x)))
    else:
        prove("nothing else is changed", val_eq(got, n))
    if not known and not other:
        new = w.d.find(p)
        prove("the first callback of a priority", new is not None and seq_parts(new[1]) == [x])
    table = [d for d in dicts(w.bus) if d.find(cls) is not None]
    prove("the class is known", len(table) == 1)
    if other:
        new = table[0].find(cls)[1].find(p)
        prove("the first callback of a class", new is not None and seq_parts(new[1]) == [x])
        prove("other classes are left as they are", table[0].find(w.A)[1] is w.d and w.d.entries == [w.map])


def dicts(o, seen=None):
    seen = set() if seen is None else seen
    if id(o) in seen:
        return
    seen.add(id(o))
    if isinstance(o, PDict):
        yield o
        for en in o.entries:
            if isinstance(en, tuple):
                yield from dicts(en[1], seen)
    elif hasattr(o, "__dict__") and not isinstance(o, (type, Sym)) and not callable(o):
        for v in list(vars(o).values()):
            yield from dicts(v, seen)


def lists(o, seen=None):
    seen = set() if seen is None else seen
    if id(o) in seen:
        return
    seen.add(id(o))
    if isinstance(o, PList):
        yield o
        for x in o.parts:
            yield from lists(x, seen)
    elif isinstance(o, PDict):
        for en in o.entries:
            if isinstance(en, tuple):
                yield from lists(en[1], seen)
    elif hasattr(o, "__dict__") and not isinstance(o, (type, Sym)) and not callable(o):
        for v in list(vars(o).values()):
            yield from lists(v, seen)
