# -*- coding: utf-8 -*-
"""C04: messages leave the queue by time, then priority (higher first), then order of submission."""
from pv.api import *


@harness("Message.sort_key orders by (time, priority desc, submission)", covers=["both"])
def order(I):
    M = I.import_module("jqtrade.scheduler.message").Message
    base = fresh_int("created_before", 0)
    I.setattr(M, "_unique_num", base)
    cb = fresh_obj("callback")
    t1, t2 = fresh_int("t1"), fresh_int("t2")
    p1, p2 = (fresh_int("p1"), fresh_int("p2")) if choose(2) else (fresh_real("p1"), fresh_real("p2"))
    a = I.call(M, [t1, cb], {"priority": p1})
    b = I.call(M, [t2, cb], {"priority": p2})
    cover("both")
    ka, kb = I.getattr(a, "sort_key"), I.getattr(b, "sort_key")
    before = or_(t1 < t2, and_(t1 == t2, or_(p1 > p2, p1 == p2)))
    import ast
    prove("the earlier submitted message goes first exactly when due earlier, or equally due and not lower priority",
          iff(I.compare(ast.Lt(), ka, kb), before))
    prove("two messages never compare equal", not_(val_eq(ka, kb)))


def arbitrary_heap(I, q):
    """an arbitrary content of the queue: n items with pairwise different sort keys"""
    heap = [v for v in vars(q).values() if isinstance(v, PList)]
    if len(heap) != 1:
        raise Unsupported("the queue does not keep its items in one heap")
    h = heap[0]
    n = fresh_int("n", 0)
    T, P, S = [z3.Function(x, z3.IntSort(), z3.IntSort()) for x in ("mt", "mp", "ms")]
    o = z3.Function("mo", z3.IntSort(), OBJ)

    def get(i):
        return ((mkint(T(iterm(i))), mkint(P(iterm(i))), mkint(S(iterm(i)))), Opaque(o(iterm(i)), truth=True))
    seg = Seg("heap", n, get)
    # representation invariant: sequence numbers differ
    seg.pairfacts.append(lambda s, i, j: z3.Or(iterm(i) == iterm(j), S(iterm(i)) != S(iterm(j))))
    h._set([seg])
    h.heap = True
    return h, seg, n


def keyof(seg, i):
    return seg.get(i)[0]


@harness("push, pop and top of a queue with any content", covers=["new item first", "old item first", "empty"])
def queue(I):
    Q = I.import_module("jqtrade.scheduler.queue")
    q = I.call(Q.ThreadSafeQueue, [])
    h, seg, n = arbitrary_heap(I, q)
    op = choose(3)
    if op == 0:
        r, e = catch(I, I.getattr(q, "empty"))
        prove("empty() tells whether items are left", e is None and iff(r, n == 0))
        prove("empty() changes nothing", val_eq(h.length(), n))
        return
    j = fresh_int("j", 0)
    if op == 1:
        # pop / top of what is there
        top = choose(2) == 1
        r, e = catch(I, I.getattr(q, "top" if top else "pop"))
        if truth(n == 0):
            cover("empty")
            prove("an empty queue reports that it is empty", isinstance(e, Q.QueueEmptyError))
            return
        prove("a queue with items yields one", e is None and r is not None)
        assume(j < n)
        i = fresh_int("i", 0)
        # the yielded item is the one with the least key: any item that equals it has no greater key than any other
        it = seg.get(i)[1]
        assume(i < n)
        prove("pop/top yields the item that sorts first" if not top else "top yields the item that sorts first",
              or_(not_(val_eq(it, r)), exists_key(I, seg, n, r, j)))
        prove("pop removes one item, top none", val_eq(h.length(), n if top else mkint(n.t - 1)))
        return
    x = fresh_obj("x")
    kt, kp, ks = fresh_int("xt"), fresh_int("xp"), fresh_int("xs")
    seg.forall(lambda s, i: iterm(seg.get(i)[0][2]) != ks.t)
    catch(I, I.getattr(q, "push"), x, (kt, kp, ks))
    prove("push adds one item", val_eq(h.length(), mkint(n.t + 1)))
    r, e = catch(I, I.getattr(q, "pop"))
    prove("pop after push yields an item", e is None)
    prove("pop removes one item", val_eq(h.length(), n))
    if r is x:
        cover("new item first")
        assume(j < n)
        prove("the pushed item comes out first only if it sorts first", not_(less(I, keyof(seg, j), (kt, kp, ks))))
    else:
        cover("old item first")
        prove("an item that is popped instead of the pushed one sorts before it", exists_key(I, seg, n, r, None, (kt, kp, ks)))


def exists_key(I, seg, n, r, j, other=None):
    """some position holding r has a key not greater than the key at j (or `other`)"""
    res = []
    for it in list(seg.uses):
        i = mkint(it)
        k, o = seg.get(i)
        b = other if other is not None else keyof(seg, j)
        res.append(and_(in_range_b(i, n), val_eq(o, r), not_(less(I, b, k))))
    return or_(*res)
