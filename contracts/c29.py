# -*- coding: utf-8 -*-
"""C29: retries: at most the configured number, first success or last error."""
from pv.api import *


def world(I, cond):
    """a retried function of arbitrary behaviour, an optional arbitrary retry condition, the sleeps observed"""
    n = fresh_int("max_attempts", 0)
    gap = fresh_real("interval", 0)
    fails = z3.Function("fails", z3.IntSort(), z3.BoolSort())
    refuses = z3.Function("refuses", z3.IntSort(), z3.BoolSort())
    g = cell(I, "g", calls=0, sleeps=0, done=False, asked=0)
    w = {"n": n, "gap": gap, "fails": fails, "refuses": refuses, "g": g, "res": None, "exc": None}
    a0, k0 = fresh_obj("arg"), fresh_obj("kwarg")
    w["args"] = (a0, k0)

    def func(*args, **kw):
        prove("the retried function gets the given arguments, each time", and_(
            len(args) == 1 and set(kw) == {"kw"}, val_eq(args[0], a0) if args else False, val_eq(kw.get("kw"), k0)))
        prove("no further attempt after a success or a refused error", not_(g.done))
        c = g.calls
        if cond:
            prove("the condition is asked before every retry", val_eq(g.asked, c))
        prove("the wait between attempts is made before each new attempt", val_eq(g.sleeps, c))
        put(I, g, "calls", c + 1)
        prove("at most one attempt more than the number of retries", g.calls <= n + 1)
        if truth(mkbool(fails(iterm(c)))):
            w["exc"] = AnyError()
            raise w["exc"]
        put(I, g, "done", True)
        w["res"] = fresh_obj("result")
        return w["res"]

    def condition(e):
        prove("the condition is asked about the error just raised", e is w["exc"])
        put(I, g, "asked", g.asked + 1)
        if truth(mkbool(refuses(iterm(g.calls)))):
            put(I, g, "done", True)
            return False
        return True

    def slept(s):
        prove("the wait is the configured one", val_eq(s, gap))
        put(I, g, "sleeps", g.sleeps + 1)
    eng().ghost["on_sleep"] = slept
    u = I.import_module("jqtrade.common.utils")
    kw = {"max_attempts": n, "attempt_internal": gap}
    if cond:
        kw["on_exception"] = condition
    wrapped = I.call(I.call(u.simple_retry, [], kw), [func], {})
    r, e = catch(I, wrapped, a0, kw=k0)
    return w, r, e


def check(w, r, e, cond):
    g = w["g"]
    prove("the call is made", g.calls >= 1)
    if e is None:
        cover("success")
        if truth(g.calls > 1):
            cover("success after failures")
        prove("the result of the successful call is returned", and_(g.done, w["res"] is not None and val_eq(r, w["res"])))
    else:
        cover("failure")
        prove("the last error is raised", e is w["exc"])
        if cond:
            prove("an error is passed on only if it is refused or the retries are used up",
                  or_(g.done, val_eq(g.calls, w["n"] + 1)))
            # after the last attempt nothing depends on its answer
            prove("the condition is asked once at a failure", or_(val_eq(g.asked, g.calls), and_(
                val_eq(g.calls, w["n"] + 1), val_eq(g.asked, g.calls - 1))))
            if truth(g.done):
                cover("refused")
        else:
            prove("an error is passed on only after all retries", val_eq(g.calls, w["n"] + 1))
    prove("waits happen only between attempts", val_eq(g.sleeps, g.calls - 1))


@harness("retry without a condition", covers=["success", "success after failures", "failure"])
def plain(I):
    w, r, e = world(I, False)
    check(w, r, e, False)


@harness("retry with a condition", covers=["success", "success after failures", "failure", "refused"])
def conditional(I):
    w, r, e = world(I, True)
    check(w, r, e, True)
