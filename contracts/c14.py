# -*- coding: utf-8 -*-
"""C14: no second task with the name of a running task is started."""
from pv.api import *
from contracts.task import Start
from contracts.c13 import Proc, fn


class Machine(object):
    """any running tasks (as get_activate_task_process finds them, C13), each of which may end at any moment"""
    listed = True

    def __init__(self, I, w):
        self.ps = I.import_module("psutil")
        self.n = fresh_int("tasks", 0)
        self.seg = Seg("procs", self.n, lambda i: Proc(self, i))
        self.own, self.parent = fresh_int("own_pid", 1), fresh_int("parent_pid", 1)
        eng().ghost["getpid"] = lambda: self.own
        eng().ghost["getppid"] = lambda: self.parent
        U = I.import_module("jqtrade.scheduler.utils")
        for m in (U, w.R):
            if hasattr(m, "get_activate_task_process"):
                m.get_activate_task_process = lambda: PList([self.seg])
            if hasattr(m, "parse_task_info"):
                m.parse_task_info = lambda c: PDict([("name", self.name(c.i)), ("code", None), ("out", None), ("env", None),
                                                     ("debug", False)])

    def name(self, i):
        return None if truth(fn("no_name", i)) else str_fun("task_name", i)

    def clash(self, i, name):
        """i is another running task of that name"""
        pid = fn("pid", i, INT)
        return and_(not_(fn("gone_asked", i)), not_(fn("no_name", i)), val_eq(str_fun("task_name", i), name),
                    not_(val_eq(pid, self.own)), not_(val_eq(pid, self.parent)))


INT = z3.IntSort()


@harness("a task is started exactly if no other running task has its name", covers=[
    "refused", "accepted", "missing code", "missing config", "set up"])
def start(I):
    w = Start(I)
    m = Machine(I, w)
    clash = choose(2)
    if clash:
        j = fresh_int("j", 0)
        assume(j < m.n)
        m.seg.get(j)
        assume(m.clash(j, w.name))
    else:
        m.seg.forall(lambda s, i: z3.Implies(bt(in_range_b(i, m.n)), z3.Not(bt(m.clash(i, w.name)))))
    if choose(2):
        w.config = fresh_str("config", nonempty=True, excl="~")
    r, e = w.construct()
    if clash:
        follow("procs", j)
    code = [v for p, v in w.files.known if truth(val_eq(p, w.code))]
    other = [v for p, v in w.files.known if not truth(val_eq(p, w.code))]
    T = I.import_module("jqtrade.common.exceptions")
    if clash:
        cover("refused")
        prove("the name of a running task is refused", e is not None)
        prove("before anything is set up", w.done == [] and w.environ().entries == [w.old], repr((w.done, w.environ().entries, e)))
        prove("for that reason, unless the strategy file is missing", isinstance(e, T.TaskError) or (
            isinstance(e, FileNotFoundError) and code == [False]))
        return
    if code == [False]:
        cover("missing code")
        prove("a missing strategy file is refused", isinstance(e, FileNotFoundError))
        prove("a missing strategy file is refused before anything is set up", w.done == [])
        return
    if w.config is not None and other == [False]:
        cover("missing config")
        prove("a missing configuration file is refused", isinstance(e, FileNotFoundError))
        return
    cover("accepted")
    prove("a name no running task has is accepted", e is None, repr(e))
    prove("the files were looked for", code == [True] or (w.config is not None))
    if w.done:
        cover("set up")
