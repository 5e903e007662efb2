# -*- coding: utf-8 -*-
"""C13: stop_task signals exactly the selected running tasks."""
import signal as pysignal

from pv.api import *

INT, BOOL = z3.IntSort(), z3.BoolSort()


def fn(name, i, sort=BOOL):
    t = z3.Function(name, INT, sort)(iterm(i))
    return mkbool(t) if sort == BOOL else mkint(t)


class Command(object):
    """the command line of process i"""

    def __init__(self, i):
        self.i = i


class Proc(object):
    """process i of the machine; it may end, or be out of reach, at any moment"""

    def __init__(self, w, i):
        self.w, self.i = w, i
        self.pid = fn("pid", i, INT)
        fact(self.pid > 0)
        fact(val_eq(mkint(z3.Function("process_of", INT, INT)(self.pid.t)), i))     # different processes, different pids
        fact(fn("ppid", i, INT) != self.pid)        # nobody is its own parent

    def gone(self, when):
        if truth(fn("gone_" + when, self.i)):
            raise self.w.ps.NoSuchProcess()

    def cmdline(self):
        if self.w.listed:
            self.gone("asked")
        else:
            self.gone("listed")
            if truth(fn("denied", self.i)):
                raise self.w.ps.AccessDenied()
        return Command(self.i)

    def ppid(self):
        self.gone("parent")
        return fn("ppid", self.i, INT)

    def name(self):
        self.gone("named")
        return "python" if truth(fn("is_python", self.i)) else "other"

    def kill(self):
        self.gone("signalled")
        self.w.g.sent.append((self.i, "kill"))

    terminate = suspend = None

    def send_signal(self, sig):
        self.gone("signalled")
        self.w.g.sent.append((self.i, sig))


class Machine(object):
    """any number of processes"""

    def __init__(self, I, names=True):
        self.I = I
        self.U = I.import_module("jqtrade.scheduler.utils")
        self.ps = I.import_module("psutil")
        self.n = fresh_int("processes", 0)
        self.g = cell(I, "g", sent=PList([]))
        self.listed = False
        self.seg = Seg("procs", self.n, lambda i: Proc(self, i))
        eng().ghost["on_process_iter"] = lambda: PList([self.seg])
        if not hasattr(self.U, "_is_task_cmd") or not hasattr(self.U, "parse_task_info"):
            raise Unsupported("the functions that recognise command lines are gone")
        self.U._is_task_cmd = lambda c: fn("task_command", c.i)
        self.U.parse_task_info = lambda c: PDict([("name", self.name(c.i)), ("code", fresh_obj("code")), ("out", None),
                                                  ("env", None), ("debug", False)])

    def name(self, i):
        return None if truth(fn("no_name", i)) else str_fun("task_name", i)

    def task(self, i):
        """a running task, as far as its own command line is concerned"""
        return and_(fn("task_command", i), not_(fn("gone_listed", i)), not_(fn("denied", i)), not_(fn("gone_parent", i)))

    def forall(self, f):
        self.seg.forall(lambda s, i: z3.Implies(bt(in_range_b(i, self.n)), bt(f(i))))


@harness("which processes are running tasks", covers=["task", "parent", "no task"])
def detection(I):
    w = Machine(I)
    j = fresh_int("j", 0)
    assume(j < w.n)
    k = fresh_int("k", 0)       # possibly a task whose parent is j
    assume(k < w.n)
    w.seg.get(j), w.seg.get(k)
    case = choose(3)
    if case == 0:
        # j is a task and no task has it as its parent
        assume(w.task(j))
        w.forall(lambda i: implies(w.task(i), not_(val_eq(fn("ppid", i, INT), fn("pid", j, INT)))))
    elif case == 1:
        # j is the parent of the task k
        assume(w.task(k))
        assume(val_eq(fn("ppid", k, INT), fn("pid", j, INT)))
    else:
        assume(not_(w.task(j)))
    r, e = catch(I, w.U.get_activate_task_process)
    if e is not None:
        prove("only an interpreter that cannot be looked at is an error", type(e).__name__ == "AccessDenied")
        return
    if case == 1:
        touch(w.seg, k)
    p = in_list(r, w, j)
    if case == 0:
        cover("task")
        prove("a task that is no other task's parent is a running task", p)
    elif case == 1:
        cover("parent")
        prove("the parent of a task is not counted", not p)
    else:
        cover("no task")
        prove("other processes are not counted", not p)


def in_list(r, w, j):
    """is process j in the list r (filled by loops over the processes)"""
    out = []
    for part in r.parts:
        if isinstance(part, Seg):
            p = position(part, w.seg, j)
            if p is not None:
                out.append(p)
        elif truth(val_eq(part.i, j)):
            out.append(part)
    return bool(out)


@harness("a command line is a task's exactly if it is a start_task command of jqtrade", covers=["task", "no command", "other program"])
def command(I):
    U = I.import_module("jqtrade.scheduler.utils")
    n = fresh_int("n", 0)
    seg = Seg("args", n, lambda k: str_fun("arg", k))
    every = lambda f, m: seg.forall(lambda s, i: z3.Implies(bt(in_range_b(i, m)), bt(f(str_fun("arg", i)))))      # noqa
    case = choose(3)
    i = fresh_int("i", 0)
    if case:
        assume(i < n)
        seg.get(i)
        fact(val_eq(str_fun("arg", i), "start_task"))
        every(lambda a: not_(val_eq(a, "start_task")), i)
    if case == 0:
        every(lambda a: not_(val_eq(a, "start_task")), n)
    elif case == 1:
        k = fresh_int("k", 0)
        assume(k < i)
        seg.get(k)
        assume(has(str_fun("arg", k)))
    else:
        every(lambda a: not_(has(a)), i)
    r, e = catch(I, U._is_task_cmd, PList([seg]))
    prove("every command line is judged", e is None, repr(e))
    if case == 1:
        cover("task")
        follow(seg, k)
        prove("start_task of jqtrade is a task", truth(r))
    else:
        cover("other program" if case else "no command")
        if case:
            follow(seg, i)
        prove("anything else is not", not truth(r))


def has(a):
    from pv.strings import to_z3
    return mkbool(z3.Contains(to_z3(a), z3.StringVal("jqtrade")))


class Options(object):
    name = pid = None
    all = force = False


@harness("stop_task on any running tasks", covers=["all", "pid", "name", "nothing selected", "signalled", "left alone", "ended", "forced"])
def stopped(I):
    w = Machine(I)
    w.listed = True
    w.U.get_activate_task_process = lambda: PList([w.seg])
    M = I.import_module("jqtrade.__main__")
    o = Options()
    if choose(2):
        cover("forced")
        o.force = True
    o.all = bool(choose(2))
    if choose(2):
        o.pid = fresh_int("want_pid", 1)
    if choose(2):
        o.name = fresh_str("want_name", nonempty=True)
    j = fresh_int("j", 0)
    assume(j < w.n)
    w.seg.get(j)
    r, e = catch(I, M.stop_task, o)
    g = w.g
    if not (o.all or o.pid is not None or o.name is not None):
        cover("nothing selected")
        prove("without a selection it is refused and nothing is signalled", isinstance(e, ValueError) and truth(val_eq(
            g.sent.length(), 0)))
        return
    prove("stopping succeeds", e is None, repr(e))
    if o.all:
        cover("all")
        selected = True
    elif o.pid is not None:
        cover("pid")
        selected = truth(val_eq(fn("pid", j, INT), o.pid))
    else:
        cover("name")
        n = None if truth(fn("gone_asked", j)) else w.name(j)
        selected = n is not None and truth(val_eq(n, o.name))
    follow("procs", j)
    made = sent(w, j)
    ended = truth(fn("gone_signalled", j))
    if selected and not ended:
        cover("signalled")
        prove("a selected task is signalled once", len(made) == 1)
        prove("with SIGTERM, or killed if forced", len(made) == 1 and made[0][1] == (
            "kill" if o.force else pysignal.SIGTERM))
    else:
        cover("ended" if selected else "left alone")
        prove("no other process is signalled", made == [])


def sent(w, j):
    """the signals process j got"""
    out = []
    for part in w.g.sent.parts:
        if isinstance(part, Seg):
            p = position(part, w.seg, j)
            if p is not None:
                out.append(part.get(p))
        elif truth(val_eq(part[0], j)):
            out.append(part)
    return out
