# -*- coding: utf-8 -*-
"""a simulated process table in place of the machine's: no real process is ever looked at or signalled"""
import contextlib
import os
import signal

from rt.common import *

TASK, OTHER = "task", "other"


def cmdline(rng, name, spelling=None, front=None, more=None):
    """a command line of a task"""
    front = front if front is not None else rng.choice([["python", "-m", "jqtrade"], ["/usr/bin/python3", "-m", "jqtrade"], [
        "/opt/venv/bin/jqtrade"], ["sudo", "-E", "python", "-m", "jqtrade"], ["python", "/x/jqtrade/__main__.py"],
        ["/bin/python", "/usr/bin/jqtrade"]])
    k = spelling if spelling is not None else rng.randint(0, 4)
    n = [["-n", name], ["--name", name], ["-n" + name], ["--name=" + name], ["--na", name]][k]
    opts = [n, rng.choice([["-c", "/s.py"], ["--code=/s.py"], ["-c/s.py"], ["--code", "x y.py"]])]
    for o in more if more is not None else rng.sample([["--debug"], ["-o", "o.log"], ["--out=o.log"], ["-e", "A=1;B=-n"], [
            "--config", "c.py"], ["-e=A=1"]], rng.randint(0, 3)):
        opts.append(o)
    rng.shuffle(opts)
    return front + ["start_task"] + [a for o in opts for a in o]


OTHERS = [["bash"], [], ["vim", "strategy.py"], ["python", "-m", "jqtrade", "get_tasks"], ["tail", "-f", "jqtrade_start_task.log"],
          ["python", "-m", "jqtrade", "stop_task", "--all"], ["python", "other.py", "start_task", "-n", "a"],
          ["grep", "start_task", "jqtrade"], ["python", "start_task", "jqtrade", "-n", "a"], ["less", "jqtrade", "-n", "a"],
          ["python", "-m", "jqtrade", "stop_task", "-n", "a"], ["sh", "-c", "echo jqtrade"], ["start_task"],
          ["python", "-m", "jqtrade", "start_tasks", "-n", "a"]]


def generate_table(rng, names, size=7):
    """[{"pid", "ppid", "cmd", "kind", "name", "gone": after how many questions it has ended, "denied"}]"""
    t = []
    pids = rng.sample(range(2, rng.choice([99999, 4 * size])), size + 2)
    for k in range(rng.randint(0, size)):
        p = {"pid": pids[k], "ppid": 1, "gone": None, "denied": False, "name": None}
        kind = rng.random()
        if kind < .6:
            p["kind"] = TASK
            p["name"] = rng.choice(names)
            p["cmd"] = cmdline(rng, p["name"])
            r = rng.random()
            if r < .25 and t:
                p["ppid"] = rng.choice(t)["pid"]       # a wrapper (sudo, a shell) or a task started from another task
            elif r < .45:
                p["gone"] = rng.randint(0, 6)
        else:
            p["kind"] = OTHER
            p["cmd"] = rng.choice(OTHERS)
            if rng.random() < .2:
                p["denied"] = True
            if rng.random() < .2:
                p["gone"] = rng.randint(0, 3)
            if rng.random() < .3 and t:
                p["ppid"] = rng.choice(t)["pid"]
        t.append(p)
    gone = {p["pid"] for p in t if p["gone"] is not None}
    for p in t:
        if p["ppid"] in gone or p["gone"] is not None:      # what a parent that ends counts as is left open
            p["ppid"] = 1
    rng.shuffle(t)
    return t


def running(table):
    parents = {p["ppid"] for p in table if p["kind"] == TASK}
    return [p for p in table if p["kind"] == TASK and p["pid"] not in parents]


class Table(object):
    """answers psutil and os.kill; records signals as (pid, signal)"""

    def __init__(self, table, own=None):
        import psutil
        self.ps = psutil
        self.table, self.signals, self.own = table, [], own or (999991, 999990)
        self.left = {p["pid"]: p["gone"] for p in table}

    def ask(self, p, secret=False):
        pid = p["pid"]
        if self.left[pid] is not None:
            self.left[pid] -= 1
            if self.left[pid] < 0:
                raise self.ps.NoSuchProcess(pid)
        if secret and p["denied"]:
            raise self.ps.AccessDenied(pid)

    def find(self, pid):
        for p in self.table:
            if p["pid"] == pid:
                return p
        return None

    def signal(self, pid, sig):
        p = self.find(pid)
        if p is None:
            raise self.ps.NoSuchProcess(pid)
        self.ask(p)
        if sig:
            self.signals.append([pid, int(sig)])

    def os_kill(self, pid, sig):
        try:
            self.signal(pid, sig)
        except self.ps.NoSuchProcess:
            raise ProcessLookupError(pid)

    @contextlib.contextmanager
    def installed(self):
        import psutil
        w = self

        class Process(object):
            def __init__(self, pid=None):
                self.pid = pid if pid is not None else w.own[0]
                self._p = w.find(self.pid)
                if self._p is None:
                    if pid is not None and pid not in w.own:
                        raise psutil.NoSuchProcess(pid)
                    self._p = {"pid": self.pid, "ppid": w.own[1] if self.pid == w.own[0] else 1, "gone": None, "denied": False,
                               "cmd": ["python"]}
                    w.left.setdefault(self.pid, None)

            def cmdline(self):
                w.ask(self._p, True)
                return list(self._p["cmd"])

            def ppid(self):
                w.ask(self._p)
                return self._p["ppid"]

            def parent(self):
                try:
                    return Process(self.ppid())
                except psutil.NoSuchProcess:
                    return None

            def name(self):
                w.ask(self._p)
                return "system" if self._p["denied"] else "python"

            def status(self):
                w.ask(self._p)
                return "running"

            def is_running(self):
                return w.left[self.pid] is None or w.left[self.pid] > 0

            @contextlib.contextmanager
            def oneshot(self):
                yield

            def as_dict(self, attrs=None, ad_value=None):
                out = {}
                for a in attrs or ("pid", "ppid", "name", "cmdline"):
                    try:
                        v = getattr(self, a)
                        out[a] = v() if callable(v) else v
                    except psutil.AccessDenied:
                        out[a] = ad_value
                return out

            def kill(self):
                w.signal(self.pid, signal.SIGKILL)

            def terminate(self):
                w.signal(self.pid, signal.SIGTERM)

            def suspend(self):
                w.signal(self.pid, signal.SIGSTOP)

            def send_signal(self, sig):
                w.signal(self.pid, sig)

            def wait(self, timeout=None):
                return None

            def __eq__(self, o):
                return isinstance(o, Process) and o.pid == self.pid

            def __hash__(self):
                return hash(self.pid)

        def process_iter(attrs=None, ad_value=None):
            for p in list(w.table):
                q = Process(p["pid"])
                if attrs is not None:
                    try:
                        q.info = q.as_dict(attrs, ad_value)
                    except psutil.NoSuchProcess:
                        continue
                yield q

        def no_killpg(pid, sig):
            w.signals.append([-pid, int(sig)])

        with contextlib.ExitStack() as s:
            for o, n, v in ((psutil, "Process", Process), (psutil, "process_iter", process_iter),
                            (psutil, "pids", lambda: [p["pid"] for p in w.table]),
                            (psutil, "pid_exists", lambda pid: w.find(pid) is not None),
                            (os, "kill", self.os_kill), (os, "killpg", no_killpg),
                            (os, "getpid", lambda: w.own[0]), (os, "getppid", lambda: w.own[1])):
                s.enter_context(patched(o, n, v))
            yield self


def jqtrade(args):
    """run the command line program"""
    import sys
    M = mod("__main__")
    with patched(sys, "argv", ["jqtrade"] + list(args)):
        with captured() as out:
            try:
                r = outcome(M.main)
            except SystemExit as e:
                r = ("exit", e)
            return r[0], r[1], out.getvalue()
