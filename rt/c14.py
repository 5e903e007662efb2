# -*- coding: utf-8 -*-
"""start_task on simulated process tables (tasks in all spellings, wrappers, the starting process itself and its parent, other
programs, processes that end meanwhile): refused exactly if another running task has the name, before anything is set up"""
import logging
import sys

from rt.procs import *

NAMES = ["a", "b", "aa", "A", "a b", "b.1", "ab", "a ", " a"]


def generate(tier, rng):
    for k in range(300 if tier == "quick" else 20000):
        t = generate_table(rng, NAMES + ["t%d" % i for i in range(300)], 300) if k % 30 == 9 else generate_table(rng, NAMES)
        name = rng.choice(NAMES + ["zz", "start_task"])
        if len(t) > 50 and rng.random() < .8:
            name = rng.choice([p["name"] for p in t if p["name"]])
        wrap = rng.random() < .5
        yield "start", {"pids": rng.choice([[100001, 100000], [100000, 2], [3, 90000], [rng.randint(2, 99999), rng.randint(2, 99999)]]), "table": t, "name": name, "own": cmdline(rng, name), "parent": cmdline(rng, name, front=["sudo", "jqtrade"]) if wrap
                        else ["bash"], "where": [rng.randint(0, 9), rng.randint(0, 9)], "code": rng.random() > .1,
                        "config": rng.choice([None, None, True, False]), "out": rng.random() < .5,
                        "env": rng.choice([None, "PV_A=1", "PV_A=1;PV_B=2"]), "debug": rng.random() < .5, "via": rng.choice([
                            "runner", "main"])}


def loggers():
    return [("", logging.getLogger())] + [(n, g) for n, g in list(logging.Logger.manager.loggerDict.items()) if isinstance(
        g, logging.Logger)]


def start(inp):
    fresh()
    R = mod("scheduler.runner")
    t = list(inp["table"])
    own, parent = inp["pids"]
    used = {p["pid"] for p in t}
    while own in used:
        own += 1
    while parent in used or parent == own:
        parent += 1
    me = {"pid": own, "ppid": parent, "cmd": inp["own"], "gone": None, "denied": False, "name": inp["name"], "kind": TASK}
    up = {"pid": parent, "ppid": 1, "cmd": inp["parent"], "gone": None, "denied": False, "name": None, "kind": OTHER}
    for i, p in zip(inp["where"], (me, up)):
        t.insert(i, p)
    others = [p for p in running([p for p in t if p is not me and p is not up]) if p["name"] == inp["name"]]
    sure = [p for p in others if p["gone"] is None]
    done = []
    saved = dict(os.environ), list(sys.path), {n: list(g.handlers) for n, g in loggers()}

    class Setup(object):
        def __init__(self, what):
            self.what = what

        def __call__(self, *a, **k):
            done.append(self.what)
    with scratch() as d:
        code, cfg, out = (os.path.join(d, n) for n in ("s.py", "c.py", "log"))
        if inp["code"]:
            open(code, "w").close()
        if inp["config"]:
            open(cfg, "w").close()
        files = sorted(os.listdir(d))
        try:
            with Table(t, (own, parent)).installed(), patched(R.TaskRunner, "run", Setup("run")):
                if inp["via"] == "main":
                    a = ["start_task", "-n", inp["name"], "-c", code]
                    a += ["-o", out] if inp["out"] else []
                    a += ["-e", inp["env"]] if inp["env"] else []
                    a += ["--debug"] if inp["debug"] else []
                    a += ["--config", cfg] if inp["config"] is not None else []
                    r, e, _ = jqtrade(a)
                else:
                    r, e = outcome(R.TaskRunner, code, out if inp["out"] else None, inp["name"], inp["env"], inp["debug"],
                                   cfg if inp["config"] is not None else None)
            env = {k: v for k, v in os.environ.items() if saved[0].get(k) != v}
        finally:
            os.environ.clear()
            os.environ.update(saved[0])
            sys.path[:] = saved[1]
            for n, g in loggers():
                for h in list(g.handlers):
                    if h not in saved[2].get(n, ()):
                        g.removeHandler(h)
                        h.close()
        new = sorted(set(os.listdir(d)) - set(files))
    error = mod("common.exceptions").TaskError
    if not inp["code"]:
        require(r == "raise" and isinstance(e, (FileNotFoundError, error)), "a missing strategy file is accepted: %r", e)
    elif sure:
        require(r == "raise" and isinstance(e, error), "a second task %r is started: %r", inp["name"], e)
        require(not done and not env and not new, "a refused task sets up %r %r %r", done, env, new)
    elif inp["config"] is False:
        require(r == "raise", "a missing configuration file is accepted")
        require("run" not in done, "a task without its configuration file runs")
    elif not others:
        require(r == "ok", "task %r is refused: %r", inp["name"], e)
        if inp["via"] == "main":
            require(done.count("run") == 1, "the task runs %d times", done.count("run"))


CASES = {"start": start}
