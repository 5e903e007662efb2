# -*- coding: utf-8 -*-
"""the stop_task command with every combination of options on simulated process tables (tasks in all spellings, wrappers, other
programs, processes that end meanwhile or cannot be looked at): which processes get which signal"""
from rt.procs import *

NAMES = ["a", "b", "aa", "A", "a b", "b.1", "a ", " a"]


def generate(tier, rng):
    for k in range(400 if tier == "quick" else 20000):
        t = generate_table(rng, NAMES + ["t%d" % i for i in range(300)], 300) if k % 50 == 9 else generate_table(rng, NAMES)
        o = {"all": rng.random() < .25, "name": rng.choice([None, rng.choice(NAMES), "a", rng.choice([p["name"] for p in t] or [None])]), "pid": None, "force": rng.random() < .4}
        if rng.random() < .35:
            o["pid"] = rng.choice([p["pid"] for p in t] + [p["pid"] // 10 for p in t if p["pid"] > 9] + [p["pid"] * 10 for p in t][:2] + [77777])
        yield "stop", {"table": t, "options": o, "spelling": rng.randint(0, 3)}


def stop(inp):
    fresh()
    t, o, k = inp["table"], inp["options"], inp["spelling"]
    args = ["stop_task"]
    if o["name"] is not None:
        args += [["-n", o["name"]], ["--name=" + o["name"]], ["-n" + o["name"]], ["--name", o["name"]]][k]
    if o["pid"] is not None:
        args += [["-p", str(o["pid"])], ["--pid=%d" % o["pid"]], ["-p%d" % o["pid"]], ["--pid", str(o["pid"])]][k]
    if o["all"]:
        args += ["--all"]
    if o["force"]:
        args += [["-f"], ["--force"]][k % 2]
    w = Table(t)
    with w.installed():
        r, v, out = jqtrade(args)
    sig = int(signal.SIGKILL if o["force"] else signal.SIGTERM)
    if not o["all"] and o["pid"] is None and o["name"] is None:
        require(r != "ok", "stop_task without a selection is not refused")
        require(not w.signals, "stop_task without a selection signals %r", w.signals)
        return
    require(r == "ok", "stop_task fails: %r", v)
    act = running(t)
    sel = act if o["all"] else [p for p in act if p["pid"] == o["pid"]] if o["pid"] is not None else [
        p for p in act if p["name"] == o["name"]]
    got = sorted(w.signals)
    for s in got:
        p = w.find(s[0])
        require(any(q["pid"] == s[0] for q in sel), "process %r (%s) is signalled", s[0], p and p["cmd"])
        require(s[1] == sig, "process %r gets signal %r", s[0], s[1])
        require(got.count(s) == 1, "process %r is signalled %d times", s[0], got.count(s))
    for p in sel:
        if p["gone"] is None:
            require([p["pid"], sig] in got, "task %r (pid %r) is not signalled", p["name"], p["pid"])


CASES = {"stop": stop}
