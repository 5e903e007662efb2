# -*- coding: utf-8 -*-
"""random start_task command lines in every spelling and order: what the start command understood against what parse_task_info and
get_tasks report for a process with that command line; random environment options, read alone and by a starting task"""
import sys

from rt.procs import *

VALUES = ["a", "demo 1", "x=y", "-n", "--debug", "", "策略", "start_task", "jqtrade", "a;b", "{name}", "-1", "/tmp/x.log", "c", "A=1;B=2",
          "%s", "--name", "n\tm", " a", "a ", "$A", "~/x", "-", "None", "/dev/null", ".", "0", "a,b", "\"q\""]
OPTS = {"name": ["-n", "--name", "--nam", "--na", "--n"], "code": ["-c", "--code", "--cod"], "out": ["-o", "--out", "--ou", "--o"],
        "env": ["-e", "--env", "--en", "--e"], "config": ["--config", "--conf", "--con"], "debug": ["--debug", "--de", "--d"]}


def one(rng, o):
    s = rng.choice(OPTS[o])
    if o == "debug":
        return [s]
    v = rng.choice(VALUES)
    how = rng.random()
    if s.startswith("--"):
        return [s + "=" + v] if how < .5 or v.startswith("-") else [s, v]
    if v and (how < .5 or v.startswith("-")) and not v.startswith("="):
        return [s + v]
    return [s, v]


def generate(tier, rng):
    for k in range(250 if tier == "quick" else 30000):
        opts = ["name", "code"] + [o for o in OPTS if rng.random() < .4]
        if rng.random() < .2:
            opts.append(rng.choice(list(OPTS)))
        if rng.random() < .05:
            opts.remove("name")
        rng.shuffle(opts)
        args = []
        for o in opts:
            args += one(rng, o)
        yield "command", {"front": rng.choice([["python", "-m", "jqtrade"], ["jqtrade"], ["sudo", "-E", "python", "-m", "jqtrade"], [
            "/opt/jqtrade-1.0/bin/python", "-m", "jqtrade"], ["nohup", "/usr/bin/jqtrade"]]), "args": args}
        es = []
        for i in range(rng.randint(1, 5)):
            b = lambda: rng.choice(["", "", " ", "  ", "\t", "\n"])     # noqa
            e = b() + rng.choice(["A", "B", "PYTHONPATH", "a b", "x.y", "_"]) + b()
            if rng.random() > .1:
                e += "=" + b() + rng.choice(["", "1", "a=b", "=", "==x=", "/a:/b", "v w", "值", "$HOME", "${A}:b", "~", "%A%", "-n x", "'q'"]) + b()
            es.append(e)
        if rng.random() < .05:
            es.append("")
        yield "env", {"env": ";".join(es)}
        if k % 2:
            yield "task env", {"env": ";".join(es), "before": {"A": "old", "KEEP": "k"}}


def command(inp):
    fresh()
    R = mod("scheduler.runner")
    made = []

    class Runner(object):
        def __init__(self, code_file, out_file, task_name, env, debug=False, config=None):
            made.append({"name": task_name, "code": code_file, "out": out_file, "env": env, "debug": debug})

        def run(self):
            pass
    with patched(R, "TaskRunner", Runner):
        with captured():
            r, e, out = jqtrade(["start_task"] + inp["args"])
    if r != "ok" or not made:       # not a command line start_task accepts
        return
    cmd = inp["front"] + ["start_task"] + inp["args"]
    got = mod("scheduler.utils").parse_task_info(list(cmd))
    for k, v in made[0].items():
        require(k in got and got[k] == v and type(got[k]) is type(v), "%s of %r is reported as %r, start_task understood %r", k, cmd,
                got.get(k), v)
    w = Table([{"pid": 4321, "ppid": 1, "cmd": cmd, "gone": None, "denied": False, "name": None, "kind": TASK}])
    with w.installed():
        r, e, out = jqtrade(["get_tasks"])
    require(r == "ok", "get_tasks fails: %r", e)
    for k, label in (("name", "名称"), ("code", "代码路径"), ("out", "日志路径"), ("env", "自定义环境变量"), ("debug", "是否debug模式")):
        require("%s: %s\n" % (label, made[0][k]) in out, "get_tasks does not show %s %r: %s", k, made[0][k], out)
    require("pid: 4321\n" in out, "get_tasks does not show the pid: %s", out)


def expected(s):
    d = {}
    for e in s.split(";"):
        if "=" not in e:
            return None
        i = e.index("=")
        d[e[:i].strip()] = e[i + 1:].strip()
    return d


def env(inp):
    fresh()
    w = expected(inp["env"])
    r, v = outcome(mod("scheduler.utils").parse_env, inp["env"])
    if w is None:
        require(r == "raise", "%r is not refused: %r", inp["env"], v)
    else:
        require(r == "ok", "%r is refused: %r", inp["env"], v)
        require(v == w, "%r gives %r, expected %r", inp["env"], v, w)


def task_env(inp):
    fresh()
    w = expected(inp["env"])
    R = mod("scheduler.runner")
    path = list(sys.path)
    old = dict(os.environ)
    with scratch() as d:
        code = os.path.join(d, "s.py")
        open(code, "w").close()
        try:
            os.environ.update(inp["before"])
            before = dict(os.environ)
            with Table([]).installed():
                r, v = outcome(R.TaskRunner, code, os.path.join(d, "log"), "t", inp["env"])
            after = dict(os.environ)
        finally:
            os.environ.clear()
            os.environ.update(old)
            sys.path[:] = path
    if w is None:
        require(r == "raise", "a task with environment %r is not refused", inp["env"])
        return
    require(r == "ok", "a task with environment %r is refused: %r", inp["env"], v)
    before.update(w)
    require(after == before, "environment of the task: %r", {k: (before.get(k), after.get(k)) for k in set(before) | set(after) if before.get(
        k) != after.get(k)})


CASES = {"command": command, "env": env, "task env": task_env}
