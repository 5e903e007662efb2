# -*- coding: utf-8 -*-
"""random scripts of failures for the retried function (different error types), with random retry counts, intervals and
retry conditions; calls, arguments, waits and the outcome are compared with the rule; several calls of one wrapped function"""
from rt.common import *


class Falsy(Exception):
    def __len__(self):
        return 0


KIND = {"k": KeyError, "v": ValueError, "i": IndexError, "s": OSError, "t": TimeoutError, "c": ConnectionError, "r": RuntimeError,
        "y": TypeError, "f": Falsy, "a": AssertionError}
KINDS = "".join(KIND)

def generate(tier, rng):
    for k in range(150 if tier == "quick" else 4000):
        n = rng.choice([0, 1, 2, 3, 5, 5, 12, 40])
        yield "retry", {"n": n, "gap": rng.choice([0, 0.05, 0.15, 2]), "cond": rng.choice([None, None, True, "odd"]),
                        "runs": [[rng.choice("o" + KINDS) if rng.random() < .35 else rng.choice(KINDS) for _ in range(n + 3)]
                                 for _ in range(rng.randint(1, 3))],
                        "args": [rng.randint(0, 9)], "kw": {"z": rng.randint(0, 9)}}
    yield "defaults", {}


def retry(inp):
    fresh()
    u = mod("common.utils")
    slept = []
    with patched(u.time, "sleep", slept.append):
        state = {}

        def f(*a, **k):
            require(list(a) == inp["args"] and k == inp["kw"], "called with %r %r", a, k)
            s = state["run"]
            i = state["i"]
            state["i"] += 1
            require(i < len(s), "called %d times although %d retries are allowed", i + 1, inp["n"])
            if s[i] == "o":
                return ("result", i)
            e = KIND[s[i]](i)
            state["errors"].append(e)
            raise e
        asked = []

        def cond(e):
            asked.append(e)
            return True if inp["cond"] is True else e.args[0] % 2 == 0
        w = u.simple_retry(cond if inp["cond"] else None, max_attempts=inp["n"], attempt_internal=inp["gap"])(f)
        for run in inp["runs"]:
            state.update(run=run, i=0, errors=[])
            del slept[:]
            r, v = outcome(w, *inp["args"], **inp["kw"])
            exp_calls, exp = 0, None
            for i in range(inp["n"] + 1):
                exp_calls = i + 1
                if run[i] == "o":
                    exp = ("ok", i)
                    break
                if inp["cond"] == "odd" and i % 2:
                    exp = ("raise", i)
                    break
                exp = ("raise", i)
            require(state["i"] == exp_calls, "%d calls instead of %d", state["i"], exp_calls)
            require(len(slept) == exp_calls - 1 and all(x == inp["gap"] for x in slept), "waited %r", slept)
            if exp[0] == "ok":
                require(r == "ok" and v == ("result", exp[1]), "returned %r instead of the result of call %d", v, exp[1])
            else:
                require(r == "raise" and v is state["errors"][-1], "gave %r instead of raising the last error", v)


def defaults(inp):
    fresh()
    u = mod("common.utils")
    n = []

    def f():
        n.append(1)
        raise OSError("x")
    with patched(u.time, "sleep", lambda s: None):
        r, v = outcome(u.simple_retry()(f))
    require(r == "raise" and isinstance(v, OSError) and len(n) >= 1, "default retry: %r after %d calls", v, len(n))
    r, v = outcome(u.simple_retry, 5)
    require(r == "raise", "a condition that cannot be called is accepted")


CASES = {"retry": retry, "defaults": defaults}
