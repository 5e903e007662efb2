# -*- coding: utf-8 -*-
"""run by /opt/venv/bin/python:  main.py <module> <tier> <seed> <budget_s> <out.json> [replay.json]"""
import importlib
import json
import os
import random
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))


def main():
    name, tier, seed, budget, out = sys.argv[1], sys.argv[2], int(sys.argv[3]), float(sys.argv[4]), sys.argv[5]
    replay = sys.argv[6] if len(sys.argv) > 6 else None
    os.environ.setdefault("TZ", "Asia/Shanghai")
    time.tzset()
    import logging
    logging.disable(logging.CRITICAL)
    t0 = time.time()
    rep = {"evaluations": 0, "distinct": 0, "samples": [], "violations": [], "error": None, "rule": "", "cases": {}}
    try:
        m = importlib.import_module("rt." + name)
        rep["rule"] = (m.__doc__ or "").strip()
        if replay:
            r = json.load(open(replay))
            gen = [(r["case"], r["input"])]
        else:
            hints = json.loads(os.environ.get("PV_HINTS", "[]"))
            gen = m.generate(tier, random.Random(seed), hints) if m.generate.__code__.co_argcount > 2 else m.generate(
                tier, random.Random(seed))
        seen = set()
        keys = set()
        last = None
        for case, inp in gen:
            if not replay and last and isinstance(inp, dict) and not getattr(m, "SINGLE", False):
                if random.Random(rep["evaluations"]).random() < .25:
                    last, inp = [case, inp], dict(inp, in_process_after=last)     # in the same process as the previous one
                else:
                    last = [case, inp]
            else:
                last = [case, inp]
            s = json.dumps([case, inp], sort_keys=True, default=str)
            inp = json.loads(json.dumps(inp, default=str))      # what a replay will see
            rep["evaluations"] += 1
            rep["cases"][case] = rep["cases"].get(case, 0) + 1
            if s not in seen:
                seen.add(s)
                if rep["cases"][case] <= 2 and len(rep["samples"]) < 12:
                    rep["samples"].append({"case": case, "input": inp if len(s) < 1500 else s[:1500]})
            msg = run_case(m, case, inp)
            if msg:
                k = case + ": " + msg[0]
                if k not in keys:
                    keys.add(k)
                    rep["violations"].append({"case": case, "input": inp, "what": msg[0], "detail": msg[1]})
                if len(keys) >= 3:
                    break
            if time.time() - t0 > budget:
                rep["cut"] = True
                break
        rep["distinct"] = len(seen)
    except Exception:
        rep["error"] = traceback.format_exc()[-3000:]
    rep["wall_s"] = round(time.time() - t0, 3)
    with open(out, "w") as f:
        json.dump(rep, f, default=str)


def run_case(m, case, inp):
    from rt.common import Broken, KEEP
    import io
    if isinstance(inp, dict) and inp.get("in_process_after"):
        inp = dict(inp)
        first = inp.pop("in_process_after")
        r = run_case(m, *first)
        KEEP.append(1)
        try:
            return r or run_case(m, case, inp)
        finally:
            del KEEP[:]
    so, se = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        m.CASES[case](inp)
    except Broken as e:
        return str(e), traceback.format_exc()[-1500:]
    except Exception as e:      # the code under test left through an exception the contract does not allow
        return "unexpected %s: %s" % (type(e).__name__, str(e)[:200]), traceback.format_exc()[-2500:]
    except SystemExit as e:
        return "unexpected SystemExit %s" % (e,), traceback.format_exc()[-2500:]
    finally:
        sys.stdout, sys.stderr = so, se
    return None


if __name__ == "__main__":
    main()
