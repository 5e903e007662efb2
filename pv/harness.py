# -*- coding: utf-8 -*-
"""Runs the contract harnesses of one property and collects the verification results."""
import importlib
import json
import multiprocessing
import os
import sys
import time
import traceback

import z3

from .engine import Engine, eng, CUR, Unsupported
from .interp import Interp

REG = {}
ASSUMED_ALWAYS = ["the symbolic interpreter pv/ implements the Python semantics of the constructs it accepts "
                  "(everything else is rejected); cross-checked against CPython by pv/crosscheck.py",
                  "z3 (and cvc5) are sound"]


class Harness(object):
    def __init__(self, fn, name, covers, opts):
        self.fn, self.name, self.covers, self.opts = fn, name, covers, opts


def harness(name, covers=(), **opts):
    """one group of contracts: fn(I) builds an arbitrary pre-state, calls the public operation through the real
    source and states its postconditions with prove()"""
    def deco(fn):
        REG.setdefault(fn.__module__, []).append(Harness(fn, name, tuple(covers), opts))
        return fn
    return deco


def run_one(h, tier, deadline_s, end):
    sys.setrecursionlimit(30000)
    t0 = time.time()
    o = h.opts
    e = Engine(h.name, max_paths=o.get("max_paths", 20000), deadline=(time.process_time() + deadline_s, end),
               solver_ms=o.get("solver_ms", 8000 if tier == "quick" else 20000), cross=(tier == "thorough"))

    def body():
        it = Interp()
        it.max_steps = 3000000
        h.fn(it)
    try:
        e.explore(body)
    except Exception as ex:         # noqa: the harness (or the code under it) left through an unexpected exception
        tb = traceback.extract_tb(ex.__traceback__)
        e.problems.append(("harness-exception", "%s: %s [%s]" % (type(ex).__name__, str(ex)[:300], "; ".join(
            "%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-6:]))))
    r = e.result()
    r["wall_s"] = round(time.time() - t0, 3)
    r["missing_covers"] = [c for c in h.covers if not e.covers.get(c)]
    r["bounded"] = o.get("bounded")
    return r


def _work(a):
    mod, idx, tier, dl, end = a
    importlib.import_module(mod)
    h = REG[mod][idx]
    try:
        return run_one(h, tier, dl, end)
    except BaseException as ex:     # noqa
        return {"name": h.name, "obligations": 0, "vcs": 0, "discharged": 0, "failed": [],
                "problems": ["crash: %s" % traceback.format_exc()[-1500:]], "covers": {}, "paths": 0, "restarts": 0,
                "solver_s": 0, "backends": {}, "functions": [], "assumed": [], "wall_s": 0, "missing_covers": [],
                "bounded": None}


def run_module(mod, tier, only=None, deadline_s=None, procs=8):
    m = importlib.import_module(mod)
    hs = REG.get(mod, [])
    if deadline_s is None:
        deadline_s = 100 if tier == "quick" else 600
    end = time.time() + (450 if tier == "quick" else 7200)
    jobs = [(mod, i, tier, deadline_s, end) for i, h in enumerate(hs) if (only is None or h.name == only) and (
        tier == "thorough" or not h.opts.get("thorough"))]
    if procs == 1 or len(jobs) == 1:
        return [_work(j) for j in jobs]
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(min(procs, len(jobs))) as p:
        return p.map(_work, jobs, chunksize=1)


def main():
    mod = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
    only = sys.argv[3] if len(sys.argv) > 3 else None
    res = run_module("contracts." + mod.lower(), tier, only, procs=1 if only else 8)
    if os.environ.get("PV_JSON"):
        print(json.dumps(res))
        return
    for r in res:
        print("== %s: %d obligations (%d VCs), %d discharged, %d paths, %d restarts, %.2fs solver, %.2fs wall %s" % (
            r["name"], r["obligations"], r["vcs"], r["discharged"], r["paths"], r["restarts"], r["solver_s"],
            r["wall_s"], r["backends"]))
        for f in r["failed"]:
            print("   FAILED", f["name"], f["status"], f["model"], f["detail"])
        for p in r["problems"]:
            print("   PROBLEM", p)
        for c in r["missing_covers"]:
            print("   UNCOVERED", c)


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from pv import harness as H     # the registered module, not __main__
    H.main()
