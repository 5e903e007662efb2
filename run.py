#!/opt/veriftools/pyvenv/bin/python
# -*- coding: utf-8 -*-
"""run.py <property> [--tier quick|thorough] [--replay FILE]

Decides one property: generates the obligations of its contracts from /repo's current source and has them discharged;
evaluates the same contracts at run time on the real code to obtain concrete failing inputs."""
import argparse
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import warnings

warnings.simplefilter("ignore")
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PV_REPO", "/repo")
sys.path.insert(0, VERIF)
PY = "/opt/venv/bin/python"


def known(prop):
    """entries of known_findings.txt that still stand for this property"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                out.append(line[len("known: property=%s " % prop):])
    return out


def start_rt(prop, tier, seed, budget, scratch, replay=None, hints=None):
    out = os.path.join(scratch, "rt%d.json" % time.time_ns())
    home = os.path.join(scratch, "home")
    os.makedirs(home, exist_ok=True)
    env = dict(os.environ, TZ="Asia/Shanghai", PYTHONPATH=REPO, HOME=home, PYTHONDONTWRITEBYTECODE="1",
               PYTHONHASHSEED=str(seed % 1000), TMPDIR=scratch)
    if hints:
        env["PV_HINTS"] = json.dumps(hints)[:60000]
    cmd = [PY, "-W", "ignore", os.path.join(VERIF, "rt", "main.py"), prop.lower(), tier, str(seed), str(budget), out]
    if replay:
        cmd.append(replay)
    log = open(os.path.join(scratch, "rt.log"), "ab")
    return subprocess.Popen(cmd, cwd=home, env=env, stdout=log, stderr=log, stdin=subprocess.DEVNULL), out


def finish_rt(p, out, timeout, scratch):
    try:
        p.wait(timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        return {"error": "runtime checks did not finish in %d s" % timeout, "violations": [], "evaluations": 0,
                "distinct": 0, "samples": [], "rule": "", "wall_s": timeout, "cases": {}}
    try:
        return json.load(open(out))
    except (OSError, ValueError):
        log = open(os.path.join(scratch, "rt.log"), errors="replace").read()[-2000:]
        return {"error": "runtime checks crashed (exit %s): %s" % (p.returncode, log), "violations": [],
                "evaluations": 0, "distinct": 0, "samples": [], "rule": "", "wall_s": 0, "cases": {}}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    prop, tier = a.prop.upper(), a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    scratch = tempfile.mkdtemp(prefix="pv_run_")
    try:
        return run(prop, tier, seed, a.replay, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run(prop, tier, seed, replay, scratch):
    t0 = time.time()
    if replay:
        r = json.load(open(replay))
        if "case" not in r:
            print("replay file %s names failed obligations (no failing input); see its text" % replay)
            print(json.dumps(r, indent=1, ensure_ascii=False)[:4000])
            return 0
        p, out = start_rt(prop, tier, seed, 60, scratch, replay=os.path.abspath(replay))
        rep = finish_rt(p, out, 120, scratch)
        for v in rep["violations"]:
            print("REPRODUCED", v["what"])
            print(v["detail"])
        if not rep["violations"]:
            print("the input no longer fails", rep.get("error") or "")
        return 1 if rep["violations"] else 0

    has_rt = os.path.exists(os.path.join(VERIF, "rt", prop.lower() + ".py"))
    has_c = os.path.exists(os.path.join(VERIF, "contracts", prop.lower() + ".py"))
    budget = 25 if tier == "quick" else 400
    rt = None
    if has_rt:
        p, out = start_rt(prop, tier, seed, budget, scratch)
    res = []
    if has_c:
        from pv import harness as H
        res = H.run_module("contracts." + prop.lower(), tier)
    if has_rt:
        rt = finish_rt(p, out, budget + 120, scratch)

    failed, undecided = [], []
    for r in res:
        for f in r["failed"]:
            (failed if f["status"] == "failed" else undecided).append("%s / %s: %s %s" % (
                r["name"], f["name"], f["status"], f["detail"] or ""))
        for x in r["problems"]:
            undecided.append("%s: %s" % (r["name"], x))
        for x in r["missing_covers"]:
            undecided.append("%s: situation never reached: %s" % (r["name"], x))
        if r["obligations"] == 0:
            undecided.append("%s: no obligation was generated" % r["name"])
    if not res and not has_rt:
        undecided.append("no contracts")
    hints = [f["model"] for r in res for f in r["failed"] if f["model"]]

    viol = list(rt["violations"]) if rt else []
    if (failed or undecided) and not viol and has_rt:
        # look harder for a concrete failing input, starting from the verifier's counter-models
        p, out = start_rt(prop, "thorough", seed + 1, 60 if tier == "quick" else 300, scratch, hints=hints)
        rt2 = finish_rt(p, out, 400, scratch)
        viol = list(rt2["violations"])
        rt["evaluations"] += rt2["evaluations"]
        rt["distinct"] += rt2["distinct"]
    if rt and rt.get("error"):
        undecided.append("runtime contracts: " + rt["error"])

    kn = known(prop)
    live, seen_known = [], []
    for v in viol:
        k = [x for x in kn if v["what"] and x.startswith(v["case"] + ": ") and v["what"].startswith(
            x[len(v["case"]) + 2:].split(" ## ")[0])]
        (seen_known if k else live).append((v, k))
    for x in kn:
        print("KNOWN-FINDING: property=%s %s" % (prop, x))

    rc = 0
    os.makedirs(os.path.join(VERIF, "out"), exist_ok=True)
    if live:
        v = live[0][0]
        path = os.path.join(VERIF, "out", "%s-%s.json" % (prop, hashlib.sha1(json.dumps(
            [v["case"], v["input"]], sort_keys=True, default=str).encode()).hexdigest()[:10]))
        with open(path, "w") as f:
            json.dump({"property": prop, "case": v["case"], "input": v["input"], "what": v["what"],
                       "detail": v["detail"], "failed_obligations": failed, "undecided": undecided,
                       "rerun": "python3-vt /verif/run.py %s --replay %s" % (prop, path)}, f, indent=1,
                      ensure_ascii=False, default=str)
        for x, _ in live:
            print("  %s: %s" % (x["case"], x["what"]))
            print("    input: %s" % json.dumps(x["input"], ensure_ascii=False, default=str)[:600])
        for x in failed:
            print("  failed obligation: %s" % x)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        rc = 1
    elif (failed or undecided) and not seen_known:
        text = json.dumps(failed + undecided, sort_keys=True)
        path = os.path.join(VERIF, "out", "%s-%s.json" % (prop, hashlib.sha1(text.encode()).hexdigest()[:10]))
        with open(path, "w") as f:
            json.dump({"property": prop, "failed_obligations": failed, "undecided": undecided,
                       "counter_models": hints, "verifier": res}, f, indent=1, ensure_ascii=False, default=str)
        for x in failed:
            print("  failed obligation: %s" % x)
        for x in undecided:
            print("  not decided: %s" % x[:600])
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
        rc = 1
    evidence(prop, tier, seed, res, rt, rc, time.time() - t0, len(live), failed, undecided)
    if rc == 0:
        print("%s: %d obligations (%d verification conditions) discharged in %.1f s; %d runtime contract evaluations" % (
            prop, sum(r["obligations"] for r in res), sum(r["vcs"] for r in res), time.time() - t0,
            rt["evaluations"] if rt else 0))
    return rc


def evidence(prop, tier, seed, res, rt, rc, wall, nviol, failed, undecided):
    assumed = sorted(set(x for r in res for x in r["assumed"]))
    libs = [x[9:] for x in assumed if x.startswith("library: ")]
    assumed = [x for x in assumed if not x.startswith("library: ")]
    if libs:
        assumed.append("the library contracts in pv/lib.py, pv/dt.py, pv/strings.py describe the real library, here: " + ", ".join(libs))
    from pv.harness import ASSUMED_ALWAYS
    backends = {}
    for r in res:
        for k, v in (r["backends"] or {}).items():
            backends[k] = backends.get(k, 0) + v
    cov = {
        "obligations": sum(r["obligations"] for r in res),
        "discharged": sum(r["discharged"] for r in res),
        "checker_cmd": "python3-vt -m pv.harness %s %s" % (prop.lower(), tier),
        "trusted_base": ASSUMED_ALWAYS + assumed,
        "verification_conditions": sum(r["vcs"] for r in res),
        "back_ends": backends,
        "solver_s": round(sum(r["solver_s"] for r in res), 3),
        "paths": sum(r["paths"] for r in res),
        "functions_under_contract": sorted(set(x for r in res for x in r["functions"])),
        "harnesses": [{"name": r["name"], "obligations": r["obligations"], "discharged": r["discharged"],
                       "vcs": r["vcs"], "paths": r["paths"], "covers": r["covers"], "bounded": r["bounded"],
                       "wall_s": r["wall_s"]} for r in res],
        "failed": failed[:20], "undecided": undecided[:20],
    }
    if rt:
        cov["evaluations"] = rt["evaluations"]
        cov["distinct_nontrivial"] = rt["distinct"]
        cov["rule"] = "runtime contracts on the real code, bounded, not counted as proved: " + rt["rule"][:1500]
        cov["runtime_cases"] = rt["cases"]
        s, n = [], 0
        for x in rt["samples"]:
            n += len(json.dumps(x, default=str))
            if n > 12000:
                break
            s.append(x)
        cov["samples"] = s
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov,
                   "assumptions": ASSUMED_ALWAYS + assumed, "wall_s": round(wall, 3), "violations": nviol}, f, indent=1,
                  ensure_ascii=False, default=str)


if __name__ == "__main__":
    sys.exit(main())
