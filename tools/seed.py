"""Confirm a planted bug and store it under /verif/seeded/<id>/.

usage: seed.py FILE.py...   each file defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(path, old, new), ...]
       and DEMO (text of demo.py).  In a scratch copy of /repo: the demonstration passes without the
       change and fails with it, the 28 stable tests pass with it, and the property's check is run
       against the changed copy (its answer is only reported, not required).
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '#!/bin/bash\nHERE=$(cd "$(dirname "$0")" && pwd)\nexport TZ=Asia/Shanghai PYTHONDONTWRITEBYTECODE=1 ' \
     'PYTHONPATH="$PWD"\nexec timeout 200 /opt/venv/bin/python "$HERE/demo.py"\n'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def main(path):
    s = runpy.run_path(path)
    out = os.path.join(VERIF, "seeded", s["ID"])
    tmp = tempfile.mkdtemp(prefix="seed")
    try:
        repo = os.path.join(tmp, "repo")
        sh(f"cp -a /repo {repo}")
        base = sh(f"git -C {repo} rev-list --max-parents=0 HEAD").stdout.strip()
        os.makedirs(out, exist_ok=True)
        with open(os.path.join(out, "demo.py"), "w") as f:
            f.write(s["DEMO"].lstrip("\n"))
        with open(os.path.join(out, "demo.sh"), "w") as f:
            f.write(SH)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        demo = f"bash {out}/demo.sh"
        r0 = sh(demo, cwd=repo)
        for p, old, new in s["EDITS"]:
            p = os.path.join(repo, p)
            t = open(p).read()
            if t.count(old) != 1:
                sys.exit(f"{s['ID']}: {t.count(old)} matches of {old!r}")
            open(p, "w").write(t.replace(old, new))
        diff = sh(f"git -C {repo} diff").stdout
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        # the removed lines must be lines of the original repository
        r1 = sh(demo, cwd=repo)
        for p, old, new in s["EDITS"]:
            o = sh(f"git -C {repo} show {base}:{p}").stdout.split("\n")
            removed = [l[1:] for l in diff.split("\n") if l.startswith("-") and not l.startswith("---")]
            for l in removed:
                if l not in o:
                    print(f"{s['ID']}: NOT ORIGINAL: {l}")
        sh(f"sed 's#/repo#{repo}#g' /opt/vp/test.sh > {tmp}/test.sh")
        sh(f"bash {tmp}/test.sh {tmp}/o.json")
        want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) if "stable" in json.load(open("/opt/vp/BASELINE.json")) else None
        res = json.load(open(f"{tmp}/o.json"))
        passed = res.get("passed", res)
        n = len(passed)
        missing = sorted(want - set(passed)) if want else ""
        json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]},
                  open(os.path.join(out, "meta.json"), "w"), indent=1, ensure_ascii=False)
        c = sh(f"PV_REPO={repo} python3-vt run.py {s['PROPERTY']}", cwd=VERIF)
        v = [l for l in c.stdout.split("\n") if l.startswith("VIOLATION")]
        print(f"{s['ID']}: demo clean {r0.returncode} changed {r1.returncode}; tests passed {n} missing {missing}; "
              f"check exit {c.returncode} {v[:1]}")
        if r0.returncode:
            print(r0.stdout[-600:], r0.stderr[-900:])
        if not r1.returncode:
            print("DEMO DOES NOT FAIL")
    finally:
        shutil.rmtree(tmp)


for a in sys.argv[1:]:
    main(a)
