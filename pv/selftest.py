"""set-up check: the solvers answer, the interpreter agrees with CPython (pv/crosscheck.py), it runs the modules of /repo, and the real code
imports under the interpreter used for the concrete runs"""
import os
import subprocess
import sys

import z3


def main():
    s = z3.Solver()
    x = z3.Int("x")
    s.add(x > 3, x < 4)
    assert s.check() == z3.unsat
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    r = subprocess.run([sys.executable, "-m", "pv.harness", "c04"], cwd=here, capture_output=True, text=True)
    print(r.stdout[-2000:], r.stderr[-2000:])
    from pv import crosscheck
    bad = crosscheck.main(2, 1, 60)
    r = subprocess.run(["/opt/venv/bin/python", "-c", "import jqtrade.scheduler.runner"], cwd="/repo",
                       env=dict(os.environ, PYTHONPATH="/repo", PYTHONDONTWRITEBYTECODE="1"), capture_output=True, text=True)
    print(r.stdout[-2000:], r.stderr[-2000:])
    return bad


if __name__ == "__main__":
    sys.exit(main())
