# -*- coding: utf-8 -*-
"""The interpreter against CPython.

Every snippet below is run by CPython on sampled arguments and by pv/ on *symbolic* arguments that are then assumed to equal the
samples: the outcome CPython gives (a result or an error) has to be among those the verifier considers, otherwise what it proves
need not hold; where it considers others as well it is only less precise.  Loops over sequences are run twice: over a sequence with these elements, and over one of unknown length (cut with
the inferred invariants) assumed to have this length and these elements.  A construct pv/ refuses (Unsupported) counts as refused,
never as agreement; the run fails if a snippet disagrees.

    python3-vt -m pv.crosscheck [samples] [seed] [number of random programs]"""
import datetime
import multiprocessing
import os
import random
import shutil
import sys
import tempfile
import textwrap
import time

if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from pv.api import *        # noqa
from pv import interp
from pv.engine import Engine
from pv.interp import Interp
from pv.snippets import SNIPPETS
from pv.randprog import any_program

HELPERS = """
def pv_len(x):
    return len(x)


def pv_get(x, i):
    return x[i]


def pv_in(k, x):
    return k in x
"""
SAMPLE = {
    "int": lambda r: r.choice([0, 1, -1, 2, 7, -7, 10, 59, 60, 100, r.randint(-50, 50), r.randint(-10**6, 10**6)]),
    "nat": lambda r: r.choice([0, 1, 2, 9, 10, 59, 60, 99, r.randint(0, 200)]),
    "small": lambda r: r.randint(-3, 3),
    "bool": lambda r: r.random() < .5,
    "real": lambda r: r.choice([0.0, .5, -.5, 4.0, -8.0, 1024.0, 2.0 ** r.randint(-3, 9)]),
    "str": lambda r: r.choice(["", "a", "A=1", "open+1h30m", "600000.XSHG", " x ", "a;b;;c", "09:30", "x" * r.randint(0, 5), "-5",
                               "12", "a,b", "open", "ab=c=d", "xyz\n", "".join(r.choice("abc;=. 0") for _ in range(r.randint(0, 8)))]),
    "word": lambda r: r.choice(["a", "b", "ab", "key", "z1", "", "abc", "A"]),
    "dt": lambda r: datetime.datetime(r.randint(1990, 2060), r.randint(1, 12), r.randint(1, 28), r.choice([0, 9, 15, 23]),
                                      r.choice([0, 30, 59]), r.choice([0, 1, 59]), r.choice([0, 1, 500000, 999999, 123456])),
    "date": lambda r: datetime.date(r.choice([2024, 2023, 2000, 2100 - 2]), r.randint(1, 12), r.choice([1, 15, 28])),
    "none": lambda r: None,
}


def sample(kind, r):
    if isinstance(kind, tuple):
        if kind[0] == "list":
            return [sample(kind[1], r) for _ in range(r.choice([0, 1, 2, 3, 4]))]
        if kind[0] == "opt":
            return None if r.random() < .3 else sample(kind[1], r)
        if kind[0] == "pair":
            return (sample(kind[1], r), sample(kind[2], r))
        if kind[0] == "dict":
            return {sample(kind[1], r): sample(kind[2], r) for _ in range(r.choice([0, 1, 2, 3]))}
        if kind[0] == "oneof":
            return r.choice(kind[1])
    return SAMPLE[kind](r)


def symbol(kind, v, name, cut):
    """a symbolic value assumed to be v"""
    if isinstance(kind, tuple):
        if kind[0] == "list" and cut and scalar(kind[1]):
            n = fresh_int(name + "_n", 0)
            f = {"str": str_fun, "word": str_fun}.get(kind[1]) or (lambda m, i: mkint(z3.Function(m, z3.IntSort(), z3.IntSort())(iterm(i))))
            assume(val_eq(n, len(v)))
            for i, x in enumerate(v):
                assume(val_eq(f(name, i), x))
            return PList([Seg(name, n, lambda i: f(name, i))])
        if kind[0] == "list":
            return PList([symbol(kind[1], x, "%s_%d" % (name, i), cut) for i, x in enumerate(v)])
        if kind[0] == "opt":
            return None if v is None else symbol(kind[1], v, name, cut)
        if kind[0] == "pair":
            return (symbol(kind[1], v[0], name + "_0", cut), symbol(kind[2], v[1], name + "_1", cut))
        if kind[0] == "dict":
            return PDict([(k, symbol(kind[2], x, "%s_%d" % (name, i), cut)) for i, (k, x) in enumerate(v.items())])
        return v
    if v is None or kind == "none":
        return None
    if kind in ("int", "nat", "small"):
        s = fresh_int(name)
    elif kind == "bool":
        s = fresh_bool(name)
        assume(s if v else not_(s))
        return s
    elif kind == "real":
        s = fresh_real(name)
    elif kind in ("str", "word"):
        s = fresh_str(name)
    elif kind == "dt":
        s = fresh_int(name)
        assume(val_eq(s, (v - datetime.datetime(1970, 1, 1)) // datetime.timedelta(microseconds=1)))
        return SymDT(s)
    elif kind == "date":
        s = fresh_int(name)
        assume(val_eq(s, v.toordinal()))
        return SymDate(s)
    else:
        raise ValueError(kind)
    assume(val_eq(s, v))
    return s


def scalar(k):
    return k in ("int", "nat", "small", "str", "word")


def agrees(I, got, want):
    """a condition: the symbolic value `got` is `want`"""
    if isinstance(want, (list, tuple)):
        if isinstance(got, (PList, list, tuple)) is False or (type(want) is list) != isinstance(got, (PList, list)):
            return False
        n = I.call(I.M.pv_len, [got])
        c = [val_eq(n, len(want))]
        if truth(c[0]) is not True:
            return False
        for i, w in enumerate(want):
            c.append(agrees(I, I.call(I.M.pv_get, [got, i]), w))
        return and_(*c)
    if isinstance(want, dict):
        if not isinstance(got, PDict):
            return False
        c = [val_eq(I.call(I.M.pv_len, [got]), len(want))]
        for k, w in want.items():
            if not truth(I.call(I.M.pv_in, [k, got])):
                return False
            c.append(agrees(I, I.call(I.M.pv_get, [got, k]), w))
        return and_(*c)
    if want is None or got is None:
        return got is want
    if isinstance(want, bool):
        if isinstance(got, (bool, SymBool)):
            return got if want else not_(got)
        return False
    if isinstance(want, int):
        return isinstance(got, (int, SymInt)) and not isinstance(got, bool) and val_eq(got, want)
    if isinstance(want, float):
        return isinstance(got, (float, SymReal)) and val_eq(got, want)
    if isinstance(want, str):
        return isinstance(got, (str, SymStr)) and val_eq(got, want)
    if isinstance(want, datetime.datetime):
        return isinstance(got, (datetime.datetime, SymDT)) and val_eq(dt_us(got), (want - datetime.datetime(1970, 1, 1)) // datetime.timedelta(
            microseconds=1))
    if isinstance(want, datetime.date):
        return isinstance(got, (datetime.date, SymDate)) and val_eq(date_ord(got), want.toordinal())
    if isinstance(want, datetime.timedelta):
        return val_eq(td_us(got), want // datetime.timedelta(microseconds=1))
    raise ValueError("comparing %r" % (want,))


def run(job):
    """one snippet on one sample: (snippet, sample, mode, 'agree' | 'refused: ...' | 'DISAGREE: ...')"""
    root, i, args, cut = job
    sys.setrecursionlimit(30000)
    interp.REPO = root
    kinds, text = SNIPPETS[i]
    ns = {"datetime": datetime}
    exec(compile(text, "<snippet>", "exec"), ns)
    import copy
    try:
        want = ("ok", ns["f"](*copy.deepcopy(args)))
    except Exception as e:      # noqa
        want = ("raise", type(e).__name__)
    e = Engine("snippet", max_paths=3000, deadline=(time.process_time() + 40, time.time() + 60), solver_ms=8000)
    hit, miss = [], []

    def body():
        I = Interp()
        M = I.M = I.import_module("jqtrade.snippet%d" % i)
        xs = [symbol(k, v, "x%d" % n, cut) for n, (k, v) in enumerate(zip(kinds, args))]
        r, ex = catch(I, M.f, *xs)
        if ex is not None:
            same = want[0] == "raise" and type(ex).__name__ == want[1]
        else:
            same = want[0] == "ok" and agrees(I, r, want[1])
        same = truth(same)
        (hit if same else miss).append("%r %r" % (r, ex))
    try:
        e.explore(body)
    except Exception as ex:     # noqa
        return i, args, cut, "refused: %s: %s" % (type(ex).__name__, str(ex)[:200])
    r = e.result()
    if r["failed"] or r["problems"]:
        return i, args, cut, "refused: %s" % (str((r["failed"] or r["problems"])[0])[:300],)
    if not hit:
        return i, args, cut, "DISAGREE: CPython gives %r, the verifier only considers %r" % (want, miss[:3])
    return i, args, cut, "more: %r" % miss[:2] if miss else "agree"


def main(samples=4, seed=1, programs=0):
    rng = random.Random(seed)
    SNIPPETS.extend(any_program(rng) for _ in range(programs))
    root = tempfile.mkdtemp(prefix="pv_cc_")
    try:
        os.makedirs(os.path.join(root, "jqtrade"))
        open(os.path.join(root, "jqtrade", "__init__.py"), "w").close()
        jobs = []
        for i, (kinds, text) in enumerate(SNIPPETS):
            with open(os.path.join(root, "jqtrade", "snippet%d.py" % i), "w") as f:
                f.write("import datetime\n\n%s\n\n%s" % (textwrap.dedent(text), HELPERS))
            for _ in range(samples):
                args = [sample(k, rng) for k in kinds]
                for cut in ([False, True] if any(isinstance(k, tuple) and k[0] == "list" and scalar(k[1]) for k in kinds) else [False]):
                    jobs.append((root, i, args, cut))
        with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as p:
            res = p.map(run, jobs, chunksize=4)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    bad = [r for r in res if r[3].startswith("DISAGREE")]
    ref = [r for r in res if r[3].startswith("refused")]
    more = [r for r in res if r[3].startswith("more")]
    print("crosscheck: %d snippets, %d runs: CPython's outcome is the only one in %d, one of those considered in %d, refused %d, "
          "missed %d" % (len(SNIPPETS), len(res), len(res) - len(bad) - len(ref) - len(more), len(more), len(ref), len(bad)))
    for r in bad:
        print("DISAGREE", SNIPPETS[r[0]][1].strip(), r[1:])
    if os.environ.get("PV_CC"):
        seen = set()
        for r in ref + more:
            if (r[0], r[2]) not in seen:
                seen.add((r[0], r[2]))
                print("-", SNIPPETS[r[0]][1].strip(), r[1:])
    return 1 if bad else 0


if __name__ == "__main__":
    from pv import crosscheck as C
    sys.exit(C.main(*[int(x) for x in sys.argv[1:]]))
