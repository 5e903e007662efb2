# -*- coding: utf-8 -*-
"""C12: task command lines and environment options are read faithfully."""
from pv.api import *
from contracts.task import Start

DESTS = ("name", "code", "out", "env", "config", "debug")


class Captured(BaseException):
    pass


def canonical(parser):
    """what a parser with these declarations makes of its arguments, up to which options are mandatory and the help texts"""
    out = []
    for names, kw in parser.declared:
        kw = {k: v for k, v in kw.items() if k not in ("help", "metavar", "required")}
        kw.setdefault("action", "store")
        dest = kw.pop("dest", None)
        if dest is None:
            long = [n for n in names if n.startswith("--")]
            dest = (long or list(names))[0].lstrip("-").replace("-", "_")
        if kw["action"] == "store_true":
            kw.setdefault("default", False)
        kw.setdefault("default", parser.preset.get(dest))
        out.append((dest, tuple(sorted(names)), tuple(sorted((k, repr(v)) for k, v in kw.items()))))
    opts = {k: v for k, v in parser.kw.items() if k not in ("add_help", "conflict_handler", "formatter_class")}
    opts = {k: v for k, v in opts.items() if not (k, v) in (("allow_abbrev", True), ("prefix_chars", "-"), ("exit_on_error", True))}
    return sorted(out), sorted((k, repr(v)) for k, v in opts.items())


class Namespace(object):
    pass


def namespace(tag):
    n = Namespace()
    for d in DESTS:
        if d == "debug":
            v = fresh_bool(tag + d)
        elif choose(2):
            v = None
        else:
            v = fresh_str(tag + d)
        setattr(n, d, v)
    return n


def start_parser(I):
    """the parser start_task's arguments go through, and what becomes of its result"""
    M = I.import_module("jqtrade.__main__")
    got = []

    def on_parse(parser, args, known):
        got.append(parser)
        raise Captured()
    eng().ghost["on_parse"] = on_parse
    r, e = catch(I, M.main)
    prove("the command line is parsed", isinstance(e, Captured) and len(got) == 1, repr(e))
    p = [c for n, c in got[0].children if n == "start_task"]
    prove("there is one start_task command", len(p) == 1)
    return M, got[0], p[0]


@harness("what start_task understood reaches the task", covers=["run"])
def started(I):
    M, top, sub = start_parser(I)
    R = I.import_module("jqtrade.scheduler.runner")
    n = namespace("ns_")
    n.version = False
    for k, v in sub.preset.items():
        setattr(n, k, v)
    understood = dict(vars(n))
    made = []

    class Runner(object):
        def __init__(self, code_file, out_file, task_name, env, debug=False, config=None):
            made.append(self)
            self.a = dict(name=task_name, code=code_file, out=out_file, env=env, debug=debug, config=config)
            self.runs = 0

        def run(self):
            self.runs += 1
    R.TaskRunner = Runner
    eng().ghost["on_parse"] = lambda parser, args, known: n
    r, e = catch(I, M.main)
    cover("run")
    prove("the task is started", e is None and len(made) == 1 and made[0].runs == 1, repr(e))
    prove("with the options as understood", and_(*[val_eq(made[0].a[d], understood[d]) if understood[d] is not None else
                                                    made[0].a[d] is None for d in DESTS]))


@harness("parse_task_info reports what start_task understood", covers=["accepted", "given", "absent"])
def info(I):
    M, top, sub = start_parser(I)
    U = I.import_module("jqtrade.scheduler.utils")
    n = fresh_int("n", 0)
    seg = Seg("args", n, lambda k: str_fun("arg", k))
    i = fresh_int("i", 0)
    assume(i < n)
    seg.get(i)
    fact(val_eq(str_fun("arg", i), "start_task"))
    seg.forall(lambda s, k: z3.Implies(bt(in_range_b(k, i)), bt(not_(val_eq(str_fun("arg", k), "start_task")))))
    ns = namespace("ns_")
    understood = dict(vars(ns))

    def on_parse(parser, args, known):
        cover("accepted")
        prove("with the options start_task has", canonical(parser) == canonical(sub),
              "%r is not %r" % (canonical(parser), canonical(sub)))
        prove("the arguments after start_task are read", val_eq(args.length(), n - i - 1))
        k = fresh_int("k", 0)
        assume(k < n - i - 1)
        prove("all of them in order", val_eq(args[k], str_fun("arg", i + 1 + k)))
        return (ns, PList([])) if known else ns
    eng().ghost["on_parse"] = on_parse
    r, e = catch(I, U.parse_task_info, PList([seg]))
    prove("the command line is read", e is None, repr(e))
    for d in ("name", "code", "out", "env", "debug"):
        v, w = r[d], understood[d]
        if w is None:
            cover("absent")
            prove("a missing option is reported as absent", v is None, d)
        else:
            cover("given")
            prove("an option is reported as understood", v is not None and val_eq(v, w), d)


class Env(object):
    """the environment option: any number of entries joined by the separator"""

    def __init__(self, entries):
        self.entries = entries

    def split(self, sep=None, maxsplit=-1):
        if sep != ";":
            raise Unsupported("entries split at %r" % (sep,))
        return PList([self.entries])

    def pv_truth(self):
        return True


def entry(i, good=True):
    blank = lambda k: str_fun("blank%d" % k, i, cls="blank", excl=";=").parts     # noqa
    a = str_fun("entry_name", i, excl=";=", strip_ok=True).parts
    v = str_fun("entry_value", i, excl=";", strip_ok=True).parts
    if good:
        return mk(blank(0) + a + blank(1) + ("=",) + blank(2) + v + blank(3))
    return mk(blank(0) + a + blank(1))


@harness("any environment option", covers=["variable", "nothing else", "refused"])
def environment(I):
    U = I.import_module("jqtrade.scheduler.utils")
    n = fresh_int("n", 1)
    bad = fresh_int("bad", 0) if choose(2) else None
    if bad is not None:
        assume(bad < n)

    def get(i):
        if bad is not None and truth(val_eq(i, bad)):
            return entry(i, False)
        return entry(i)
    seg = Seg("entries", n, get)
    j = fresh_int("j", 0)
    assume(j < n)
    r, e = catch(I, U.parse_env, Env(seg))
    if e is None and bad is not None:
        follow("entries", bad)
    if bad is not None:
        cover("refused")
        prove("an entry without = is refused", e is not None and isinstance(e, Exception))
        return
    prove("the option is read", e is None, repr(e))
    name = lambda i: str_fun("entry_name", i, excl=";=", strip_ok=True)      # noqa
    value = lambda i: str_fun("entry_value", i, excl=";", strip_ok=True)     # noqa
    if choose(2):
        seg.forall(lambda s, i: z3.Implies(z3.And(iterm(i) > iterm(j), iterm(i) < iterm(n)), z3.Not(bt(val_eq(name(i), name(j))))))
        cover("variable")
        witness(r, seg, j)
        w = I.call(r.get, [name(j), None])
        prove("a variable has the value of its (last) entry", w is not None and val_eq(w, value(j)))
    else:
        k = fresh_str("some_name")
        seg.forall(lambda s, i: z3.Implies(bt(in_range_b(i, n)), z3.Not(bt(val_eq(name(i), k)))))
        cover("nothing else")
        prove("no variable that has no entry", r.get(k, None) is None)


@harness("a starting task gets exactly the variables of its environment option", covers=["variables", "none", "refused", "unset", "kept"])
def task_environment(I):
    w = Start(I)
    if not hasattr(w.R, "_exist_repeated_task"):
        raise Unsupported("the duplicate check is gone")
    w.R._exist_repeated_task = lambda name: False
    case = choose(3)
    n = fresh_int("n", 0)
    vals = SymMap("vars", n, lambda i: str_fun("var_name", i), lambda i: str_fun("var_value", i))
    asked = []

    def given():
        d = PDict()
        d._set([vals])
        return d

    def parse_env(text, sep=";"):
        asked.append(text)
        if case == 2:
            raise ValueError()
        return given()
    w.R.parse_env = parse_env
    if case:
        w.env = fresh_str("env", nonempty=True)
    if choose(2):
        w.config = fresh_str("config", nonempty=True, excl="~")
    r, e = w.construct()
    if case == 2:
        cover("refused")
        prove("an environment option that cannot be read refuses the task", e is not None)
        return
    if e is not None:
        prove("only a missing file refuses it", any(not v for p, v in w.files.known), repr(e))
        return          # (C14)
    if case == 0:
        cover("none")
        prove("without the option no variable changes", w.environ().entries == [w.old] and not asked)
        return
    prove("the option given is read", len(asked) == 1 and val_eq(asked[0], w.env))
    cover("variables")
    seg = vals.root_seg()
    if choose(2):
        j = fresh_int("j", 0)
        assume(j < n)
        seg.get(j)
        follow("vars", j)
        witness(w.environ(), seg, j)
        got = w.environ().get(str_fun("var_name", j), None)
        prove("exactly the variables of the option are set", got is not None and val_eq(got, str_fun("var_value", j)))
    else:
        k = fresh_str("k")
        seg.forall(lambda s, i: z3.Implies(bt(in_range_b(i, n)), z3.Not(bt(val_eq(str_fun("var_name", i), k)))))
        i = w.old.find_index(k)
        got = w.environ().get(k, None)
        cover("unset" if i is None else "kept")
        prove("the other variables keep their values", got is None if i is None else got is not None and val_eq(
            got, str_fun("old_value", i)))
