# -*- coding: utf-8 -*-
"""C11: custom configuration overrides exactly the named settings."""
from pv.api import *

OWN = {"scheduler": "SCHEDULER_", "account": "ACCOUNT_"}


class File(object):
    """a configuration file that defines any names with any values"""

    def __init__(self, I, path=None, given=None):
        x = "" if path is None else "_again"
        self.n = fresh_int("n" + x, 0)
        none = z3.Function("none" + x, z3.IntSort(), z3.BoolSort())
        self.defs = SymMap("defs" + x, self.n, lambda i: str_fun("name" + x, i), lambda i: None if truth(mkbool(
            none(iterm(i)))) else Opaque(z3.Function("value" + x, z3.IntSort(), OBJ)(iterm(i))))
        self.opened = []
        self.path = fresh_str("path", excl="~") if path is None else path
        on = eng().ghost

        class Text(object):
            def __init__(s, path):
                s.path = path

            def read(s):
                return ("text of", s.path)

            def close(s):
                pass

            def __enter__(s):
                return s

            def __exit__(s, *a):
                pass

        def on_open(path, *a, **k):
            self.opened.append(path)
            return Text(path)

        def on_exec(text, g=None, l=None):
            prove("the text of a file is run", isinstance(text, tuple) and text[0] == "text of")
            names = l if l is not None else g
            if given is None:
                names._set(list(names.entries) + [self.defs])
            else:
                for k, v in given.items():
                    I.call(names.__setitem__, [k, v])
        on["on_open"], on["on_exec"] = on_open, on_exec

    def name(self, i):
        return self.defs.root_seg().get(i)[0]

    def value(self, i):
        return self.defs.root_seg().get(i)[1]


def config(I, kind):
    M = I.import_module("jqtrade.%s.config" % kind)
    return M, I.call(M.get_config, [])


@harness("settings named in the file", covers=["scheduler", "account", "named", "again", "none", "a value"])
def named(I):
    kind = ("scheduler", "account")[choose(2)]
    cover(kind)
    M, cfg = config(I, kind)
    path = None
    if choose(2):
        # the file was loaded before, with other definitions
        cover("again")
        path = fresh_str("path", excl="~")
        File(I, path, {OWN[kind] + "TRADE_GATE": "earlier", OWN[kind] + "MARKET_PERIOD": "earlier", OWN[kind] + "NEW": "earlier"})
        I.call(getattr(M, "setup_%s_config" % kind), [path])
    f = File(I, path)
    r, e = catch(I, getattr(M, "setup_%s_config" % kind), f.path)
    prove("any file of definitions can be loaded", e is None, repr(e))
    prove("the configuration stays the one in use", I.call(M.get_config, []) is cfg)
    j = fresh_int("j", 0)
    assume(j < f.n)
    rest = fresh_str("setting")
    assume(val_eq(f.name(j), OWN[kind] + rest))
    cover("named")
    over = PDict()
    over._set(list(vars(cfg).get("__pv_overlay__", [])))
    witness(over, f.defs.root_seg(), j)
    d = I.getattr(cfg, "__dict__")
    v = d.get(rest, d)
    want = f.value(j)
    cover("none" if want is None else "a value")
    prove("a setting named in the file has the value given there",
          v is None if want is None else isinstance(v, Opaque) and val_eq(v, want))


@harness("settings not named in the file", covers=["scheduler", "account", "known", "unknown"])
def unnamed(I):
    kind = ("scheduler", "account")[choose(2)]
    cover(kind)
    M, cfg = config(I, kind)
    before = dict(vars(cfg))
    f = File(I)
    I.call(getattr(M, "setup_%s_config" % kind), [f.path])
    names = sorted(before)
    k = choose(len(names) + 1)
    x = names[k] if k < len(names) else fresh_str("setting")
    if k == len(names):
        for n in names:
            assume(not_(val_eq(x, n)))
    # no definition of it in the file
    f.defs.root_seg().forall(lambda s, i: implies_t(in_range(i, f.n), bt(not_(val_eq(f.defs.keyf(i), OWN[kind] + x)))))
    d = I.getattr(cfg, "__dict__")
    missing = object()
    v = d.get(x, missing)
    if k < len(names):
        cover("known")
        prove("a setting not named in the file keeps its value", v is before[x])
    else:
        cover("unknown")
        prove("no other setting appears", v is missing)


@harness("the other part's settings", covers=["scheduler", "account"])
def other(I):
    """loading the settings of one part leaves those of the other as they are"""
    kind = ("scheduler", "account")[choose(2)]
    cover(kind)
    M, cfg = config(I, kind)
    M2, cfg2 = config(I, "account" if kind == "scheduler" else "scheduler")
    before = dict(vars(cfg2))
    f = File(I)
    I.call(getattr(M, "setup_%s_config" % kind), [f.path])
    prove("nothing changes there", vars(cfg2) == before and I.call(M2.get_config, []) is cfg2)
    prove("the given file is read, once", len(f.opened) == 1 and val_eq(f.opened[0], path_of(I, f.path)))


def path_of(I, p):
    os_ = I.import_module("jqtrade.scheduler.config").os
    return I.call(I.getattr(I.getattr(os_, "path"), "abspath"), [I.call(I.getattr(I.getattr(os_, "path"), "expanduser"), [p])])
