# -*- coding: utf-8 -*-
"""random functions for pv/crosscheck.py: loops over a sequence that build, filter, count, look up, leave early or raise"""


def expr(r, names, depth=2):
    k = r.random()
    if depth == 0 or k < .45:
        return r.choice(names + ["0", "1", "7", "-3"])
    if k < .7:
        return "%s %s %s" % (expr(r, names, 0), r.choice(["+", "-", "*"]), expr(r, names, 0))
    if k < .8:
        return "(%s if %s else %s)" % (expr(r, names, 0), cond(r, names, 0), expr(r, names, 0))
    if k < .9:
        return "abs(%s)" % expr(r, names, 0)
    return "(%s) %% %d" % (expr(r, names, 0), r.choice([2, 3, 10]))


def cond(r, names, depth=1):
    k = r.random()
    if depth and k < .25:
        return "%s %s %s" % (cond(r, names, 0), r.choice(["and", "or"]), cond(r, names, 0))
    if depth and k < .35:
        return "not (%s)" % cond(r, names, 0)
    if k < .5 and "d" in names.extra:
        return "%s in d" % expr(r, names, 0)
    if k < .6 and names.extra:
        return r.choice(["r", "b"])
    return "%s %s %s" % (expr(r, names, 1), r.choice(["<", "<=", "==", "!=", ">"]), expr(r, names, 0))


class Names(list):
    extra = ()

    def plus(self, *x):
        n = Names(list(self) + list(x))
        n.extra = self.extra
        return n


def block(r, names, ind, depth, loop):
    out = []
    for _ in range(r.choice([1, 1, 2, 2, 3])):
        k = r.random()
        p = "    " * ind
        if k < .2:
            out.append(p + "%s = %s" % (r.choice(["n", "m"]), expr(r, names)))
        elif k < .3:
            out.append(p + "n += %s" % expr(r, names, 1))
        elif k < .38:
            out.append(p + "b = %s" % cond(r, names))
        elif k < .55:
            out.append(p + "r.append(%s)" % r.choice([expr(r, names, 1), "(%s, %s)" % (expr(r, names, 0), expr(r, names, 0))]))
        elif k < .64:
            out.append(p + "d[%s] = %s" % (expr(r, names, 0), expr(r, names, 0)))
        elif k < .67:
            out.append(p + "s = %r" % r.choice(["x", "y"]))
        elif k < .9 and depth:
            out.append(p + "if %s:" % cond(r, names))
            out += block(r, names, ind + 1, depth - 1, loop)
            if r.random() < .4:
                out.append(p + "else:")
                out += block(r, names, ind + 1, depth - 1, loop)
        elif k < .94 and depth:
            out.append(p + "try:")
            out.append(p + "    n = 10 // (%s)" % expr(r, names, 1))
            out.append(p + "except ZeroDivisionError:")
            out += block(r, names, ind + 1, depth - 1, loop)
        elif loop:
            out.append(p + "if %s:" % cond(r, names))
            out.append(p + "    " + r.choice(["continue", "break", "return 'out'", "return n", "raise ValueError()", "raise KeyError()"]))
    return out or ["    " * ind + "pass"]


def program(r):
    names = Names(["a", "n", "m"])
    names.extra = ("d",)
    t = ["def f(x, a):", "    n, m, b, s = 0, a, False, ''", "    r, d = [], {}"]
    if r.random() < .3:
        t += block(r, names, 1, 1, False)
    k = r.random()
    head = "for e in x:" if k < .6 else "for i, e in enumerate(x):" if k < .8 else "for e in [v %s for v in x if %s]:" % (
        r.choice(["", "+ 1"]), cond(r, Names(["v", "a"]), 0))
    nn = names.plus("e", *(["i"] if "enumerate" in head else []))
    guard = r.random() < .2
    p = 2 if guard else 1
    if guard:
        t.append("    try:")
    t.append("    " * p + head)
    t += block(r, nn, p + 1, 2, True)
    if r.random() < .2:
        t.append("    " * p + "else:")
        t += block(r, names, p + 1, 1, False)
    if guard:
        t.append("    except %s:" % r.choice(["ValueError", "Exception", "(KeyError, ValueError)"]))
        t += block(r, names, 2, 1, False)
    if r.random() < .3:
        t += block(r, names, 1, 1, False)
    t.append("    return %s" % r.choice(["n", "r", "m, b", "n, s", "d.get(7), 1 in d", "len(r), n", "n, m, b, s, r", "s", "[v for v in r]",
                                        "b", "m", "r, n"]))
    return [("list", "int"), "int"], "\n".join(t)


def objects(r):
    """several loops one after the other over the sequence and over what earlier ones built, with the state in an object"""
    names = Names(["a", "c.n", "c.m", "n"])
    t = ["class C(object):", "    total = 0", "",
         "    def __init__(self, n):", "        self.n, self.m, self.b = n, 0, False", "        self.items, self.d = [], {}", "",
         "    def add(self, e):", "        %s" % r.choice(["self.n += 1", "self.m = e", "C.total += e", "self.b = self.b or e == 7", "self.d[e] = self.n",
                                                           "self.n = self.n + 2 if e > 3 else self.n"]),
         "        %s" % r.choice(["self.items.append(e)", "self.items.append((e, self.n))", "self.m = self.n", "return self.n", "pass"]),
         "        return e > %s" % r.choice(["0", "self.m", "7"]), "", "",
         "def f(x, a):", "    c, n, r, d = C(a), 0, [], {}"]

    def stmts(ind, nn, loop, depth):
        out, p = [], "    " * ind
        for _ in range(r.choice([1, 1, 2, 3])):
            k = r.random()
            if k < .2:
                out.append(p + "c.add(%s)" % expr(r, nn, 1))
            elif k < .3:
                out.append(p + "c.%s = %s" % (r.choice("nm"), expr(r, nn, 1)))
            elif k < .4:
                out.append(p + "c.items.append(%s)" % expr(r, nn, 0))
            elif k < .5:
                out.append(p + "%s[%s] = %s" % (r.choice(["c.d", "d"]), expr(r, nn, 0), expr(r, nn, 0)))
            elif k < .6:
                out.append(p + "r.append(%s)" % expr(r, nn, 1))
            elif k < .68:
                out.append(p + "n %s %s" % (r.choice(["=", "+="]), expr(r, nn, 1)))
            elif k < .74:
                out.append(p + "%s.pop(%s, None)" % (r.choice(["c.d", "d"]), expr(r, nn, 0)))
            elif k < .95 and depth:
                out.append(p + "if %s:" % r.choice([cond(r, nn, 0), "c.add(%s)" % expr(r, nn, 0), "c.b", "7 in %s" % r.choice(["d", "c.d", "r"]),
                                                    "%s in %s" % (expr(r, nn, 0), r.choice(["d", "c.d", "x"]))]))
                out += stmts(ind + 1, nn, loop, depth - 1)
                if r.random() < .3:
                    out.append(p + "else:")
                    out += stmts(ind + 1, nn, loop, depth - 1)
            elif loop:
                out.append(p + "if %s:" % cond(r, nn, 0))
                out.append(p + "    " + r.choice(["continue", "break", "return r"]))
        return out or [p + "pass"]
    for _ in range(r.choice([1, 2, 2, 3])):
        s = r.choice(["x", "x", "x", "r", "c.items", "[v for v in x if v > 0]", "list(d)"])
        if s in ("r", "c.items"):
            t.append("    for e in list(%s):" % s if r.random() < .5 else "    for e in %s[:]:" % s)
            t.append("        if isinstance(e, tuple):")
            t.append("            continue")
        else:
            t.append("    for e in %s:" % s)
        t += stmts(2, names.plus("e"), True, 2)
        if r.random() < .4:
            t += stmts(1, names, False, 1)
    t.append("    return %s" % r.choice(["c.n, c.m", "r", "c.items", "n, c.n", "d.get(7), c.d.get(1), 7 in d", "c.b, C.total", "[v for v in r if v != 7]",
                                         "len(r), len(c.items)", "r, c.items, c.n", "[v for v in c.items], n"]))
    return [("list", "int"), "int"], "\n".join(t)


def texts(r):
    """operations on unknown texts"""
    v = ["a", "b", "s", "t"]
    lits = ["'='", "';'", "'.'", "','", "'a'", "'open'", "'+'"]
    t = ["def f(a, b):", "    s, t = a, b"]

    def line():
        x = r.choice(v)
        k = r.random()
        if k < .15:
            return ["%s = %s + %s" % (r.choice("st"), x, r.choice(v + lits))]
        if k < .25:
            return ["if %s in %s:" % (r.choice(lits), x), "    %s, %s = %s.split(%s, 1)" % ("s", "t", x, r.choice(lits))]
        if k < .35:
            return ["%s = %s.%s(%s)[%d]" % (r.choice("st"), x, r.choice(["partition", "rpartition"]), r.choice(lits), r.choice([0, 2]))]
        if k < .45:
            return ["%s = %s[%s]" % (r.choice("st"), x, r.choice(["1:", ":1", ":2", ":-1", "2:4", "-2:"]))]
        if k < .55:
            return ["if %s.%s(%s):" % (x, r.choice(["startswith", "endswith"]), r.choice(lits)), "    %s = %s" % (r.choice("st"), r.choice(v + lits))]
        if k < .65:
            return ["if %s == %s:" % (x, r.choice(v + lits)), "    return %s" % r.choice(["'same'", x])]
        if k < .75:
            return ["p = %s.split(%s)" % (x, r.choice(lits)), "if len(p) %s %d:" % (r.choice(["==", ">", "<"]), r.choice([1, 2, 3])), "    return p[0]"]
        if k < .82:
            return ["%s = %s.%s()" % (r.choice("st"), x, r.choice(["upper", "lower", "strip"]))]
        if k < .9:
            return ["s = %s.join([%s, %s])" % (r.choice(lits), r.choice(v), r.choice(v))]
        return ["t = f'{%s}%s{%s}'" % (r.choice(v), r.choice(["", ".", "=", ";"]), r.choice(v))]
    for _ in range(r.choice([1, 2, 3, 4])):
        t += ["    " + l for l in line()]
    t.append("    return %s" % r.choice(["s", "t", "s, t", "len(s), t", "s == t, s in t", "s.split(';')", "bool(s), t.count('=')", "s.split('=')"]))
    return ["str", "str"], "\n".join(t)


def any_program(r):
    return r.choice([program, objects, texts])(r)
