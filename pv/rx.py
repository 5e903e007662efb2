# -*- coding: utf-8 -*-
"""Regular expressions on symbolic text.

1. Text made of literals and digits whose number is known: if the pattern treats all digits alike, the real `re` decides on a
   representative and the result is carried back to the symbolic text.
2. Unknown text against a pattern: membership in the pattern's language is decided (branched on) by the solver; on a match of a
   pattern with finitely many shapes (literals and digit runs of fixed length) the text is known to have one of them.
3. Splitting unknown text at a single character: no occurrence, or at least one, with an unknown rest."""
import re
from re import _constants as C, _parser as P

import z3

from .engine import eng, Unsupported
from .strings import SymStr, Atom, Num, mk, parts_of, plen, to_z3, part_z3, sym_slice, excludes, bind
from .values import Seg, PList, mkint, iterm

DIGITS = set("0123456789")


# ------------------------------------------------------------------------------------------------ case 1
def uniform(items):
    """does the pattern treat all digits alike?"""
    for op, av in items:
        if op in (C.LITERAL, C.NOT_LITERAL):
            if chr(av) in DIGITS:
                return False
        elif op is C.IN:
            n = 0
            for o, a in av:
                if o is C.LITERAL:
                    n += chr(a) in DIGITS
                elif o is C.RANGE:
                    n += len([d for d in DIGITS if a[0] <= ord(d) <= a[1]])
                elif o not in (C.CATEGORY, C.NEGATE):
                    return False
            if n not in (0, 10):
                return False
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT, C.POSSESSIVE_REPEAT):
            if not uniform(av[2]):
                return False
        elif op is C.SUBPATTERN:
            if not uniform(av[3]):
                return False
        elif op is C.BRANCH:
            if not all(uniform(b) for b in av[1]):
                return False
        elif op in (C.ASSERT, C.ASSERT_NOT):
            if not uniform(av[1]):
                return False
        elif op not in (C.ANY, C.AT, C.CATEGORY):
            return False
    return True


def representative(s):
    """a text like s with every digit 0, or None if the characters of s are not known that far"""
    out = []
    for p in parts_of(s):
        if isinstance(p, str):
            out.append(p)
        elif isinstance(p, Num) and p.width and eng().known(iterm(p.n) < 10 ** p.width):
            out.append("0" * p.width)
        elif isinstance(p, Atom) and p.cls == "digits" and p.exact_len:
            out.append("0" * p.exact_len)
        else:
            return None
    return "".join(out)


class Match(object):
    def __init__(self, s, m):
        self.s, self.m = s, m
        self.re = m.re
        self.lastindex, self.lastgroup = m.lastindex, m.lastgroup

    def one(self, g):
        a, b = self.m.span(g)
        return None if a < 0 else sym_slice(self.s, a, b)

    def group(self, *gs):
        if not gs:
            return self.one(0)
        return self.one(gs[0]) if len(gs) == 1 else tuple(self.one(g) for g in gs)

    __getitem__ = one

    def groups(self, default=None):
        r = tuple(self.one(g + 1) for g in range(self.re.groups))
        return tuple(default if v is None else v for v in r)

    def groupdict(self, default=None):
        from .values import PDict
        return PDict([(k, default if self.one(k) is None else self.one(k)) for k in self.re.groupindex])

    def span(self, g=0):
        return self.m.span(g)

    def start(self, g=0):
        return self.m.start(g)

    def end(self, g=0):
        return self.m.end(g)


class SomeMatch(object):
    """the text matches; where is not known"""

    def _no(self, *a):
        raise Unsupported("groups of a match of unknown text")
    group = groups = groupdict = span = start = end = __getitem__ = _no


# ------------------------------------------------------------------------------------------------ case 2
def z3class(av):
    neg = False
    alts = []
    for o, a in av:
        if o is C.NEGATE:
            neg = True
        elif o is C.LITERAL:
            alts.append(z3.Re(z3.StringVal(chr(a))))
        elif o is C.RANGE:
            alts.append(z3.Range(chr(a[0]), chr(a[1])))
        elif o is C.CATEGORY and a is C.CATEGORY_SPACE:
            alts += [z3.Re(z3.StringVal(c)) for c in " \t\n\r\x0b\x0c"]
        else:
            raise Unsupported("regular expression class %r" % (av,))
    r = alts[0] if len(alts) == 1 else z3.Union(*alts)
    if neg:
        r = z3.Intersect(z3.AllChar(z3.ReSort(z3.StringSort())), z3.Complement(r))
    return r


def eps():
    return z3.Re(z3.StringVal(""))


def z3re(items):
    """the language of a pattern (assertions only where `language` allows them)"""
    out = []
    for op, av in items:
        if op is C.LITERAL:
            out.append(z3.Re(z3.StringVal(chr(av))))
        elif op is C.NOT_LITERAL:
            out.append(z3class([(C.NEGATE, None), (C.LITERAL, av)]))
        elif op is C.IN:
            out.append(z3class(av))
        elif op is C.ANY:
            out.append(z3class([(C.NEGATE, None), (C.LITERAL, 10)]))
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = av
            r = z3re(sub)
            if hi == C.MAXREPEAT:
                out.append(z3.Star(r) if lo == 0 else z3.Plus(r) if lo == 1 else z3.Concat(z3.Loop(r, lo, lo), z3.Star(r)))
            else:
                out.append(z3.Loop(r, lo, hi) if hi else eps())
        elif op is C.SUBPATTERN:
            if av[1] or av[2]:
                raise Unsupported("flags inside a regular expression")
            out.append(z3re(av[3]))
        elif op is C.BRANCH:
            out.append(z3.Union(*[z3re(b) for b in av[1]]))
        else:
            raise Unsupported("regular expression with %s" % op)
    if not out:
        return eps()
    return out[0] if len(out) == 1 else z3.Concat(*out)


def trim(tree, op):
    """(items without the assertions at the ends, begins at the start?, how it ends)"""
    items = list(tree)
    begin = op in ("match", "fullmatch")
    end = "full" if op == "fullmatch" else "open"
    while items and items[0][0] is C.AT and items[0][1] in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
        begin = True
        items.pop(0)
    while items and items[-1][0] is C.AT and items[-1][1] in (C.AT_END, C.AT_END_STRING):
        if items[-1][1] is C.AT_END_STRING:
            end = "full"
        elif end == "open":
            end = "line"
        items.pop()
    return items, begin, end


def language(items, begin, end):
    r = z3re(items)
    full = z3.Full(z3.ReSort(z3.StringSort()))
    if end == "open":
        r = z3.Concat(r, full)
    elif end == "line":
        r = z3.Concat(r, z3.Union(eps(), z3.Re(z3.StringVal("\n"))))
    return r if begin else z3.Concat(full, r)


def shapes(items, limit=600):
    """finitely many shapes covering the language: tuples of literals and numbers of digits; None if there are too many"""
    res = [()]
    for op, av in items:
        if op is C.LITERAL:
            alts = [(chr(av),)]
        elif op is C.IN:
            alts = []
            digits = set()
            for o, a in av:
                cs = [chr(a)] if o is C.LITERAL else [chr(c) for c in range(a[0], a[1] + 1)] if o is C.RANGE and a[1] - a[
                    0] < 40 else None
                if cs is None:
                    return None
                digits |= set(cs) & DIGITS
                alts += [(c,) for c in cs if c not in DIGITS]
            if digits == DIGITS:
                alts.append((1,))
            elif digits:
                alts += [(c,) for c in sorted(digits)]
        elif op is C.MAX_REPEAT:
            lo, hi, sub = av
            if hi == C.MAXREPEAT or hi > 8:
                return None
            one = shapes(sub, limit)
            if one is None:
                return None
            alts, cur = [], [()]
            for k in range(hi + 1):
                if k >= lo:
                    alts += cur
                cur = [a + b for a in cur for b in one] if k < hi else []
                if len(cur) > limit:
                    return None
        elif op is C.SUBPATTERN:
            alts = shapes(av[3], limit)
        elif op is C.BRANCH:
            alts = []
            for b in av[1]:
                s = shapes(b, limit)
                if s is None:
                    return None
                alts += s
        else:
            return None
        if alts is None:
            return None
        res = [a + b for a in res for b in alts]
        if len(res) > limit:
            return None
    out = []
    for r in res:
        m = []
        for x in r:
            if m and isinstance(x, int) and isinstance(m[-1], int):
                m[-1] += x
            elif m and isinstance(x, str) and isinstance(m[-1], str):
                m[-1] += x
            else:
                m.append(x)
        if tuple(m) not in out:
            out.append(tuple(m))
    return out


def refinements():
    return eng().ghost.setdefault("rx_refined", [])


def refined(s):
    """what is known of the text s by earlier matches"""
    t = to_z3(s)
    for k, v in refinements():
        if k.eq(t):
            return v
    return s


def match(op, p, s, flags=0):
    s = refined(s)
    tree = P.parse(p, flags)
    r = representative(s)
    if r is not None and uniform(tree):
        m = getattr(re, op)(p, r, flags)
        return None if m is None else Match(s, m)
    if flags:
        raise Unsupported("flags of a regular expression on unknown text")
    items, begin, end = trim(tree, op)
    e = eng()
    t = to_z3(s)
    if not e.branch(z3.InRe(t, language(items, begin, end))):
        return None
    sh = shapes(items) if begin and end == "full" else None
    if not sh or not uniform(tree):
        return SomeMatch()
    shape = sh[e.choose(len(sh))]
    parts = []
    for k, x in enumerate(shape):
        if isinstance(x, str):
            parts.append(x)
        else:
            parts.append(Atom("digits", z3.String(e.fresh_name("digits")), cls="digits", exact_len=x))
    v = mk(parts)
    e.assume(t == to_z3(v))
    refinements().append((t, v))
    return match(op, p, v, flags)


def findall(p, s, flags=0):
    s = refined(s)
    r = representative(s)
    if r is None or not uniform(P.parse(p, flags)):
        raise Unsupported("findall in unknown text")
    out = []
    for m in re.finditer(p, r, flags):
        n = m.re.groups
        g = [sym_slice(s, *m.span(k)) if m.start(k) >= 0 else "" for k in range(n + 1)]
        out.append(g[0] if n == 0 else g[1] if n == 1 else tuple(g[1:]))
    return PList(out)


# ------------------------------------------------------------------------------------------------ case 3
def single(tree):
    """(the characters of a pattern that is one of a few characters, captured?) or None"""
    items = list(tree)
    cap = False
    if len(items) == 1 and items[0][0] is C.SUBPATTERN:
        cap = items[0][1][0] is not None
        items = list(items[0][1][3])
    if len(items) == 1 and items[0][0] is C.LITERAL:
        return [chr(items[0][1])], cap
    if len(items) == 1 and items[0][0] is C.IN and all(o is C.LITERAL for o, a in items[0][1]):
        return [chr(a) for o, a in items[0][1]], cap
    return None


def split(p, s, maxsplit=0, flags=0):
    s = refined(s)
    tree = P.parse(p, flags)
    r = representative(s)
    if r is not None and uniform(tree):
        out, pos = [], 0
        for k, m in enumerate(re.finditer(p, r, flags)):
            if maxsplit and k >= maxsplit:
                break
            if m.start() == m.end():
                raise Unsupported("split at an empty match")
            out.append(sym_slice(s, pos, m.start()))
            out += [sym_slice(s, *m.span(g)) if m.start(g) >= 0 else None for g in range(1, m.re.groups + 1)]
            pos = m.end()
        out.append(sym_slice(s, pos, len(r)))
        return PList(out)
    one = single(tree)
    if one is None or flags or maxsplit:
        raise Unsupported("split of unknown text at %r" % p)
    chars, cap = one
    e = eng()
    out, cur = [], []
    for x in parts_of(s):
        if isinstance(x, str):
            for c in x:
                if c in chars:
                    out.append(mk(cur))
                    if cap:
                        out.append(c)
                    cur = []
                else:
                    cur.append(c)
            continue
        if not all(excludes(x, c) for c in chars):
            if not isinstance(x, Atom):
                raise Unsupported("split of unknown text")
            t = part_z3(x)
            has = z3.Or(*[z3.Contains(t, z3.StringVal(c)) for c in chars])
            if e.branch(has):
                # at least one more piece (with its separator) than there would be without it
                n = z3.Int(e.fresh_name("rest"))
                e.add_fact(n >= 1)
                rest = Seg("rest", mkint((2 if cap else 1) * n), lambda i: bind(z3.String(e.fresh_name("piece")), "piece"))
                return PList(out + [bind(z3.String(e.fresh_name("first")), "first")] + [rest])
            y = Atom(x.name, x.t, x.excl | set(chars), x.nonempty, x.strip_ok, x.cls, x.exact_len)
            y.asserted = x.asserted
            x = y
        cur.append(x)
    return PList(out + [mk(cur)])
