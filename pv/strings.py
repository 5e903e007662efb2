# -*- coding: utf-8 -*-
"""Symbolic strings: a sequence of parts (literal text, numerals, atoms) with a z3 String fallback."""
import z3

from .engine import eng, Unsupported
from .values import (Sym, SymInt, SymReal, SymBool, SymEnum, Opaque, mkbool, mkint, iterm, not_, and_, or_, fresh_int,
                     PList, val_eq, truth)


class Atom(object):
    """an unknown string.  cls "blank": nothing but whitespace, possibly empty.  excl: characters it is known not to contain; nonempty; nospace: no whitespace anywhere
    at its ends; tag: identity of opaque atoms (str() of some object)"""
    __slots__ = ("name", "t", "excl", "nonempty", "strip_ok", "cls", "asserted", "minlen", "exact_len")

    def __init__(self, name, t, excl="", nonempty=False, strip_ok=False, cls=None, exact_len=None):
        self.name = name
        self.t = t
        self.excl = frozenset(excl)
        self.nonempty = nonempty
        self.strip_ok = strip_ok
        self.cls = cls              # "digits" | "ident" | None
        self.asserted = False
        self.exact_len = exact_len

    def __repr__(self):
        return "<%s>" % self.name


class Num(object):
    """decimal numeral of n >= 0, zero-padded to width (width 0: no padding)"""
    __slots__ = ("n", "width")

    def __init__(self, n, width=0):
        self.n = n
        self.width = width

    def __repr__(self):
        return "<%s:%d>" % (self.n, self.width)


class Fun(object):
    """opaque text computed from an object: equal keys <=> equal text (injective rendering is NOT assumed)"""
    __slots__ = ("key", "args", "excl", "nonempty")

    def __init__(self, key, args, excl="", nonempty=True):
        self.key = key
        self.args = args            # tuple of values
        self.excl = frozenset(excl)
        self.nonempty = nonempty

    def __repr__(self):
        return "<%s%r>" % (self.key, self.args)


WS = " \t\r\n\x0b\x0c"


def mk(parts):
    """normalise: merge literals, drop empties; native str when possible"""
    out = []
    for p in parts:
        if isinstance(p, SymStr):
            for q in p.parts:
                _add(out, q)
        else:
            _add(out, p)
    if not out:
        return ""
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return SymStr(tuple(out))


def _add(out, p):
    if isinstance(p, str):
        if not p:
            return
        if out and isinstance(out[-1], str):
            out[-1] = out[-1] + p
            return
    elif isinstance(p, Num):
        n = p.n
        if isinstance(n, int):
            _add(out, str(n).rjust(p.width, "0"))
            return
    out.append(p)


def parts_of(s):
    if isinstance(s, SymStr):
        return s.parts
    if isinstance(s, str):
        return (s,) if s else ()
    if isinstance(s, SymEnum):
        raise Unsupported("enum used as string")
    raise Unsupported("string expected: %r" % (s,))


def num_z3(n, width):
    t = iterm(n)
    if width == 0:
        return z3.IntToStr(t)
    digs = []
    for k in range(width - 1, -1, -1):
        digs.append(z3.StrFromCode(48 + (t / (10 ** k)) % 10))
    return digs[0] if len(digs) == 1 else z3.Concat(*digs)


def part_z3(p):
    if isinstance(p, str):
        return z3.StringVal(p)
    if isinstance(p, Num):
        return num_z3(p.n, p.width)
    if isinstance(p, Atom):
        e = eng()
        if not p.asserted or p.asserted is not e.solver:
            p.asserted = e.solver
            for c in sorted(p.excl):
                e.add_fact(z3.Not(z3.Contains(p.t, z3.StringVal(c))))
            if p.nonempty:
                e.add_fact(z3.Length(p.t) > 0)
            if p.cls == "digits":
                e.add_fact(z3.InRe(p.t, z3.Plus(z3.Range("0", "9"))))
            if p.exact_len is not None:
                e.add_fact(z3.Length(p.t) == p.exact_len)
        return p.t
    if isinstance(p, Fun):
        e = eng()
        key = ("funstr", p.key) + tuple(_argkey(a) for a in p.args)
        tab = e.ghost.setdefault("funstr", {})
        if key not in tab:
            t = z3.String(e.fresh_name("fun_" + str(p.key)))
            for c in sorted(p.excl):
                e.add_fact(z3.Not(z3.Contains(t, z3.StringVal(c))))
            if p.nonempty:
                e.add_fact(z3.Length(t) > 0)
            tab[key] = (t, p.args)
        return tab[key][0]
    raise Unsupported("part %r" % (p,))


def _argkey(a):
    t = getattr(a, "t", None)
    if t is not None:
        return ("z", t.get_id())
    if isinstance(a, SymStr):
        return ("s", tuple(_argkey(p) if not isinstance(p, str) else p for p in a.parts))
    if isinstance(a, Num):
        return ("n", _argkey(a.n), a.width)
    if isinstance(a, Fun):
        return ("f", a.key) + tuple(_argkey(x) for x in a.args)
    if isinstance(a, (str, int, float, bool, type(None))):
        return ("c", type(a).__name__, a)
    return ("id", id(a))


def to_z3(s):
    if isinstance(s, str):
        return z3.StringVal(s)
    ps = [part_z3(p) for p in s.parts]
    return ps[0] if len(ps) == 1 else z3.Concat(*ps)


def same_part(a, b):
    """True / False (definitely different text) / None (unknown) / SymBool"""
    if a is b:
        return True
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, Num) and isinstance(b, Num) and a.width == b.width:
        return mkbool(iterm(a.n) == iterm(b.n))
    if isinstance(a, Atom) and isinstance(b, Atom):
        if a.t.eq(b.t):
            return True
        return None
    if isinstance(a, Fun) and isinstance(b, Fun):
        if a.key == b.key and len(a.args) == len(b.args):
            if all(_argkey(x) == _argkey(y) for x, y in zip(a.args, b.args)):
                return True
        return None
    return None


def max_width(p):
    return None


def excludes(p, c):
    """True if the part certainly does not contain character c"""
    if isinstance(p, str):
        return c not in p
    if isinstance(p, Num):
        return not c.isdigit()
    if isinstance(p, Atom):
        if p.cls == "digits" and not c.isdigit():
            return True
        if p.cls == "blank" and c not in WS:
            return True
        return c in p.excl
    if isinstance(p, Fun):
        return c in p.excl
    return False


def nonempty(p):
    if isinstance(p, str):
        return len(p) > 0
    if isinstance(p, Num):
        return True
    if isinstance(p, Atom):
        return p.nonempty or p.cls == "digits" or bool(p.exact_len)
    if isinstance(p, Fun):
        return p.nonempty
    return False


def plen(p):
    """length if fixed else None"""
    if isinstance(p, str):
        return len(p)
    if isinstance(p, Num) and p.width:
        return p.width
    if isinstance(p, Atom) and p.exact_len is not None:
        return p.exact_len
    return None


class SymStr(Sym):
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = tuple(parts)

    __hash__ = Sym.__hash__

    def __repr__(self):
        return "SymStr(%s)" % "".join(repr(p) if not isinstance(p, str) else repr(p) for p in self.parts)

    def __bool__(self):
        if any(nonempty(p) for p in self.parts):
            return True
        return eng().branch(z3.Length(to_z3(self)) > 0)

    def __add__(self, o):
        if isinstance(o, (str, SymStr)):
            return mk([self, o])
        raise TypeError("can only concatenate str (not %r) to str" % type(o).__name__)

    def __radd__(self, o):
        if isinstance(o, (str, SymStr)):
            return mk([o, self])
        raise TypeError("can only concatenate str (not %r) to str" % type(o).__name__)

    def __mul__(self, o):
        raise Unsupported("repetition of a symbolic string")
    __rmul__ = __mul__

    def __mod__(self, o):
        raise Unsupported("% on a symbolic format string")

    def __eq__(self, o):
        if isinstance(o, (str, SymStr)):
            return str_eq(self, o)
        return False

    def __ne__(self, o):
        return not_(self == o)

    def _ord(self, o, op):
        raise Unsupported("ordering of symbolic strings")

    def __lt__(self, o):
        raise Unsupported("ordering of symbolic strings")
    __gt__ = __le__ = __ge__ = __lt__


def str_eq(a, b):
    pa, pb = list(parts_of(a)), list(parts_of(b))
    conds = []
    # strip from the left, then from the right
    for side in (0, -1):
        while pa and pb:
            x, y = pa[side], pb[side]
            if isinstance(x, str) and isinstance(y, str):
                n = min(len(x), len(y))
                if side == 0:
                    if x[:n] != y[:n]:
                        return False
                    pa[0], pb[0] = x[n:], y[n:]
                else:
                    if x[-n:] != y[-n:]:
                        return False
                    pa[-1], pb[-1] = x[:-n], y[:-n]
                if not pa[side]:
                    pa.pop(side)
                if not pb[side]:
                    pb.pop(side)
                continue
            r = same_part(x, y)
            if r is True:
                pa.pop(side)
                pb.pop(side)
                continue
            # fixed-width numerals line up
            if isinstance(x, Num) and isinstance(y, Num) and x.width == y.width and x.width and _fits(x) and _fits(y):
                conds.append(r)
                pa.pop(side)
                pb.pop(side)
                continue
            # numerals delimited by a character that is no digit
            if isinstance(x, Num) and isinstance(y, Num) and not x.width and not y.width and \
                    _delimited(pa, side) and _delimited(pb, side):
                conds.append(r)
                pa.pop(side)
                pb.pop(side)
                continue
            # numeral against literal digits
            if isinstance(x, Num) and isinstance(y, str) or isinstance(y, Num) and isinstance(x, str):
                num, lit = (x, y) if isinstance(x, Num) else (y, x)
                if num.width and _fits(num):
                    if len(lit) < num.width:
                        if not lit.isdigit() and not _digit_run(lit, side):
                            return False
                        break
                    piece = lit[:num.width] if side == 0 else lit[-num.width:]
                    if not (piece.isascii() and piece.isdigit()):
                        return False
                    conds.append(mkbool(iterm(num.n) == int(piece)))
                    rest = lit[num.width:] if side == 0 else lit[:-num.width]
                    if isinstance(x, Num):
                        pa.pop(side)
                        pb[side] = rest
                        if not rest:
                            pb.pop(side)
                    else:
                        pb.pop(side)
                        pa[side] = rest
                        if not rest:
                            pa.pop(side)
                    continue
            break
    if not pa and not pb:
        return and_(*conds)
    if not pa or not pb:
        rest = pa or pb
        if any(nonempty(p) for p in rest):
            return False
        return and_(and_(*conds), mkbool(z3.Length(to_z3(SymStr(rest))) == 0))
    # same single parts
    if len(pa) == 1 and len(pb) == 1:
        r = same_part(pa[0], pb[0])
        if r is not None:
            return and_(and_(*conds), r)
        r = differs(pa[0], pb[0])
        if r:
            return False
    # split at literal separators both sides exclude
    sep = split_align(pa, pb)
    if sep is not None:
        return and_(and_(*conds), sep)
    return and_(and_(*conds), mkbool(to_z3(SymStr(pa)) == to_z3(SymStr(pb))))


def _delimited(parts, side):
    if len(parts) == 1:
        return True
    n = parts[1 if side == 0 else -2]
    return isinstance(n, str) and not n[0 if side == 0 else -1].isdigit()


def _digit_run(lit, side):
    return (lit[0] if side == 0 else lit[-1]).isdigit()


def _fits(num):
    """0 <= n < 10**width is known (numerals are only built that way)"""
    return True


def differs(x, y):
    if isinstance(x, str) or isinstance(y, str):
        lit, p = (x, y) if isinstance(x, str) else (y, x)
        if any(excludes(p, c) for c in lit):
            return True
        n = plen(p)
        if n is not None and n != len(lit):
            return True
    return False


def split_align(pa, pb):
    """if some character occurs only in literals on both sides, compare the pieces"""
    chars = set()
    for p in pa + pb:
        if isinstance(p, str):
            chars |= set(p)
    for c in sorted(chars):
        if all(isinstance(p, str) or excludes(p, c) for p in pa + pb):
            sa, sb = _split_lit(pa, c), _split_lit(pb, c)
            if len(sa) != len(sb):
                return False
            if len(sa) == 1:
                continue
            return and_(*[val_eq(x, y) for x, y in zip(sa, sb)])
    return None


def _split_lit(parts, sep, maxsplit=-1):
    out = [[]]
    for p in parts:
        if isinstance(p, str):
            while True:
                k = p.find(sep)
                if k < 0 or (maxsplit >= 0 and len(out) > maxsplit):
                    break
                out[-1].append(p[:k])
                out.append([])
                p = p[k + len(sep):]
            out[-1].append(p)
        else:
            out[-1].append(p)
    return [mk(x) for x in out]


def enum_str(vals, i):
    """string that is vals[i]"""
    t = z3.StringVal(vals[-1])
    for k in range(len(vals) - 2, -1, -1):
        t = z3.If(i == k, z3.StringVal(vals[k]), t)
    t = z3.simplify(t)
    if z3.is_string_value(t):
        from .engine import z3str
        return z3str(t)
    return SymStr((EnumAtom(vals, i, t),))


class EnumAtom(Atom):
    """text known to be one of a few literals"""
    __slots__ = ("vals", "i")

    def __init__(self, vals, i, t):
        Atom.__init__(self, "enum", t, nonempty=all(vals))
        self.vals = vals
        self.i = i
        ex = set(map(chr, range(32, 127))) | set(WS)
        for v in vals:
            ex -= set(v)
        self.excl = frozenset(ex)
        self.strip_ok = all(v == v.strip() for v in vals)

    def eq_lit(self, s):
        return or_(*[mkbool(self.i == k) for k, v in enumerate(self.vals) if v == s])


def concretize(s):
    """fork an EnumAtom string into its literal values"""
    if isinstance(s, SymStr) and any(isinstance(p, EnumAtom) for p in s.parts):
        out = []
        for p in s.parts:
            if isinstance(p, EnumAtom):
                for k, v in enumerate(p.vals[:-1]):
                    if eng().branch(p.i == k):
                        out.append(v)
                        break
                else:
                    out.append(p.vals[-1])
            else:
                out.append(p)
        return mk(out)
    return s


_old_str_eq = str_eq


def str_eq(a, b):       # noqa: F811  (enumerated text compares without the string solver)
    for x, y in ((a, b), (b, a)):
        if isinstance(x, SymStr) and len(x.parts) == 1 and isinstance(x.parts[0], EnumAtom):
            p = x.parts[0]
            if isinstance(y, str):
                return p.eq_lit(y)
            if isinstance(y, SymStr) and len(y.parts) == 1 and isinstance(y.parts[0], EnumAtom):
                q = y.parts[0]
                return or_(*[and_(p.eq_lit(v), q.eq_lit(v)) for v in set(p.vals) & set(q.vals)])
        if isinstance(x, SymStr) and len(x.parts) == 1 and isinstance(x.parts[0], Atom) and x.parts[0].cls == "notnum":
            if isinstance(y, str) and y.isascii() and y.isdigit():
                return False        # no number
    return _old_str_eq(a, b)


def fresh_str(name, excl="", nonempty=False, strip_ok=False, cls=None, exact_len=None):
    e = eng()
    n = e.fresh_name(name)
    t = z3.String(n)
    e.inputs[n] = t
    return SymStr((Atom(n, t, excl, nonempty, strip_ok, cls, exact_len),))


def str_of_term(name, t):
    return SymStr((Atom(name, t),))


_str_funs = {}


def str_fun(name, *args, **kw):
    """string-valued uninterpreted function of integer arguments"""
    f = _str_funs.get((name, len(args)))
    if f is None:
        f = _str_funs[(name, len(args))] = z3.Function(name, *([z3.IntSort()] * len(args) + [z3.StringSort()]))
    t = f(*[iterm(a) for a in args])
    return SymStr((Atom("%s(%s)" % (name, ",".join(str(a) for a in args)), t, kw.get("excl", ""),
                        kw.get("nonempty", False), kw.get("strip_ok", False), kw.get("cls"),
                        kw.get("exact_len")),))


def num(n, width=0):
    return mk([Num(n, width)])


# ------------------------------------------------------------------------------------------------ methods
def sym_split(s, sep, maxsplit=-1):
    if sep is None:
        raise Unsupported("split on whitespace of a symbolic string")
    if not isinstance(sep, str):
        raise Unsupported("symbolic separator")
    parts = s.parts
    if len(sep) == 1:
        seen = 0
        for p in parts:
            if isinstance(p, str):
                seen += p.count(sep)
            elif not excludes(p, sep) and not (maxsplit >= 0 and seen >= maxsplit):
                return PList(_split_z3(s, sep, maxsplit))
        return PList(_split_lit(parts, sep, maxsplit))
    raise Unsupported("split(%r) of a symbolic string" % sep)


def _split_z3(s, sep, maxsplit):
    """split of unknown text: only the number of separators up to two is resolved"""
    e = eng()
    t = to_z3(s)
    if not e.branch(z3.Contains(t, z3.StringVal(sep))):
        return [s]
    k = z3.IndexOf(t, z3.StringVal(sep), z3.IntVal(0))
    a = z3.SubString(t, z3.IntVal(0), k)
    b = z3.SubString(t, k + len(sep), z3.Length(t) - k - len(sep))
    left = bind(a, "left", excl=sep)
    if maxsplit == 1:
        return [left, bind(b, "right")]
    if not e.branch(z3.Contains(b, z3.StringVal(sep))):
        return [left, bind(b, "right", excl=sep)]
    if maxsplit >= 0:
        raise Unsupported("split of unknown text into more than two pieces")
    # two or more separators in b: a number of pieces fixed by the text, none of which contains the separator (what they add up
    # to is not used)
    from .values import Seg
    b = z3.simplify(b)
    n = z3.Function("pieces_%s" % sep, z3.StringSort(), z3.IntSort())(b)
    e.add_fact(n >= 2)
    piece = z3.Function("piece_%s" % sep, z3.StringSort(), z3.IntSort(), z3.StringSort())
    return [left, Seg("pieces", mkint(n), lambda i: SymStr((Atom("piece", piece(b, iterm(i)), sep),)))]


def bind(t, name, excl=""):
    e = eng()
    t = z3.simplify(t)
    if z3.is_string_value(t):
        from .engine import z3str
        return z3str(t)
    v = z3.String(e.fresh_name("s_" + name))
    e.add_fact(v == t)
    a = Atom(str(v), v, excl)
    a.asserted = e.solver       # facts follow from the definition
    return SymStr((a,))


def sym_strip(s, chars=None, left=True, right=True):
    if chars is not None and not isinstance(chars, str):
        raise Unsupported("symbolic strip characters")
    cs = WS if chars is None else chars
    parts = list(s.parts)

    def safe(p):
        if isinstance(p, Num):
            return not any(c.isdigit() for c in cs)
        if chars is None and isinstance(p, Atom) and (p.strip_ok or p.cls == "digits"):
            return nonempty(p)
        return nonempty(p) and all(excludes(p, c) for c in cs)
    if left:
        while parts:
            p = parts[0]
            if chars is None and isinstance(p, Atom) and p.cls == "blank":
                parts.pop(0)
                continue
            if isinstance(p, str):
                q = p.lstrip(chars)
                if q:
                    parts[0] = q
                    break
                parts.pop(0)
                continue
            if safe(p):
                break
            if isinstance(p, Atom) and (p.strip_ok and chars is None) and len(parts) == 1:
                break
            if not nonempty(p) and (all(excludes(p, c) for c in cs) or (
                    chars is None and isinstance(p, Atom) and p.strip_ok)):
                # possibly empty: decide
                if eng().branch(z3.Length(part_z3(p)) > 0):
                    break
                parts.pop(0)
                continue
            raise Unsupported("strip of unknown text %r" % (s,))
    if right:
        while parts:
            p = parts[-1]
            if chars is None and isinstance(p, Atom) and p.cls == "blank":
                parts.pop(-1)
                continue
            if isinstance(p, str):
                q = p.rstrip(chars)
                if q:
                    parts[-1] = q
                    break
                parts.pop()
                continue
            if safe(p):
                break
            if isinstance(p, Atom) and (p.strip_ok and chars is None) and len(parts) == 1:
                break
            if not nonempty(p) and (all(excludes(p, c) for c in cs) or (
                    chars is None and isinstance(p, Atom) and p.strip_ok)):
                if eng().branch(z3.Length(part_z3(p)) > 0):
                    break
                parts.pop()
                continue
            raise Unsupported("strip of unknown text %r" % (s,))
    return mk(parts)


def sym_startswith(s, pre):
    if isinstance(pre, tuple):
        return or_(*[sym_startswith(s, p) for p in pre])
    if not isinstance(pre, str):
        raise Unsupported("startswith(symbolic)")
    if not pre:
        return True
    parts = parts_of(s)
    rest = pre
    conds = []
    for p in parts:
        if not rest:
            return and_(*conds)
        if isinstance(p, str):
            n = min(len(p), len(rest))
            if p[:n] != rest[:n]:
                return False
            rest = rest[n:]
            continue
        if isinstance(p, Num) and p.width:
            n = min(p.width, len(rest))
            piece = rest[:n]
            if not (piece.isascii() and piece.isdigit()):
                return False
            conds.append(mkbool(iterm(p.n) / (10 ** (p.width - n)) == int(piece)))
            rest = rest[n:]
            continue
        if nonempty(p) and excludes(p, rest[0]):
            return False
        return mkbool(z3.PrefixOf(z3.StringVal(pre), to_z3(s)))
    return and_(*conds) if not rest else False


def sym_endswith(s, suf):
    if isinstance(suf, tuple):
        return or_(*[sym_endswith(s, p) for p in suf])
    if not isinstance(suf, str):
        raise Unsupported("endswith(symbolic)")
    if not suf:
        return True
    rest = suf
    conds = []
    for p in reversed(parts_of(s)):
        if not rest:
            return and_(*conds)
        if isinstance(p, str):
            n = min(len(p), len(rest))
            if p[-n:] != rest[-n:]:
                return False
            rest = rest[:-n]
            continue
        if isinstance(p, Num) and p.width:
            n = min(p.width, len(rest))
            piece = rest[-n:]
            if not (piece.isascii() and piece.isdigit()):
                return False
            conds.append(mkbool(iterm(p.n) % (10 ** n) == int(piece)))
            rest = rest[:-n]
            continue
        if nonempty(p) and excludes(p, rest[-1]):
            return False
        return mkbool(z3.SuffixOf(z3.StringVal(suf), to_z3(s)))
    return and_(*conds) if not rest else False


def sym_contains(s, sub):
    """sub in s"""
    if isinstance(sub, SymStr):
        if isinstance(s, str) and len(sub.parts) == 1 and isinstance(sub.parts[0], EnumAtom):
            p = sub.parts[0]
            return or_(*[mkbool(p.i == k) for k, v in enumerate(p.vals) if v in s])
        return mkbool(z3.Contains(to_z3(s), to_z3(sub)))
    if not isinstance(sub, str):
        raise TypeError("'in <string>' requires string as left operand")
    if not sub:
        return True
    parts = parts_of(s)
    if any(isinstance(p, str) and sub in p for p in parts):
        return True
    if len(sub) == 1 and all(excludes(p, sub) for p in parts):
        return False
    if len(sub) > 1 and not any(isinstance(p, str) and p for p in parts) and \
            any(all(excludes(p, c) for p in parts) for c in sub):
        return False
    if any(all(excludes(p, c) for p in parts) for c in sub):
        return False
    return mkbool(z3.Contains(to_z3(s), z3.StringVal(sub)))


def sym_slice(s, lo, hi):
    """s[lo:hi] for native lo/hi"""
    parts = list(parts_of(s))
    lens = [plen(p) for p in parts]
    if all(n is not None for n in lens):
        total = sum(lens)
        lo2, hi2, _ = slice(lo, hi).indices(total)
        return _cut(parts, lens, lo2, hi2)
    if lo is not None and not isinstance(lo, int) or hi is not None and not isinstance(hi, int):
        t = to_z3(s)
        n = z3.Length(t)

        def norm(v, d):
            if v is None:
                return d
            vt = iterm(v)
            vt = z3.If(vt < 0, z3.If(n + vt < 0, z3.IntVal(0), n + vt), z3.If(vt > n, n, vt))
            return vt
        a, b = norm(lo, z3.IntVal(0)), norm(hi, n)
        return bind(z3.If(b > a, z3.SubString(t, a, b - a), z3.StringVal("")), "slice")
    # structural: prefix/suffix of known length
    if (lo is None or lo == 0) and hi is not None and hi < 0:
        r = _drop_tail(parts, -hi)
        if r is not None:
            return r
    if hi is None and lo is not None and lo < 0:
        r = _take_tail(parts, -lo)
        if r is not None:
            return r
    if hi is None and lo is not None and lo >= 0:
        r = _drop_head(parts, lo)
        if r is not None:
            return r
    if (lo is None or lo == 0) and hi is not None and hi >= 0:
        r = _take_head(parts, hi)
        if r is not None:
            return r
    t = to_z3(s)
    n = z3.Length(t)

    def norm(v, d):
        if v is None:
            return d
        if v < 0:
            return z3.If(n + v < 0, z3.IntVal(0), n + v)
        return z3.If(z3.IntVal(v) > n, n, z3.IntVal(v))
    a, b = norm(lo, z3.IntVal(0)), norm(hi, n)
    return bind(z3.If(b > a, z3.SubString(t, a, b - a), z3.StringVal("")), "slice")


def _cut(parts, lens, lo, hi):
    out = []
    pos = 0
    for p, n in zip(parts, lens):
        a, b = max(lo - pos, 0), min(hi - pos, n)
        if a < b:
            if a == 0 and b == n:
                out.append(p)
            elif isinstance(p, str):
                out.append(p[a:b])
            elif isinstance(p, Num):
                out.append(Num(mkint((iterm(p.n) / (10 ** (n - b))) % (10 ** (b - a))), b - a))
            else:
                t = z3.SubString(part_z3(p), z3.IntVal(a), z3.IntVal(b - a))
                at = Atom("%s[%d:%d]" % (p.name if isinstance(p, Atom) else "fun", a, b), t, p.excl, True,
                          cls=getattr(p, "cls", None), exact_len=b - a)
                at.asserted = False
                out.append(at)
        pos += n
    return mk(out)


def _drop_tail(parts, k):
    parts = list(parts)
    while k and parts:
        n = plen(parts[-1])
        if n is None:
            return None
        if n <= k:
            parts.pop()
            k -= n
            continue
        parts[-1:] = list(parts_of(_cut([parts[-1]], [n], 0, n - k)))
        k = 0
    return mk(parts)


def _take_tail(parts, k):
    out = []
    for p in reversed(parts):
        if k == 0:
            break
        n = plen(p)
        if n is None:
            return None
        if n <= k:
            out.insert(0, p)
            k -= n
        else:
            out.insert(0, _cut([p], [n], n - k, n))
            k = 0
    return mk(out)


def _drop_head(parts, k):
    parts = list(parts)
    while k and parts:
        n = plen(parts[0])
        if n is None:
            return None
        if n <= k:
            parts.pop(0)
            k -= n
            continue
        parts[0:1] = list(parts_of(_cut([parts[0]], [n], k, n)))
        k = 0
    return mk(parts)


def _take_head(parts, k):
    out = []
    for p in parts:
        if k == 0:
            break
        n = plen(p)
        if n is None:
            return None
        if n <= k:
            out.append(p)
            k -= n
        else:
            out.append(_cut([p], [n], 0, k))
            k = 0
    return mk(out)


def sym_len(s):
    lens = [plen(p) for p in s.parts]
    if all(n is not None for n in lens):
        return sum(lens)
    return mkint(z3.Length(to_z3(s)))


def sym_replace(s, old, new, count=-1):
    if not isinstance(old, str):
        raise Unsupported("replace of symbolic text")
    parts = s.parts
    for p in parts:
        if not isinstance(p, str) and not any(excludes(p, c) for c in old):
            raise Unsupported("replace in unknown text")
    # occurrences can still span a part boundary only if every char is possible there; the chars of old excluded
    # from a symbolic part cannot be matched inside it, so a spanning match is impossible when the boundary chars are
    for i, p in enumerate(parts):
        if not isinstance(p, str) and not all(excludes(p, c) for c in old):
            raise Unsupported("replace near unknown text")
    out = []
    for p in parts:
        out.append(p.replace(old, new) if isinstance(p, str) else p)
        if count >= 0:
            raise Unsupported("replace with count")
    return mk(out)


def sym_isdigit(s):
    conds = []
    for p in s.parts:
        if isinstance(p, str):
            if not p.isdigit():
                return False
        elif isinstance(p, Num):
            continue
        elif isinstance(p, Atom) and p.cls == "digits":
            continue
        else:
            if isinstance(p, Atom) and not nonempty(p) and len(s.parts) > 1:
                raise Unsupported("isdigit of composite unknown text")
            eng().assumed.add("str.isdigit is modelled on ASCII digits for unknown text")
            conds.append(mkbool(z3.InRe(part_z3(p), z3.Plus(z3.Range("0", "9")))))
    return and_(*conds)


def sym_int(s):
    """int(text)"""
    s2 = sym_strip_soft(s)
    if isinstance(s2, str):
        return int(s2)
    parts = s2.parts
    if len(parts) == 1 and isinstance(parts[0], Num):
        return parts[0].n
    if all(isinstance(p, Num) and p.width or isinstance(p, str) and p.isdigit() for p in parts):
        v = 0
        for p in parts:
            if isinstance(p, str):
                v = v * (10 ** len(p)) + int(p)
            else:
                v = v * (10 ** p.width) + p.n
        return v
    if len(parts) == 1 and isinstance(parts[0], Atom):
        p = parts[0]
        if p.cls == "digits":
            t = z3.StrToInt(part_z3(p))
            return mkint(t)
        if p.cls == "notnum":
            raise ValueError("invalid literal for int() with base 10")
    if any(isinstance(p, str) and not p.isdigit() for p in parts):
        raise ValueError("invalid literal for int() with base 10")
    if len(parts) == 1 and isinstance(parts[0], Atom):
        e = eng()
        if e.branch(z3.InRe(part_z3(parts[0]), z3.Plus(z3.Range("0", "9")))):
            return mkint(z3.StrToInt(part_z3(parts[0])))
        raise Unsupported("int() of unknown text")
    raise Unsupported("int() of %r" % (s,))


def sym_strip_soft(s):
    try:
        return sym_strip(s)
    except Unsupported:
        return s


STR_METHODS = {}


def method(name):
    def deco(f):
        STR_METHODS[name] = f
        return f
    return deco


@method("split")
def _m_split(s, sep=None, maxsplit=-1):
    return sym_split(s, sep, maxsplit)


@method("partition")
def _m_partition(s, sep):
    r = sym_split(s, sep, 1)
    if len(r.parts) == 1:
        return (r.parts[0], "", "")
    return (r.parts[0], sep, r.parts[1])


def _split_last(s, sep):
    """the pieces before and after the last separator"""
    r = sym_split(s, sep)
    if not any(type(p).__name__ == "Seg" for p in r.parts):
        return r
    t = to_z3(s)
    e = eng()       # (z3 itself decides last_indexof wrongly)
    left, right = z3.String(e.fresh_name("s_left")), z3.String(e.fresh_name("s_right"))
    e.add_fact(t == z3.Concat(left, z3.StringVal(sep), right))
    e.add_fact(z3.Not(z3.Contains(right, z3.StringVal(sep))))
    return PList([SymStr((Atom(str(left), left),)), SymStr((Atom(str(right), right, sep),))])


@method("rpartition")
def _m_rpartition(s, sep):
    r = _split_last(s, sep)
    if len(r.parts) == 1:
        return ("", "", r.parts[0])
    return (join(sep, r.parts[:-1]), sep, r.parts[-1])


@method("rsplit")
def _m_rsplit(s, sep=None, maxsplit=-1):
    if maxsplit == 1:
        r = _split_last(s, sep)
        return r if len(r.parts) <= 2 else PList([join(sep, r.parts[:-1]), r.parts[-1]])
    r = sym_split(s, sep)
    if maxsplit >= 0 and any(type(p).__name__ == "Seg" for p in r.parts):
        raise Unsupported("rsplit of unknown text")
    if maxsplit < 0 or len(r.parts) <= maxsplit + 1:
        return r
    return PList([join(sep, r.parts[:-maxsplit])] + r.parts[-maxsplit:])


@method("strip")
def _m_strip(s, chars=None):
    return sym_strip(s, chars)


@method("lstrip")
def _m_lstrip(s, chars=None):
    return sym_strip(s, chars, right=False)


@method("rstrip")
def _m_rstrip(s, chars=None):
    return sym_strip(s, chars, left=False)


@method("startswith")
def _m_startswith(s, pre, *a):
    if a:
        raise Unsupported("startswith with offsets")
    return sym_startswith(s, pre)


@method("endswith")
def _m_endswith(s, suf, *a):
    if a:
        raise Unsupported("endswith with offsets")
    return sym_endswith(s, suf)


@method("replace")
def _m_replace(s, old, new, count=-1):
    return sym_replace(s, old, new, count)


@method("removeprefix")
def _m_removeprefix(s, pre):
    if truth(sym_startswith(s, pre)):
        return sym_slice(s, len(pre), None)
    return s


@method("removesuffix")
def _m_removesuffix(s, suf):
    if suf and truth(sym_endswith(s, suf)):
        return sym_slice(s, None, -len(suf))
    return s


@method("isdigit")
def _m_isdigit(s):
    return sym_isdigit(s)


@method("isnumeric")
def _m_isnumeric(s):
    return sym_isdigit(s)


@method("isdecimal")
def _m_isdecimal(s):
    return sym_isdigit(s)


@method("join")
def _m_join(s, xs):
    return join(s, xs)


@method("encode")
def _m_encode(s, *a, **k):
    return SymBytes(s)


@method("find")
def _m_find(s, sub, *a):
    if a or not isinstance(sub, str):
        raise Unsupported("find")
    pos = 0
    for p in s.parts:
        if isinstance(p, str):
            k = p.find(sub)
            if k >= 0:
                return mkint(iterm(pos) + k) if not isinstance(pos, int) else pos + k
        elif not (len(sub) == 1 and excludes(p, sub)):
            return mkint(z3.IndexOf(to_z3(s), z3.StringVal(sub), z3.IntVal(0)))
        n = plen(p)
        pos = pos + (n if n is not None else mkint(z3.Length(part_z3(p))))
    return -1


@method("index")
def _m_index(s, sub, *a):
    r = _m_find(s, sub, *a)
    if truth(r == -1):
        raise ValueError("substring not found")
    return r


@method("count")
def _m_count(s, sub):
    if isinstance(sub, str) and len(sub) == 1 and all(isinstance(p, str) or excludes(p, sub) for p in s.parts):
        return sum(p.count(sub) for p in s.parts if isinstance(p, str))
    raise Unsupported("count in unknown text")


@method("format")
def _m_format(s, *a, **k):
    raise Unsupported("format on symbolic text")


@method("lower")
def _m_lower(s):
    if all(isinstance(p, (str, Num)) for p in s.parts):
        return mk([p.lower() if isinstance(p, str) else p for p in s.parts])
    return SymStr((Fun("lower", (s,), nonempty=bool(any(nonempty(p) for p in s.parts))),))


@method("upper")
def _m_upper(s):
    if all(isinstance(p, (str, Num)) for p in s.parts):
        return mk([p.upper() if isinstance(p, str) else p for p in s.parts])
    return SymStr((Fun("upper", (s,), nonempty=bool(any(nonempty(p) for p in s.parts))),))


@method("center")
def _m_center(s, *a):
    return SymStr((Fun("center", (s,)),))


@method("zfill")
def _m_zfill(s, w):
    if len(s.parts) == 1 and isinstance(s.parts[0], Num) and s.parts[0].width == 0:
        n = s.parts[0].n
        if truth(mkbool(iterm(n) < 10 ** w)):
            return mk([Num(n, w)])
    raise Unsupported("zfill")


def join(sep, xs):
    from .values import seq_parts, Seg
    xs = seq_parts(xs)
    if any(isinstance(x, Seg) for x in xs):
        raise Unsupported("join over a list of unknown length")
    out = []
    for k, x in enumerate(xs):
        if not isinstance(x, (str, SymStr)):
            raise TypeError("sequence item %d: expected str instance, %s found" % (k, type(x).__name__))
        if k:
            out.append(sep)
        out.append(x)
    return mk(out)


class SymBytes(Sym):
    """encoded text (round trips through decode with the same codec: assumed)"""
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def __bool__(self):
        return bool(self.s)

    def __eq__(self, o):
        if isinstance(o, bytes):
            try:
                return val_eq(self.s, o.decode("utf-8"))
            except UnicodeDecodeError:
                return False
        if isinstance(o, SymBytes):
            return val_eq(self.s, o.s)
        return False

    def __ne__(self, o):
        return not_(self == o)

    __hash__ = Sym.__hash__


# ------------------------------------------------------------------------------------------------ formatting
def fmt(v, conv=-1, spec=""):
    """text of format(v, spec)"""
    from .dt import SymDT, SymDate, SymTime
    if isinstance(spec, SymStr):
        raise Unsupported("symbolic format spec")
    if conv == 114:     # !r
        if isinstance(v, (str, int, float, bool, type(None))) and not isinstance(v, Sym):
            return repr(v)
        return SymStr((Fun("repr", (v,)),))
    if spec:
        if isinstance(v, SymInt):
            import re
            m = re.fullmatch(r"0(\d+)d?", spec)
            if m:
                w = int(m.group(1))
                if truth(mkbool(z3.And(v.t >= 0, v.t < 10 ** w))):
                    return mk([Num(v, w)])
            if spec == "d":
                return to_str(v)
        if isinstance(v, (SymDT, SymDate, SymTime)):
            return v.strftime(spec)
        if not isinstance(v, Sym):
            try:
                return format(v, spec)
            except Exception:
                raise
        return SymStr((Fun("format:" + spec, (v,)),))
    return to_str(v)


def to_str(v):
    """str(v)"""
    from .dt import SymDT, SymDate, SymTime, SymTD
    if isinstance(v, (str, SymStr)):
        return v
    if v is None or isinstance(v, (bool, int, float)):
        return str(v)
    if isinstance(v, SymInt):
        if truth(mkbool(v.t >= 0)):
            return mk([Num(v, 0)])
        return mk(["-", Num(mkint(-v.t), 0)])
    if isinstance(v, SymBool):
        return "True" if truth(v) else "False"
    if isinstance(v, SymReal):
        # repr of a number: the rendering is a function of the value, free of separators
        return SymStr((Fun("float", (v,), excl=",\n\r ;=\t" + "\x0b\x0c"),))
    if isinstance(v, BaseException):
        if len(v.args) == 1 and isinstance(v.args[0], (str, SymStr)) and not isinstance(v, KeyError):
            return v.args[0]
        if len(v.args) == 0:
            return ""
        return SymStr((Fun("str:exc", (v,), nonempty=False),))
    if isinstance(v, type):
        return SymStr((Fun("str:type", (v,)),))
    if isinstance(v, SymEnum):
        return SymStr((Fun("str:enum", (v,)),))
    f = getattr(type(v), "__str__", None)
    from .interp import IFunc
    if isinstance(f, IFunc):
        return SymStr((LazyStr(v),))
    return SymStr((Fun("str", (v,), nonempty=False),))


class LazyStr(Fun):
    """text of an interpreted __str__ that is not evaluated unless needed"""
    __slots__ = ("obj",)

    def __init__(self, obj):
        Fun.__init__(self, "str", (obj,), nonempty=False)
        self.obj = obj


def force(s):
    """evaluate lazily rendered objects inside a string"""
    if not isinstance(s, SymStr):
        return s
    out = []
    for p in s.parts:
        if isinstance(p, LazyStr):
            out.append(force(p.obj.__str__()))
        else:
            out.append(p)
    return mk(out)
