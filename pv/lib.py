# -*- coding: utf-8 -*-
"""Contracts (assumed) of the builtins and library modules the repository uses."""
import builtins as _b
import collections
import enum
import functools
import os as _os
import signal as _signal
import types

import z3

from .engine import eng, Unsupported, PathEnd, Signal, CUR
from . import values as V
from .values import (Sym, SymBool, SymInt, SymReal, SymEnum, Opaque, Seg, PList, PDict, PView, PIter, SymMap, LoopMap, mkint,
                     mkreal, mkbool, iterm, rterm, val_eq, truth, bt, fresh_int, fresh_bool, fresh_real, fresh_obj,
                     seq_parts, and_, or_, not_, ite, trunc_int, shift_seg, to_bool_term, fresh_enum, in_range_b, AnyError)
from . import strings
from .strings import SymStr, SymBytes, mk, Num, Fun, Atom, fresh_str, to_str, fmt
from . import dt
from .dt import TypeStub


class StubModule(types.ModuleType):
    def __init__(self, _modname, **attrs):
        types.ModuleType.__init__(self, _modname)
        self.__dict__.update(attrs)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n in ("pv_setattr", "pv_contains", "pv_parts"):
            raise AttributeError(n)
        raise Unsupported("%s.%s" % (self.__name__, n))


class UnknownModule(types.ModuleType):
    def __init__(self, name):
        types.ModuleType.__init__(self, name)

    def __getattr__(self, n):
        if n.startswith("__") or n in ("pv_setattr", "pv_contains", "pv_parts"):
            raise AttributeError(n)
        raise Unsupported("module %s" % self.__name__)


# ------------------------------------------------------------------------------------------------ sets
class PSet(object):
    """set of the interpreted program, as a list without duplicates"""

    def __init__(self, items=()):
        self.d = PDict()
        for x in seq_parts(items):
            if isinstance(x, Seg):
                self.d.loose = True
                self.d._set(self.d.entries + [LoopMap(V.with_base(Seg(x.tag, x.n, lambda i, x=x: (x.get(i), True)), x))])
            else:
                self.d.setitem(x, True)

    def add(self, x):
        self.d.setitem(x, True)

    def discard(self, x):
        self.d.pop(x, None)

    def remove(self, x):
        self.d.delitem(x)

    def update(self, *xs):
        for it in xs:
            for x in seq_parts(it):
                if isinstance(x, Seg):
                    raise Unsupported("set.update of unknown length")
                self.d.setitem(x, True)

    def clear(self):
        self.d.clear()

    def copy(self):
        s = PSet()
        s.d = self.d.copy()
        s.d.loose = self.d.loose
        return s

    def pv_contains(self, x):
        if self.d.concrete():
            V._hashable(x)
            return or_(*[V.key_eq(k, x) for k, _ in self.d.entries])
        return self.d.contains(x)

    __contains__ = pv_contains

    def pv_parts(self):
        return self.d.keys_view().view_parts()

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)

    def __bool__(self):
        return bool(self.d)

    def length(self):
        return self.d.length()

    def issubset(self, o):
        o = o if isinstance(o, PSet) else PSet(o)
        return and_(*[o.pv_contains(k) for k, _ in self.d.entries])

    def __sub__(self, o):
        r = PSet()
        for x in self.pv_parts():
            if not truth(o.pv_contains(x)):
                r.add(x)
        return r

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r

    def __and__(self, o):
        r = PSet()
        for x in self.pv_parts():
            if truth(o.pv_contains(x)):
                r.add(x)
        return r
    union, intersection, difference = __or__, __and__, __sub__
    __hash__ = None


def real_type(o):
    if isinstance(o, (SymStr,)):
        return str
    if isinstance(o, SymBool):
        return bool
    if isinstance(o, SymInt):
        return int
    if isinstance(o, SymReal):
        return float
    if type(o) is PList:
        return list
    if type(o) is PDict:
        return dict
    if isinstance(o, PSet):
        return set
    if isinstance(o, SymBytes):
        return bytes
    if isinstance(o, dt.SymDT):
        return dt._dt.datetime
    if isinstance(o, dt.SymDate):
        return dt._dt.date
    if isinstance(o, dt.SymTime):
        return dt._dt.time
    if isinstance(o, dt.SymTD):
        return dt._dt.timedelta
    if isinstance(o, SymEnum):
        return o.cls
    if isinstance(o, Opaque):
        return o.cls
    return None


def real_base(b):
    if b is dict:
        return PDict
    if b is list:
        return PList
    if isinstance(b, _Ctor):
        return b.real
    return b


_NATIVE_OF = {PDict: dict, PList: list}


def isinst(o, t):
    if isinstance(t, tuple):
        return or_(*[isinst(o, x) for x in t])
    if isinstance(t, PList):
        raise TypeError("isinstance() arg 2 must be a type")
    if isinstance(t, _Ctor):
        t = t.native
    if isinstance(t, TypeStub):
        if isinstance(o, Opaque):
            return opq_isinst(o, t)
        return isinstance(o, t.natives) or isinstance(o, t.syms)
    if isinstance(t, Opaque) and t.attrs is not None and "*instance" in t.attrs:    # an arbitrary class
        return t.attrs["*instance"](o)
    if not isinstance(t, type):
        raise TypeError("isinstance() arg 2 must be a type")
    if isinstance(o, Opaque):
        return opq_isinst(o, t)
    if isinstance(o, AnyError):
        return o.is_a(t)
    if t is dict:
        return isinstance(o, (PDict, dict))
    if t is list:
        return isinstance(o, (PList, list))
    if t is set:
        return isinstance(o, (PSet, set))
    r = real_type(o)
    if r is not None:
        return issubclass(r, t)
    return isinstance(o, t)


def opq_isinst(o, t):
    if o.attrs is not None and "*isinstance" in o.attrs:
        return o.attrs["*isinstance"](t)
    if o.cls is object:
        if t is object:
            return True
        raise Unsupported("isinstance of an arbitrary object")
    if isinstance(t, TypeStub):
        return False
    return issubclass(o.cls, t)


class _Ctor(object):
    """a builtin type whose instances may be symbolic"""

    def __init__(self, native, fn, real=None, **attrs):
        self.native = native
        self.fn = fn
        self.real = real or native
        self.__name__ = native.__name__
        self.__dict__.update(attrs)

    def __call__(self, *a, **k):
        return self.fn(*a, **k)

    def __repr__(self):
        return repr(self.native)

    def __eq__(self, o):
        return o is self or o is self.native

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.native)

    def __getattr__(self, n):
        if n.startswith("__") and n not in ("__init__", "__getitem__", "__setitem__", "__contains__"):
            raise AttributeError(n)
        if n in ("pv_setattr", "pv_contains", "pv_parts"):
            raise AttributeError(n)
        r = {dict: PDict, list: PList}.get(self.native)
        if r is not None:
            v = getattr(r, _PD.get(n, n), None)
            if v is not None:
                return v
        if self.native is str:
            from .interp import BoundStr
            return lambda s, *a, **k: BoundStr(s, n)(*a, **k)
        return getattr(self.native, n)


_PD = {}


# ------------------------------------------------------------------------------------------------ helpers on sequences
def rev_seg(s):
    return Seg(s.tag + ".rev", s.n, lambda i: s.get(mkint(iterm(s.n) - 1 - iterm(i))))


def map_seg(s, f, tag="map"):
    r = Seg("%s.%s" % (s.tag, tag), s.n, lambda i: f(s.get(i)))
    return r


def sorted_parts(interp, parts, key, reverse):
    if key is None:
        kf = lambda x: x       # noqa
    else:
        kf = lambda x: interp.call(key, [x], {})     # noqa
    if not any(isinstance(p, Seg) for p in parts):
        # insertion sort: stable; a later element moves left past strictly greater ones
        out = []
        for x in parts:
            kx = kf(x)
            pos = len(out)
            while pos > 0:
                ky = out[pos - 1][0]
                if truth(less(interp, kx, ky) if not reverse else less(interp, ky, kx)):
                    pos -= 1
                else:
                    break
            out.insert(pos, (kx, x))
        return [x for _, x in out]
    if len(parts) == 1:
        return [sorted_seg(interp, parts[0], kf, reverse)]
    raise Unsupported("sort of a mixed list of unknown length")


def less(interp, a, b):
    import ast
    return interp.compare(ast.Lt(), a, b)


def sorted_seg(interp, s, kf, reverse):
    """stable sort of an unknown number of elements: a permutation, ordered, stable"""
    e = eng()
    nm = e.fresh_name("perm_%s" % s.tag)
    perm = z3.Function(nm, z3.IntSort(), z3.IntSort())
    inv = z3.Function(nm + "_inv", z3.IntSort(), z3.IntSort())

    def get(i):
        j = perm(iterm(i))
        e.add_fact(z3.Implies(bt(in_range_b(i, s.n)), z3.And(j >= 0, j < iterm(s.n), inv(j) == iterm(i))))
        return s.get(mkint(j))
    r = Seg(s.tag + ".sorted", s.n, get)
    r.perm, r.inv, r.src = perm, inv, s

    def order(seg, a, b):
        x, y = kf(seg.get(a)), kf(seg.get(b))
        fwd = bt(not_(less(interp, y, x) if not reverse else less(interp, x, y)))
        bwd = bt(not_(less(interp, x, y) if not reverse else less(interp, y, x)))
        eq = z3.And(fwd, bwd)
        lt = iterm(a) < iterm(b)
        gt = iterm(a) > iterm(b)
        rng = z3.And(bt(in_range_b(a, seg.n)), bt(in_range_b(b, seg.n)))
        pa, pb = perm(iterm(a)), perm(iterm(b))
        return z3.Implies(rng, z3.And(z3.Implies(lt, fwd), z3.Implies(gt, bwd),
                                      z3.Implies(z3.And(lt, eq), pa < pb), z3.Implies(z3.And(gt, eq), pa > pb)))
    r.pairfacts.append(order)
    return r


def sum_seg(s, start):
    e = eng()
    sums = e.ghost.setdefault("sums", [])
    for s2, v in sums:
        if s2 is s:
            return start + v
    if not e.branch(iterm(s.n) > 0):
        return start
    # sums of pointwise equal runs of the same length are equal
    for s2, v in sums:
        if e.known(iterm(s2.n) == iterm(s.n)):
            i = fresh_int("si", 0, inp=False)
            e.add_fact(i.t < iterm(s.n))
            c = val_eq(s.get(i), s2.get(i))
            if c is True or c is not False and e.known(bt(c)):
                sums.append((s, v))
                return start + v
    i = fresh_int("si", 0, inp=False)
    e.add_fact(i.t < iterm(s.n))
    v = (fresh_int if isinstance(s.get(i), (int, SymInt)) else fresh_real)("sum_" + str(s.tag))
    e.add_fact(z3.Implies(iterm(s.n) == 0, v.t == 0))
    sums.append((s, v))
    return v if isinstance(start, int) and start == 0 else start + v


# ------------------------------------------------------------------------------------------------ builtins
def b_len(x):
    if isinstance(x, str):
        return len(x)
    if isinstance(x, SymStr):
        return strings.sym_len(x)
    if isinstance(x, (PList, PDict, PSet)):
        return x.length()
    if isinstance(x, PView):
        return PList(x.view_parts()).length()
    if isinstance(x, Sym) or x is None or isinstance(x, (int, float, PIter)):
        raise TypeError("object has no len()")
    f = getattr(type(x), "__len__", None)
    if f is None:
        raise TypeError("object of type '%s' has no len()" % type(x).__name__)
    return x.__len__()


def b_int(x=0, base=10):
    if isinstance(x, (SymInt, SymReal, SymBool)):
        return trunc_int(x)
    if isinstance(x, SymStr):
        return strings.sym_int(x)
    if isinstance(x, (Sym, PList, PDict)) or x is None:
        if isinstance(x, Opaque):
            raise Unsupported("int() of an arbitrary object")
        raise TypeError("int() argument must be a string or a number")
    return int(x) if base == 10 else int(x, base)


def b_float(x=0.0):
    if isinstance(x, (SymInt, SymBool)):
        return mkreal(rterm(x))
    if isinstance(x, SymReal):
        return x
    if isinstance(x, SymStr):
        return str_float(x)
    if isinstance(x, Opaque):
        raise Unsupported("float() of an arbitrary object")
    if isinstance(x, (PList, PDict, Sym)):
        raise TypeError("float() argument")
    return float(x)


_str2real = z3.Function("str2real", z3.StringSort(), z3.RealSort())


def str_float(x):
    s = strings.sym_strip_soft(x)
    if isinstance(s, str):
        return float(s)
    ps = s.parts
    if len(ps) == 1 and isinstance(ps[0], Fun) and ps[0].key == "float":
        return ps[0].args[0]
    if len(ps) == 1 and isinstance(ps[0], Num):
        return mkreal(rterm(ps[0].n))
    if len(ps) == 1 and isinstance(ps[0], Atom):
        if ps[0].cls == "digits":
            return mkreal(z3.ToReal(z3.StrToInt(strings.part_z3(ps[0]))))
        if ps[0].cls == "notnum":
            raise ValueError("could not convert string to float")
    raise Unsupported("float() of unknown text")


def b_str(x="", *a):
    if a:
        if isinstance(x, SymBytes):
            return x.s
        return str(x, *a)
    return strings.force(to_str(x)) if not isinstance(x, str) else x


def b_bool(x=False):
    if isinstance(x, SymBool):
        return x
    return truth(x)


_round = z3.Function("py_round", z3.RealSort(), z3.IntSort(), z3.RealSort())


def b_round(x, nd=None):
    if isinstance(x, (int, float)) and not isinstance(x, Sym) and (nd is None or isinstance(nd, int)):
        return round(x) if nd is None else round(x, nd)
    if isinstance(x, SymInt):
        if nd is None or (isinstance(nd, int) and nd >= 0):
            return x
    if isinstance(x, SymReal):
        if nd is None:
            return mkint(z3.If(x.t - z3.ToReal(z3.ToInt(x.t)) < z3.RealVal("1/2"), z3.ToInt(x.t), z3.If(
                z3.And(x.t - z3.ToReal(z3.ToInt(x.t)) == z3.RealVal("1/2"), z3.ToInt(x.t) % 2 == 0), z3.ToInt(x.t),
                z3.ToInt(x.t) + 1)))
        r = _round(x.t, iterm(nd))
        eng().add_fact(_round(r, iterm(nd)) == r)
        return mkreal(r)
    raise Unsupported("round of %r" % (x,))


def minmax(interp, args, kw, is_max):
    key = kw.get("key")
    if len(args) == 1:
        parts = seq_parts(args[0])
        if not parts and "default" in kw:
            return kw["default"]
    else:
        parts = list(args)
    if any(isinstance(p, Seg) for p in parts):
        raise Unsupported("min/max over unknown length")
    if not parts:
        raise ValueError("max()/min() arg is an empty sequence")
    kf = (lambda x: x) if key is None else (lambda x: interp.call(key, [x], {}))
    best = parts[0]
    for x in parts[1:]:
        a, b = kf(x), kf(best)
        c = (a > b) if is_max else (a < b)
        if c is True:
            best = x
        elif c is False:
            pass
        elif key is None and isinstance(x, (int, float, SymInt, SymReal)) and isinstance(best, (int, float, SymInt,
                                                                                                SymReal)):
            best = ite(c, x, best)
        elif truth(c):
            best = x
    return best


def b_range(*a):
    if all(isinstance(x, int) for x in a):
        r = range(*a)
        if len(r) <= 3000:
            return PView(lambda: list(r), "range")
    for x in a:
        if not isinstance(x, (int, SymInt)):
            raise TypeError("'%s' object cannot be interpreted as an integer" % type(x).__name__)
    lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
    if len(a) == 3 and not (isinstance(a[2], int) and a[2] == 1):
        raise Unsupported("range step")
    n = mkint(z3.If(iterm(hi) > iterm(lo), iterm(hi) - iterm(lo), z3.IntVal(0)))
    seg = Seg("range", n, lambda i: mkint(iterm(lo) + iterm(i)))
    return PView(lambda: [seg], "range")


def b_enumerate(xs, start=0):
    parts = seq_parts(xs)

    def go():
        out, off = [], start
        for p in parts:
            if isinstance(p, Seg):
                out.append(Seg(p.tag + ".enum", p.n, lambda i, p=p, off=off: (mkint(iterm(off) + iterm(i)), p.get(i))))
                off = mkint(iterm(off) + iterm(p.n))
            else:
                out.append((off, p))
                off = off + 1
        return out
    return PIter(go())


def b_zip(*xs):
    ls = [seq_parts(x) for x in xs]
    if all(not any(isinstance(p, Seg) for p in l) for l in ls):
        return PIter([tuple(t) for t in zip(*ls)])
    if all(len(l) == 1 and isinstance(l[0], Seg) for l in ls):
        segs = [l[0] for l in ls]
        n = segs[0].n
        for s in segs[1:]:
            if not truth(mkbool(iterm(s.n) == iterm(n))):
                raise Unsupported("zip of different unknown lengths")
        return PIter([Seg("zip", n, lambda i: tuple(s.get(i) for s in segs))])
    raise Unsupported("zip of unknown lengths")


def b_type(interp, *a):
    if len(a) == 1:
        x = a[0]
        r = real_type(x)
        if r is not None:
            return r
        if isinstance(x, Opaque):
            raise Unsupported("type of an arbitrary object")
        return type(x)
    name, bases, ns = a
    if isinstance(name, SymStr):
        name = "<symbolic>"
    d = {}
    items = ns.entries if isinstance(ns, PDict) else list(dict(ns).items())
    for k, v in items:
        d[k] = v
    bases = tuple(real_base(b) for b in seq_parts(bases)) if not isinstance(bases, tuple) else tuple(
        real_base(b) for b in bases)
    cls = type(name, bases, d)
    cls.__pv__ = True
    cls.__module__ = d.get("__module__", "jqtrade.dynamic")
    return cls


def b_sum(xs, start=0):
    parts = seq_parts(xs)
    tot = start
    for p in parts:
        if isinstance(p, Seg):
            tot = sum_seg(p, tot)
        else:
            tot = tot + p
    return tot


def b_any(xs):
    from .interp import seg_any
    for p in seq_parts(xs):
        if isinstance(p, Seg):
            if truth(seg_any(p, lambda v: truth(v))):
                return True
        elif truth(p):
            return True
    return False


def b_all(xs):
    from .interp import seg_any
    for p in seq_parts(xs):
        if isinstance(p, Seg):
            if truth(seg_any(p, lambda v: not truth(v))):
                return False
        elif not truth(p):
            return False
    return True


class _Prop(property):
    pass


def make_builtins(interp):
    def b_isinstance(o, t):
        return isinst(o, t)

    def b_issubclass(c, t):
        if isinstance(t, tuple):
            return any(b_issubclass(c, x) for x in t)
        t = t.native if isinstance(t, _Ctor) else t
        c = c.native if isinstance(c, _Ctor) else c
        return issubclass(c, t)

    def b_getattr(o, name, *d):
        from .interp import conc_str
        return interp.getattr(o, conc_str(name), *d)

    def b_hasattr(o, name):
        from .interp import conc_str
        if isinstance(o, Opaque) and o.attrs is not None and "*hasattr" in o.attrs:
            return o.attrs["*hasattr"](name)
        m = object()
        return interp.getattr(o, conc_str(name), m) is not m

    def b_setattr(o, name, v):
        from .interp import conc_str
        interp.setattr(o, conc_str(name), v)

    def b_delattr(o, name):
        interp.delattr(o, name)

    def b_callable(o):
        from .interp import IFunc, find_descr
        if isinstance(o, Opaque):
            return o.call is not None
        if isinstance(o, (Sym, PList, PDict)) or o is None:
            return False
        return callable(o)

    def b_sorted(xs, key=None, reverse=False):
        if reverse is not False and reverse is not True:
            reverse = truth(reverse)
        return PList(sorted_parts(interp, seq_parts(xs), key, reverse))

    def b_next(it, *d):
        if isinstance(it, PIter):
            return it.next(*d)
        from .interp import IFunc, find_descr
        f = find_descr(type(it), "__next__")
        if isinstance(f, IFunc):
            try:
                return interp.call_ifunc(f, [it], {})
            except StopIteration:
                if d:
                    return d[0]
                raise
        return next(it, *d)

    def b_iter(x):
        if isinstance(x, PIter):
            return x
        return PIter(seq_parts(x))

    def b_map(f, *xs):
        if len(xs) != 1:
            raise Unsupported("map over several sequences")
        acc = PList()

        def body(v, fr):
            acc.append(interp.call(f, [v], {}))
        parts = seq_parts(xs[0])
        if not any(isinstance(p, Seg) for p in parts):
            return PIter([interp.call(f, [p], {}) for p in parts])
        interp.lib_loop("map", parts, acc, lambda v: acc.append(interp.call(f, [v], {})))
        return PIter(acc.parts)

    def b_filter(f, xs):
        acc = PList()

        def one(v):
            if truth(interp.call(f, [v], {}) if f is not None else v):
                acc.append(v)
        parts = seq_parts(xs)
        if not any(isinstance(p, Seg) for p in parts):
            for p in parts:
                one(p)
        else:
            interp.lib_loop("filter", parts, acc, one)
        return PIter(acc.parts)

    def b_reversed(xs):
        ps = seq_parts(xs)
        return PIter([rev_seg(p) if isinstance(p, Seg) else p for p in reversed(ps)])

    def b_list(xs=()):
        return PList(seq_parts(xs))

    def b_tuple(xs=()):
        ps = seq_parts(xs)
        if any(isinstance(p, Seg) for p in ps):
            return PList(ps)
        return tuple(ps)

    def b_dict(*a, **k):
        return PDict(*a, **k)

    def b_repr(x):
        if isinstance(x, (Sym, PList, PDict)):
            return SymStr((Fun("repr", (x,)),))
        return repr(x)

    def b_print(*a, **k):
        rec = eng().ghost.get("on_print")
        if rec is not None:
            rec(*a, **k)
    b_print.pv_star = True

    def b_id(x):
        raise Unsupported("id()")

    def b_abs(x):
        return abs(x)

    def b_open(*a, **k):
        f = eng().ghost.get("on_open")
        if f is None:
            raise Unsupported("open()")
        return f(*a, **k)

    def b_exec(*a, **k):
        f = eng().ghost.get("on_exec")
        if f is None:
            raise Unsupported("exec()")
        return f(*a, **k)

    def b_vars(*a):
        if not a:
            raise Unsupported("vars()")
        return interp.getattr(a[0], "__dict__")

    def b_hash(x):
        if isinstance(x, (Sym, PList, PDict)):
            raise Unsupported("hash of a symbolic value")
        return hash(x)

    def b_divmod(a, b):
        return a // b, a % b

    def b_bytes(*a):
        return bytes(*a)

    def b_dir(*a):
        if a and not isinstance(a[0], (Sym, PList, PDict)):
            return PList(dir(a[0]))
        raise Unsupported("dir()")

    def fromkeys(xs, v=None):
        d = PDict()
        for p in seq_parts(xs):
            if isinstance(p, Seg):
                raise Unsupported("dict.fromkeys of unknown length")
            d.setitem(p, v)
        return d

    bi = {
        "isinstance": b_isinstance, "issubclass": b_issubclass, "len": b_len, "getattr": b_getattr,
        "hasattr": b_hasattr, "setattr": b_setattr, "delattr": b_delattr, "callable": b_callable, "sorted": b_sorted,
        "next": b_next, "iter": b_iter, "map": b_map, "filter": b_filter, "reversed": b_reversed,
        "print": b_print, "repr": b_repr, "id": b_id, "abs": b_abs, "open": b_open, "exec": b_exec, "vars": b_vars,
        "hash": b_hash, "divmod": b_divmod, "round": b_round, "range": b_range, "enumerate": b_enumerate,
        "zip": b_zip, "sum": b_sum, "any": b_any, "all": b_all, "dir": b_dir,
        "max": lambda *a, **k: minmax(interp, a, k, True), "min": lambda *a, **k: minmax(interp, a, k, False),
        "int": _Ctor(int, b_int), "float": _Ctor(float, b_float), "str": _Ctor(str, b_str), "bool": _Ctor(bool, b_bool),
        "list": _Ctor(list, b_list, PList), "tuple": _Ctor(tuple, b_tuple), "dict": _Ctor(dict, b_dict, PDict,
                                                                                       fromkeys=fromkeys),
        "set": _Ctor(set, PSet), "frozenset": _Ctor(frozenset, PSet), "bytes": _Ctor(bytes, b_bytes),
        "type": type, "object": object, "property": property, "staticmethod": staticmethod,
        "classmethod": classmethod, "super": super,
        "True": True, "False": False, "None": None, "NotImplemented": NotImplemented, "Ellipsis": Ellipsis,
        "__name__": "builtins", "__import__": lambda n, *a: interp.import_module(n),
        "chr": chr, "ord": lambda c: ord(strings.concretize(c)), "format": lambda v, s="": fmt(v, -1, s),
        "input": None, "callable_": None, "slice": slice, "memoryview": memoryview, "bytearray": bytearray,
        "complex": complex,
    }
    for n in dir(_b):
        v = getattr(_b, n)
        if isinstance(v, type) and issubclass(v, BaseException):
            bi[n] = v
    for k in ("callable_", "input"):
        bi.pop(k)
    return bi


def percent(interp, f, a):
    """f % a"""
    import re
    args = list(a) if isinstance(a, tuple) else [a]
    out = []
    pos = 0
    for m in re.finditer(r"%(\((\w+)\))?([-0-9.]*)([sdrf%])", f):
        out.append(f[pos:m.start()])
        pos = m.end()
        c = m.group(4)
        if c == "%":
            out.append("%")
            continue
        if m.group(2):
            from .interp import getitem
            v = getitem(a, m.group(2))
        else:
            if not args:
                raise TypeError("not enough arguments for format string")
            v = args.pop(0)
        spec = m.group(3)
        if not isinstance(v, (Sym, PList, PDict)) and not type(v).__module__.startswith("jqtrade"):
            out.append(("%" + spec + c) % (v,))
        elif c == "s" and not spec:
            out.append(to_str(v))
        elif c == "d" and isinstance(v, (SymInt, SymReal)):
            iv = trunc_int(v)
            if spec and spec[0] == "0":
                out.append(fmt(iv, -1, spec + "d") if isinstance(iv, Sym) else ("%" + spec + "d") % iv)
            elif not spec:
                out.append(to_str(iv))
            else:
                out.append(SymStr((Fun("%" + spec + c, (v,)),)))
        else:
            out.append(SymStr((Fun("%" + spec + c, (v,)),)))
    out.append(f[pos:])
    if not isinstance(a, (PDict, dict)) and args and isinstance(a, tuple):
        raise TypeError("not all arguments converted during string formatting")
    return mk(out)


# ------------------------------------------------------------------------------------------------ library modules
class Logger(object):
    """logging does not influence the program (assumed: rendering a record never raises)"""

    def __init__(self, name="root"):
        self.name = name
        self.handlers = []

    def getChild(self, n):
        return Logger(self.name + "." + n)

    def _log(self, level, msg, *a, **k):
        rec = eng().ghost.get("on_log") if CUR.engine is not None else None
        if CUR.engine is not None:
            eng().assumed.add("logging calls have no effect on the program state and never raise")
        if rec is not None:
            rec(level, msg, self)

    def debug(self, msg, *a, **k):
        self._log("debug", msg)

    def info(self, msg, *a, **k):
        self._log("info", msg)

    def warn(self, msg, *a, **k):
        self._log("warn", msg)
    warning = warn

    def error(self, msg, *a, **k):
        self._log("error", msg)

    def exception(self, msg, *a, **k):
        self._log("exception", msg)

    def critical(self, msg, *a, **k):
        self._log("critical", msg)

    def setLevel(self, l):
        pass

    def addHandler(self, h):
        pass

    def addFilter(self, f):
        pass

    def isEnabledFor(self, l):
        return True


class _Any(object):
    def __init__(self, *a, **k):
        pass

    def setFormatter(self, *a):
        pass

    def setLevel(self, *a):
        pass

    def addFilter(self, *a):
        pass


class Lock(object):
    """threading.Lock: mutual exclusion is recorded so that contracts can require it"""

    def __init__(self):
        self.held = False
        self.serial_used = 0

    def acquire(self, blocking=True, timeout=-1):
        if self.held:
            eng().fail("lock is never acquired twice by the same operation (deadlock)")
        self._set(True)
        return True

    def _set(self, v):
        old = self.held

        def undo():
            self.held = old

        def redo():
            self.held = v
        from .interp import AttrLoc
        eng().write((id(self), "attr", "held"), AttrLoc(self, "held"), undo, redo)

    def release(self):
        if not self.held:
            raise RuntimeError("release unlocked lock")
        self._set(False)

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()
        return False

    def locked(self):
        return self.held


class RLock(Lock):
    def __init__(self):
        Lock.__init__(self)
        self.n = 0

    def acquire(self, blocking=True, timeout=-1):
        self.n += 1
        self._set(True)
        return True

    def release(self):
        self.n -= 1
        self._set(self.n > 0)


def mk_re():
    import re as _re

    class M(object):
        def __init__(self, m):
            self.m = m

    def guard(s):
        s = strings.concretize(s)
        if isinstance(s, SymStr):
            return None
        return s

    def fullmatch(p, s, flags=0):
        return _apply("fullmatch", p, s, flags)

    def match(p, s, flags=0):
        return _apply("match", p, s, flags)

    def search(p, s, flags=0):
        return _apply("search", p, s, flags)

    def _apply(op, p, s, flags=0):
        g = guard(s)
        if g is not None:
            return getattr(_re, op)(p, g, flags)
        from . import rx
        return rx.match(op, p, s, flags)

    def findall(p, s, flags=0):
        g = guard(s)
        if g is not None:
            return PList(_re.findall(p, g, flags))
        from . import rx
        return rx.findall(p, s, flags)

    def split(p, s, maxsplit=0, flags=0):
        g = guard(s)
        if g is not None:
            return PList(_re.split(p, g, maxsplit, flags))
        from . import rx
        return rx.split(p, s, maxsplit, flags)

    def sub(p, r, s, count=0, flags=0):
        g = guard(s)
        if g is not None:
            return _re.sub(p, r, g, count, flags)
        raise Unsupported("re.sub on unknown text")

    class Pattern(object):
        def __init__(self, p, flags=0):
            self.p, self.flags = p, flags
            self.pattern = p

        def fullmatch(self, s):
            return fullmatch(self.p, s, self.flags)

        def match(self, s):
            return match(self.p, s, self.flags)

        def search(self, s):
            return search(self.p, s, self.flags)

        def findall(self, s):
            return findall(self.p, s, self.flags)

        def split(self, s, maxsplit=0):
            return split(self.p, s, maxsplit, self.flags)

        def finditer(self, s):
            g = guard(s)
            if g is None:
                raise Unsupported("finditer on unknown text")
            return PList(list(_re.finditer(self.p, g, self.flags)))

    def finditer(p, s, flags=0):
        return Pattern(p, flags).finditer(s)

    return StubModule("re", fullmatch=fullmatch, match=match, search=search, findall=findall, split=split, sub=sub,
                      compile=Pattern, finditer=finditer, IGNORECASE=_re.IGNORECASE, I=_re.I, M=_re.M, S=_re.S,
                      escape=_re.escape)


class HeapItem(object):
    pass


def make_stubs(interp):
    stubs = {}

    def add(m):
        stubs[m.__name__] = m
        return m

    root = Logger()
    add(StubModule("logging", getLogger=lambda name=None: Logger(name or "root"), StreamHandler=_Any,
                   FileHandler=_Any, Formatter=_Any, Filter=_Any, Logger=Logger, DEBUG=10, INFO=20, WARNING=30, ERROR=40,
                   handlers=StubModule("logging.handlers")))
    add(dt.make_module())
    add(dt.make_time_module())
    add(mk_re())

    def ordered(*a, **k):
        return PDict(*a, **k)

    def namedtuple(name, fields, **k):
        if isinstance(fields, PList):
            fields = [strings.concretize(x) for x in fields]
        return collections.namedtuple(name, fields, **k)
    add(StubModule("collections", OrderedDict=_Ctor(collections.OrderedDict, ordered, PDict), namedtuple=namedtuple,
                   defaultdict=lambda *a: _unsup("defaultdict"), deque=lambda *a: _unsup("deque")))
    add(StubModule("enum", Enum=enum.Enum, IntEnum=enum.IntEnum, unique=enum.unique))
    add(StubModule("threading", Lock=Lock, RLock=RLock))
    add(StubModule("traceback", format_exc=lambda *a: SymStr((Fun("traceback", (), nonempty=True),)),
                   print_exc=lambda *a, **k: None))
    add(StubModule("signal", SIGTERM=_signal.SIGTERM, SIGINT=_signal.SIGINT, SIGKILL=_signal.SIGKILL))

    def wraps(f):
        def deco(g):
            for n in ("__name__", "__qualname__", "__doc__"):
                try:
                    setattr(g, n + "", getattr(f, n)) if n == "__doc__" else None
                except AttributeError:
                    pass
            return g
        return deco

    def partial(f, *a, **k):
        return Partial(interp, f, a, k)
    add(StubModule("functools", wraps=wraps, partial=partial))
    add(StubModule("importlib", import_module=lambda n, *a: imp_mod(interp, n),
                   util=StubModule("importlib.util")))
    stubs["importlib.util"] = stubs["importlib"].util

    # uuid: fresh numbers
    class _U(object):
        def __init__(self, which):
            self.int = uuid_int(which)

        @property
        def hex(self):
            return SymStr((Fun("uuidhex", (self.int,)),))
    add(StubModule("uuid", uuid1=lambda *a: _U("uuid1"), uuid4=lambda *a: _U("uuid4"), UUID=None))

    # heapq (assumed: a priority queue; heappop removes and returns a least item, h[0] is a least item)
    def heappush(h, x):
        e = eng()
        e.assumed.add("heapq.heappush/heappop: a priority queue returning a least item")
        h.heap = True
        h.append(x)

    def heap_min(h):
        """(position, item, remaining parts) of a least item"""
        e = eng()
        parts = h.parts
        if h.concrete():
            if not parts:
                raise IndexError("index out of range")
            best = 0
            for i in range(1, len(parts)):
                if truth(less(interp, parts[i], parts[best])):
                    best = i
            return parts[best], parts[:best] + parts[best + 1:]
        if not truth(mkbool(iterm(h.length()) > 0)):
            raise IndexError("index out of range")
        c = e.choose(len(parts))
        p = parts[c]
        if isinstance(p, Seg):
            i = fresh_int("hp_%s" % p.tag, inp=False)
            e.assume(z3.And(i.t >= 0, i.t < iterm(p.n)))
            x = p.get(i)
            rest = parts[:c] + [shift_seg(p, 0, i), shift_seg(p, mkint(i.t + 1), mkint(iterm(p.n) - i.t - 1))] + \
                parts[c + 1:]
        else:
            x = p
            rest = parts[:c] + parts[c + 1:]
        for q in parts:
            if isinstance(q, Seg):
                q.forall(lambda s, j: z3.Implies(bt(in_range_b(j, s.n)), z3.Not(bt(less(interp, s.get(j), x)))))
            elif q is not x:
                e.assume(not_(less(interp, q, x)))
        return x, rest

    def heappop(h):
        h.heap = True
        x, rest = heap_min(h)
        h._set(rest)
        return x
    interp.heap_min = heap_min
    add(StubModule("heapq", heappush=heappush, heappop=heappop))

    def counter(start=0, step=1):
        return _Counter(start, step)
    add(StubModule("itertools", count=counter, chain=lambda *xs: PIter([p for x in xs for p in seq_parts(x)])))

    class _Path(object):
        sep = "/"

        def join(self, *a):
            out = [a[0]]
            for x in a[1:]:
                if isinstance(x, str) and x.startswith("/"):
                    out = [x]
                    continue
                last = out[-1] if out else ""
                if not (isinstance(last, str) and (last == "" or last.endswith("/"))):
                    out.append("/")
                out.append(x)
            return mk(out)

        def abspath(self, p):
            return p if isinstance(p, str) and p.startswith("/") else SymStr((Fun("abspath", (p,)),)) if isinstance(
                p, Sym) else "/cwd/" + p

        def realpath(self, p):
            return self.abspath(p)

        def expanduser(self, p):
            if isinstance(p, str):
                return p.replace("~", "/home/user", 1) if p.startswith("~") else p
            return SymStr((Fun("expanduser", (p,)),))

        def exists(self, p):
            f = eng().ghost.get("on_exists")
            if f is None:
                raise Unsupported("os.path.exists")
            return f(p)

        def isfile(self, p):
            return self.exists(p)

        def isdir(self, p):
            f = eng().ghost.get("on_isdir")
            return f(p) if f is not None else self.exists(p)

        def dirname(self, p):
            if isinstance(p, str):
                return _os.path.dirname(p)
            return SymStr((Fun("dirname", (p,)),))

        def basename(self, p):
            if isinstance(p, str):
                return _os.path.basename(p)
            return SymStr((Fun("basename", (p,)),))

        def splitext(self, p):
            if isinstance(p, str):
                return _os.path.splitext(p)
            return (SymStr((Fun("splitext0", (p,)),)), SymStr((Fun("splitext1", (p,)),)))

        def getsize(self, p):
            return ghost_call("on_getsize", p)

    def makedirs(p, *a, **k):
        f = eng().ghost.get("on_makedirs")
        if f is not None:
            f(p)

    def os_replace(a, b):
        f = eng().ghost.get("on_move")
        if f is None:
            raise Unsupported("os.replace")
        return f(a, b)
    path = _Path()
    add(StubModule("os", path=path, linesep="\n", sep="/", SEEK_END=2, SEEK_SET=0, SEEK_CUR=1, makedirs=makedirs,
                   name="posix", environ=PDictLazy(), replace=os_replace, rename=os_replace,
                   getpid=lambda: pid_of("getpid"), getppid=lambda: pid_of("getppid"),
                   fsync=lambda fd: None))
    stubs["os.path"] = path

    class _Stdout(object):
        def write(self, s):
            return ghost_call("on_stdout", self, s)

        def flush(self):
            return ghost_call("on_stdout_flush", self)
    add(StubModule("sys", getfilesystemencoding=lambda: "utf-8", stdout=_Stdout(), stderr=_Stdout(), platform="linux",
                   path=PyPath(), argv=None, version_info=(3, 12, 3), exit=_exit, maxsize=2**63 - 1))

    class AlreadyLocked(Exception):
        pass

    class LockException(Exception):
        pass

    def lk(fp, flags):
        f = eng().ghost.get("on_lock")
        if f is None:
            raise Unsupported("portalocker.lock")
        return f(fp, flags)

    def ulk(fp):
        f = eng().ghost.get("on_unlock")
        if f is None:
            raise Unsupported("portalocker.unlock")
        return f(fp)
    add(StubModule("portalocker", lock=lk, unlock=ulk, LOCK_EX=2, LOCK_NB=4, LOCK_SH=1,
                   exceptions=StubModule("portalocker.exceptions", AlreadyLocked=AlreadyLocked,
                                         LockException=LockException)))

    class ParserError(ValueError):
        pass
    pdm = StubModule("pandas", isna=lambda v: pd_isna(v), errors=StubModule("pandas.errors", ParserError=ParserError),
                     read_csv=lambda *a, **k: ghost_call("on_read_csv", *a, **k))
    add(pdm)
    stubs["pandas.errors"] = pdm.errors

    add(StubModule("json", dump=lambda *a, **k: ghost_call("on_json_dump", *a, **k),
                   load=lambda *a, **k: ghost_call("on_json_load", *a, **k),
                   dumps=lambda *a, **k: ghost_call("on_json_dumps", *a, **k),
                   loads=lambda *a, **k: ghost_call("on_json_loads", *a, **k)))
    add(StubModule("shutil", move=lambda a, b: ghost_call("on_move", a, b)))
    add(StubModule("pyuv", Loop=lambda *a: ghost_call("uv_loop"), Async=lambda *a: ghost_call("uv_async", *a),
                   Timer=lambda *a: ghost_call("uv_timer", *a), Signal=lambda *a: ghost_call("uv_signal", *a)))

    class PsError(Exception):
        pass

    class NoSuchProcess(PsError):
        pass

    class AccessDenied(PsError):
        pass
    add(StubModule("psutil", process_iter=lambda *a, **k: ghost_call("on_process_iter"), Error=PsError,
                   NoSuchProcess=NoSuchProcess, AccessDenied=AccessDenied, ZombieProcess=NoSuchProcess))
    add(StubModule("argparse", ArgumentParser=ArgumentParser))
    return stubs


class ArgumentParser(object):
    """records what was declared; what parsing yields is up to the ghost state on_parse"""

    def __init__(self, prog=None, usage=None, description=None, epilog=None, **kw):
        self.kw = kw
        self.declared = []          # (names, keywords)
        self.children = []          # (name, parser)
        self.preset = {}

    def add_argument(self, *names, **kw):
        self.declared.append((names, kw))

    def add_subparsers(self, **kw):
        self.sub_kw = kw
        return self

    def add_parser(self, name, **kw):
        for k in ("help", "description", "prog", "usage", "epilog"):
            kw.pop(k, None)
        p = ArgumentParser(**kw)
        self.children.append((name, p))
        return p

    def set_defaults(self, **kw):
        self.preset.update(kw)

    def error(self, message):
        raise SystemExit(2)

    def parse_args(self, args=None, namespace=None):
        return ghost_call("on_parse", self, args, False)

    def parse_known_args(self, args=None, namespace=None):
        return ghost_call("on_parse", self, args, True)


def _unsup(x):
    raise Unsupported(x)


def _exit(*a):
    raise SystemExit(*a)


class _Counter(object):
    def __init__(self, start, step):
        self.v, self.step = start, step

    def __next__(self):
        v = self.v
        nv = v + self.step
        from .interp import AttrLoc
        eng().write((id(self), "attr", "v"), AttrLoc(self, "v"), lambda: setattr(self, "v", v),
                    lambda: setattr(self, "v", nv))
        return v

    def __iter__(self):
        return self


class Partial(object):
    """functools.partial (it has no __name__)"""

    def __init__(self, interp, func, args, keywords):
        self.interp, self.func, self.args, self.keywords = interp, func, args, keywords

    def __call__(self, *b, **kk):
        d = dict(self.keywords)
        d.update(kk)
        return self.interp.call(self.func, list(self.args) + list(b), d)


class PyPath(object):
    """sys.path: a list of which nothing is known at first"""

    def _d(self):
        e = eng()
        if "syspath" not in e.ghost:
            e.ghost["syspath"] = PList([Seg("syspath", fresh_int("n_syspath", 0), lambda i: strings.str_fun("syspath", i))])
        return e.ghost["syspath"]

    def insert(self, i, x):
        self._d().insert(i, x)

    def append(self, x):
        self._d().append(x)

    def extend(self, xs):
        self._d().extend(xs)

    def copy(self):
        return self._d().copy()

    def index(self, *a):
        return self._d().index(*a)

    def __setitem__(self, i, v):
        d = self._d()
        if isinstance(i, slice) and i.start in (0, None) and i.step is None and isinstance(i.stop, int) and i.stop == 0:
            d._set(seq_parts(v) + d.parts)
            return
        if isinstance(i, slice) and i.start is None and i.stop is None and i.step is None:
            d._set(seq_parts(v))
            return
        raise Unsupported("an assignment in sys.path")

    def pv_contains(self, x):
        from .interp import contains
        return contains(None, self._d(), x)

    def pv_parts(self):
        return list(self._d().parts)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("sys.path.%s" % n)


class PDictLazy(object):
    """os.environ"""

    def __init__(self):
        pass

    def _d(self):
        e = eng()
        if "environ" not in e.ghost:
            e.ghost["environ"] = PDict()
        return e.ghost["environ"]

    def get(self, k, d=None):
        return self._d().get(k, d)

    def __getitem__(self, k):
        return self._d().getitem(k)

    def __setitem__(self, k, v):
        self._d().setitem(k, v)

    def update(self, *a, **k):
        self._d().update(*a, **k)

    def pv_contains(self, k):
        return self._d().contains(k)

    def __contains__(self, k):
        return self._d().contains(k)

    def __delitem__(self, k):
        self._d().delitem(k)

    def setdefault(self, k, d=None):
        return self._d().setdefault(k, d)

    def pop(self, k, *d):
        return self._d().pop(k, *d)

    def keys(self):
        return self._d().keys()

    def values(self):
        return self._d().values()

    def items(self):
        return self._d().items()

    def copy(self):
        return self._d().copy()

    def clear(self):
        return self._d().clear()

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("os.environ.%s" % n)


def pid_of(which):
    """the process id of this process (or of its parent): the same all the time"""
    f = eng().ghost.get(which)
    if f is None:
        v = fresh_int(which[3:], 1)
        f = eng().ghost[which] = lambda: v
    return f()


def ghost_call(name, *a, **k):
    f = eng().ghost.get(name)
    if f is None:
        raise Unsupported(name)
    return f(*a, **k)


def pd_isna(v):
    f = eng().ghost.get("on_isna")
    if f is not None:
        return f(v)
    if v is None:
        return True
    if isinstance(v, float):
        return v != v
    return False


def imp_mod(interp, n):
    f = eng().ghost.get("on_import")
    if f is not None:
        return f(n)
    return interp.import_module(strings.concretize(n))


def uuid_int(which):
    """a number that differs from every other number drawn before (assumed for uuid)"""
    e = eng()
    v = fresh_int("uuid", 0)
    seen = e.ghost.setdefault("uuids", [])
    e.assumed.add("two draws of uuid differ")
    for o in seen:
        e.add_fact(o.t != v.t)
    seen.append(v)
    return v
