# -*- coding: utf-8 -*-
"""Symbolic values.  Everything an interpreted program can hold is either a native Python object or one of these."""
import z3

from .engine import eng, Unsupported, to_bool_term, Signal

I = z3.IntSort()


class Sym(object):
    """base class of symbolic values"""
    __slots__ = ()

    def __hash__(self):
        raise Unsupported("hash of a symbolic %s" % type(self).__name__)


def simp(t):
    return z3.simplify(t)


# ------------------------------------------------------------------------------------------------ booleans
class SymBool(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return eng().branch(self.t)

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(self.t == bterm(o))
        if isinstance(o, (int, SymInt, float, SymReal)):
            return mkint(z3.If(self.t, 1, 0)) == o
        return False

    def __ne__(self, o):
        return not_(self == o)

    __hash__ = Sym.__hash__

    def __and__(self, o):
        return mkbool(z3.And(self.t, bterm(o)))
    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.t, bterm(o)))
    __ror__ = __or__

    def __invert__(self):
        raise Unsupported("~bool")

    # a number in arithmetic and in comparisons by size
    def _number(self):
        return mkint(z3.If(self.t, 1, 0))

    def __add__(self, o):
        return self._number() + o

    def __radd__(self, o):
        return o + self._number()

    def __sub__(self, o):
        return self._number() - o

    def __rsub__(self, o):
        return o - self._number()

    def __mul__(self, o):
        return self._number() * o

    def __rmul__(self, o):
        return o * self._number()

    def __neg__(self):
        return -self._number()

    def __lt__(self, o):
        return self._number() < (o._number() if isinstance(o, SymBool) else o)

    def __le__(self, o):
        return self._number() <= (o._number() if isinstance(o, SymBool) else o)

    def __gt__(self, o):
        return self._number() > (o._number() if isinstance(o, SymBool) else o)

    def __ge__(self, o):
        return self._number() >= (o._number() if isinstance(o, SymBool) else o)

    def __repr__(self):
        return "SymBool(%s)" % self.t.sexpr()


def bterm(b):
    if isinstance(b, SymBool):
        return b.t
    return z3.BoolVal(bool(b))


def mkbool(t):
    if t is True or t is False:
        return t
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def not_(b):
    if isinstance(b, SymBool):
        return mkbool(z3.Not(b.t))
    return not b


def and_(*bs):
    ts = []
    for b in bs:
        if b is False:
            return False
        if b is True:
            continue
        ts.append(to_bool_term(b))
    if not ts:
        return True
    return mkbool(z3.And(*ts))


def or_(*bs):
    ts = []
    for b in bs:
        if b is True:
            return True
        if b is False:
            continue
        ts.append(to_bool_term(b))
    if not ts:
        return False
    return mkbool(z3.Or(*ts))


def implies(a, b):
    return or_(not_(a), b)


def ite(c, a, b):
    """value-level if-then-else for ints/bools/reals"""
    if c is True:
        return a
    if c is False:
        return b
    t = to_bool_term(c)
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return mkbool(z3.If(t, bterm(a), bterm(b)))
    if isinstance(a, (int, SymInt)) and isinstance(b, (int, SymInt)):
        return mkint(z3.If(t, iterm(a), iterm(b)))
    if isinstance(a, (int, SymInt, float, SymReal)) and isinstance(b, (int, SymInt, float, SymReal)):
        return mkreal(z3.If(t, rterm(a), rterm(b)))
    raise Unsupported("ite over %r/%r" % (type(a), type(b)))


# ------------------------------------------------------------------------------------------------ numbers
def iterm(v):
    if isinstance(v, SymInt):
        return v.t
    if isinstance(v, SymBool):
        return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    raise Unsupported("integer expected: %r" % (v,))


def rterm(v):
    if isinstance(v, SymReal):
        return v.t
    if isinstance(v, SymInt):
        return z3.ToReal(v.t)
    if isinstance(v, SymBool):
        return z3.If(v.t, z3.RealVal(1), z3.RealVal(0))
    if isinstance(v, float):
        from fractions import Fraction
        if v != v or v in (float("inf"), float("-inf")):
            raise Unsupported("non-finite float")
        fr = Fraction(v)
        # decimal literals are taken at their decimal value (floats are treated as reals)
        fr = Fraction(repr(v))
        return z3.RealVal("%d/%d" % (fr.numerator, fr.denominator))
    if isinstance(v, int):
        return z3.RealVal(v)
    raise Unsupported("number expected: %r" % (v,))


def mkint(t):
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return SymInt(t)


def mkreal(t):
    t = z3.simplify(t)
    return SymReal(t)


NUM = (int, float)


class _Num(Sym):
    __slots__ = ()

    def __bool__(self):
        return eng().branch(self.t != 0)

    def _cmp(self, o, op):
        if isinstance(o, (bool, int, SymInt, SymBool)) and isinstance(self, SymInt):
            return mkbool(op(self.t, iterm(o)))
        if isinstance(o, (bool, int, SymInt, SymBool, float, SymReal)):
            if isinstance(o, float) and o in (float("inf"), float("-inf")):
                return op(0, o)
            return mkbool(op(rterm(self), rterm(o)))
        return NotImplemented

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        if r is NotImplemented:
            if isinstance(o, Sym) and isinstance(o, Opaque):
                return o == self
            return False
        return r

    def __ne__(self, o):
        return not_(self == o)

    __hash__ = Sym.__hash__

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def _bin(self, o, op, rev=False):
        if isinstance(o, (bool, int, SymInt, SymBool)) and isinstance(self, SymInt):
            a, b = self.t, iterm(o)
            if rev:
                a, b = b, a
            return mkint(op(a, b))
        if isinstance(o, (bool, int, SymInt, SymBool, float, SymReal)):
            a, b = rterm(self), rterm(o)
            if rev:
                a, b = b, a
            eng().assumed.add("floating-point arithmetic is treated as exact real arithmetic")
            return mkreal(op(a, b))
        return NotImplemented

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._bin(o, lambda a, b: a * b, True)

    def __neg__(self):
        return self * -1

    def __pos__(self):
        return self

    def __abs__(self):
        if isinstance(self, SymInt):
            return mkint(z3.If(self.t >= 0, self.t, -self.t))
        return mkreal(z3.If(self.t >= 0, self.t, -self.t))

    def _div(self, o, rev=False):
        if not isinstance(o, (bool, int, SymInt, SymBool, float, SymReal)):
            return NotImplemented
        a, b = rterm(self), rterm(o)
        if rev:
            a, b = b, a
        if eng().branch(b == 0):
            raise ZeroDivisionError("division by zero")
        eng().assumed.add("floating-point arithmetic is treated as exact real arithmetic")
        return mkreal(a / b)

    def __truediv__(self, o):
        return self._div(o)

    def __rtruediv__(self, o):
        return self._div(o, True)

    def _fdiv(self, o, rev=False, mod=False):
        if isinstance(self, SymInt) and isinstance(o, (bool, int, SymInt, SymBool)):
            a, b = self.t, iterm(o)
            if rev:
                a, b = b, a
            if eng().branch(b == 0):
                raise ZeroDivisionError("integer division or modulo by zero")
            if eng().branch(b > 0):
                return mkint(a % b if mod else a / b)
            # python floors: use the mirrored positive divisor
            q = (-a) / (-b)
            return mkint(a - b * q) if mod else mkint(q)
        if isinstance(o, (bool, int, SymInt, SymBool, float, SymReal)):
            a, b = rterm(self), rterm(o)
            if rev:
                a, b = b, a
            if eng().branch(b == 0):
                raise ZeroDivisionError("float modulo")
            q = z3.ToReal(floor_t(a / b))
            return mkreal(a - b * q) if mod else mkreal(q)
        return NotImplemented

    def __floordiv__(self, o):
        return self._fdiv(o)

    def __rfloordiv__(self, o):
        return self._fdiv(o, True)

    def __mod__(self, o):
        return self._fdiv(o, mod=True)

    def __rmod__(self, o):
        return self._fdiv(o, True, mod=True)

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __pow__(self, o):
        if isinstance(o, int) and not isinstance(o, bool) and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = r * self
            return r
        raise Unsupported("symbolic power")

    def __rpow__(self, o):
        raise Unsupported("symbolic power")


class SymInt(_Num):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    __hash__ = Sym.__hash__

    def __and__(self, o):
        if isinstance(o, int) and o > 0 and (o & (o + 1)) == 0:
            return mkint(self.t % (o + 1))
        raise Unsupported("bit operation on symbolic int")
    __rand__ = __and__

    def __or__(self, o):
        raise Unsupported("bit operation on symbolic int")
    __ror__ = __xor__ = __rxor__ = __invert__ = __or__

    def __rshift__(self, o):
        if isinstance(o, int) and o >= 0:
            return self // (1 << o)
        raise Unsupported("shift")

    def __lshift__(self, o):
        if isinstance(o, int) and o >= 0:
            return self * (1 << o)
        raise Unsupported("shift")

    def __index__(self):
        raise Unsupported("symbolic int used as a native index")

    def __int__(self):
        raise Unsupported("native int() of a symbolic int")

    def __float__(self):
        raise Unsupported("native float() of a symbolic int")

    def __repr__(self):
        return "SymInt(%s)" % self.t.sexpr()


class SymReal(_Num):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    __hash__ = Sym.__hash__

    def __int__(self):
        raise Unsupported("native int() of a symbolic float")

    def __float__(self):
        raise Unsupported("native float() of a symbolic float")

    def __repr__(self):
        return "SymReal(%s)" % self.t.sexpr()


def int_ratio(t):
    """(integer term N, positive integer q) with t == N/q, for t linear in integer terms, else None"""
    from fractions import Fraction
    acc = {}

    def add(x, c):
        k = x.decl().kind()
        if z3.is_rational_value(x):
            return acc_add(None, None, c * Fraction(x.numerator_as_long(), x.denominator_as_long()))
        if k == z3.Z3_OP_TO_REAL:
            a = x.arg(0)
            if z3.is_int_value(a):
                return acc_add(None, None, c * a.as_long())
            return acc_add(a.get_id(), a, c)
        if k == z3.Z3_OP_ADD:
            return all(add(y, c) for y in x.children())
        if k == z3.Z3_OP_SUB:
            ch = x.children()
            return add(ch[0], c) and all(add(y, -c) for y in ch[1:])
        if k == z3.Z3_OP_UMINUS:
            return add(x.arg(0), -c)
        if k == z3.Z3_OP_MUL:
            f, rest = Fraction(1), []
            for y in x.children():
                y = z3.simplify(y)
                if z3.is_rational_value(y):
                    f *= Fraction(y.numerator_as_long(), y.denominator_as_long())
                else:
                    rest.append(y)
            if len(rest) == 0:
                return acc_add(None, None, c * f)
            return len(rest) == 1 and add(rest[0], c * f)
        if k == z3.Z3_OP_DIV:
            y = z3.simplify(x.arg(1))
            return z3.is_rational_value(y) and add(x.arg(0), c / Fraction(y.numerator_as_long(), y.denominator_as_long()))
        return False

    def acc_add(key, a, c):
        o = acc.get(key, (a, Fraction(0)))
        acc[key] = (a, o[1] + c)
        return True
    if not add(t, Fraction(1)):
        return None
    q = 1
    for a, c in acc.values():
        q = q * c.denominator // __import__("math").gcd(q, c.denominator)
    n = z3.IntVal(0)
    for a, c in acc.values():
        n = n + (z3.IntVal(int(c * q)) * a if a is not None else z3.IntVal(int(c * q)))
    return z3.simplify(n), q


def floor_t(t):
    """floor of a real term, in integer arithmetic where possible"""
    r = int_ratio(t)
    if r is None:
        return z3.ToInt(t)
    n, q = r
    return n if q == 1 else n / z3.IntVal(q)


def trunc_int(v):
    """int(v) for numbers"""
    if isinstance(v, (SymInt,)):
        return v
    if isinstance(v, SymBool):
        return mkint(iterm(v))
    if isinstance(v, SymReal):
        t = v.t
        r = int_ratio(t)
        if r is not None:
            n, q = r
            if q == 1:
                return mkint(n)
            return mkint(z3.If(n >= 0, n / z3.IntVal(q), -((-n) / z3.IntVal(q))))
        return mkint(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))
    return int(v)


def fresh_int(name, lo=None, hi=None, inp=True):
    e = eng()
    n = e.fresh_name(name)
    t = z3.Int(n)
    if inp:
        e.inputs[n] = t
    if lo is not None:
        e.add_fact(t >= lo)
    if hi is not None:
        e.add_fact(t <= hi)
    return SymInt(t)


def fresh_bool(name):
    e = eng()
    n = e.fresh_name(name)
    t = z3.Bool(n)
    e.inputs[n] = t
    return SymBool(t)


def fresh_real(name, lo=None, hi=None):
    e = eng()
    n = e.fresh_name(name)
    t = z3.Real(n)
    e.inputs[n] = t
    if lo is not None:
        e.add_fact(t >= lo)
    if hi is not None:
        e.add_fact(t <= hi)
    return SymReal(t)


# ------------------------------------------------------------------------------------------------ opaque values
OBJ = z3.DeclareSort("Obj")


class Opaque(Sym):
    """an arbitrary Python object of which only identity and equality matter"""
    __slots__ = ("t", "cls", "attrs", "truth", "call")

    def __init__(self, t, cls=object, attrs=None, truth=None, call=None):
        self.t = t
        self.cls = cls
        self.attrs = attrs
        self.truth = truth
        self.call = call

    def __bool__(self):
        if self.truth is None:
            raise Unsupported("truth value of an opaque object")
        return eng().branch(self.truth) if not isinstance(self.truth, bool) else self.truth

    def __eq__(self, o):
        if isinstance(o, Opaque):
            return mkbool(self.t == o.t)
        return False

    def __ne__(self, o):
        return not_(self == o)

    __hash__ = Sym.__hash__

    def __repr__(self):
        return "Opaque(%s)" % self.t.sexpr()


def fresh_obj(name, cls=object, truth=True, attrs=None, call=None):
    e = eng()
    return Opaque(z3.Const(e.fresh_name(name), OBJ), cls, attrs, truth, call)


class SymEnum(Sym):
    """a symbolic member of an Enum class"""
    __slots__ = ("cls", "members", "i")

    def __init__(self, cls, i, members=None):
        self.cls = cls
        self.members = list(members if members is not None else cls)
        self.i = i

    def is_(self, m):
        if isinstance(m, SymEnum):
            if m.cls is not self.cls:
                return False
            return or_(*[and_(self.is_(x), m.is_(x)) for x in self.cls])
        return or_(*[mkbool(self.i == k) for k, x in enumerate(self.members) if x is m])

    def __eq__(self, o):
        return self.is_(o)

    def __ne__(self, o):
        return not_(self.is_(o))

    __hash__ = Sym.__hash__

    def __bool__(self):
        return True

    def _attr(self, f):
        vals = [f(m) for m in self.members]
        if all(isinstance(v, str) for v in vals):
            from .strings import enum_str
            return enum_str(vals, self.i)
        return concretize_enum(self).__class__ and f(concretize_enum(self))

    @property
    def value(self):
        return self._attr(lambda m: m.value)

    @property
    def name(self):
        return self._attr(lambda m: m.name)

    def __repr__(self):
        return "SymEnum(%s,%s)" % (self.cls.__name__, self.i)


def concretize_enum(v):
    if not isinstance(v, SymEnum):
        return v
    for k, m in enumerate(v.members[:-1]):
        if eng().branch(v.i == k):
            return m
    return v.members[-1]


def fresh_enum(name, cls, members=None):
    members = list(members if members is not None else cls)
    if len(members) == 1:
        return members[0]
    i = fresh_int(name, 0, len(members) - 1)
    return SymEnum(cls, i.t, members)


# ------------------------------------------------------------------------------------------------ sequences
class Gone(object):
    """an element that a loop has modified"""

    def __init__(self, why):
        object.__setattr__(self, "why", why)

    def __getattribute__(self, n):
        if n in ("__class__", "why"):
            return object.__getattribute__(self, n)
        raise Unsupported("use of an element that a summarised loop has modified")

    def _no(self, *a, **k):
        raise Unsupported("use of an element that a summarised loop has modified")
    __bool__ = __eq__ = __ne__ = __lt__ = __gt__ = __le__ = __ge__ = __iter__ = __len__ = __call__ = __getitem__ = _no
    __hash__ = object.__hash__


class Seg(object):
    """a symbolic run of n elements; get(i) gives the i-th"""

    def __init__(self, tag, n, getter, distinct=None):
        self.tag = tag
        self.n = n                  # int | SymInt, n >= 0 known
        self.getter = getter
        self.cache = {}
        self.cache_gen = None
        self.uses = []              # index terms introduced
        self.facts = []             # universal facts: fn(seg, i) -> cond
        self.pairfacts = []
        self.only = None            # set while/after a loop whose iterations modify their element

    def get(self, i):
        v = self.fetch(i)
        if self.only is not None:
            cut, k = self.only
            if cut is None:
                return Gone(k)
            if not eng().known(iterm(k) == iterm(i)):
                raise Unsupported("another element of a sequence whose elements the loop modifies")
        return v

    def fetch(self, i):
        it = iterm(i)
        it = z3.simplify(it)
        key = it.get_id()
        e = eng()
        if key in self.cache:
            return self.cache[key][1]
        pos, s0, k0 = len(e.log), e.serial, len(e.keep)
        v = self.getter(mkint(it))
        # what a getter builds existed before: forget its construction writes
        if len(e.log) > pos:
            e.log[pos:] = [x for x in e.log[pos:] if e.births.get(id(getattr(x[1], "o", x[1])), 0) <= s0]
        for o in e.keep[k0:]:
            e.births[id(o)] = 0
        self.cache[key] = (it, v)
        for f in self.pairfacts:
            for jt in self.uses:
                e.add_fact(to_bool_term(f(self, mkint(it), mkint(jt))))
        self.uses.append(it)
        for f in list(self.facts):
            c = f(self, mkint(it))
            e.add_fact(to_bool_term(c))
        return v

    def forall(self, fact):
        """register the (assumed) universal fact and instantiate it at every index in use"""
        self.facts.append(fact)
        for it in list(self.uses):
            eng().add_fact(to_bool_term(fact(self, mkint(it))))

    def forall_pairs(self, fact):
        self.pairfacts.append(fact)
        u = list(self.uses)
        for a in range(len(u)):
            for b in range(a):
                eng().add_fact(to_bool_term(fact(self, mkint(u[a]), mkint(u[b]))))

    def __repr__(self):
        return "Seg(%s)" % self.tag


def uses_of(seg):
    """indices in use in the sequence a loop ran over, as indices of what it produced one by one"""
    out = list(seg.uses)
    b = getattr(seg, "base", None)
    if b is not None:
        out += uses_of(b)
    src = getattr(seg, "source", None)
    if src is not None and src[2] is None and src[0].dom is not None:
        out += uses_of(src[0].dom)
    return list({t.get_id(): t for t in out}.values())


def with_base(seg, base):
    seg.base = base
    return seg


def val_eq(a, b):
    """a == b as the program would compute it, for element comparison; returns bool/SymBool"""
    if a is b:
        return True
    if isinstance(a, (tuple,)) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return and_(*[val_eq(x, y) for x, y in zip(a, b)])
    r = a == b
    if r is NotImplemented:
        return False
    return r


class PList(object):
    """list object of the interpreted program: concrete elements and symbolic segments"""

    def __init__(self, items=()):
        self.parts = list(items)      # each part: element, or Seg
        eng().new_serial(self)

    # -- logging of mutations
    def _set(self, newparts):
        old = self.parts

        def undo():
            self.parts = old

        def redo():
            self.parts = newparts
        eng().write((id(self), "items"), self, undo, redo)

    def concrete(self):
        return not any(isinstance(p, Seg) for p in self.parts)

    def require_concrete(self, what):
        if not self.concrete():
            raise Unsupported("%s on a list of unknown length" % what)

    def length(self):
        n = 0
        for p in self.parts:
            n = n + (p.n if isinstance(p, Seg) else 1)
        return n

    def append(self, x):
        self._set(self.parts + [x])

    def extend(self, xs):
        self._set(self.parts + seq_parts(xs))

    def insert(self, i, x):
        if isinstance(i, int) and i == 0:
            self._set([x] + self.parts)
            return
        self.require_concrete("insert")
        p = list(self.parts)
        p.insert(i, x)
        self._set(p)

    def clear(self):
        self._set([])

    def copy(self):
        return PList(self.parts)

    def index_part(self, i):
        """value at index i (may fork)"""
        e = eng()
        n = self.length()
        if isinstance(i, int) and not isinstance(i, bool):
            if self.concrete():
                return self.parts[i]
            if i >= 0:
                # walk concrete prefix
                k = i
                for p in self.parts:
                    if isinstance(p, Seg):
                        break
                    if k == 0:
                        return p
                    k -= 1
            else:
                k = -i
                for p in reversed(self.parts):
                    if isinstance(p, Seg):
                        break
                    k -= 1
                    if k == 0:
                        return p
        it = iterm(i)
        nt = iterm(n)
        if not e.branch(z3.And(it >= -nt, it < nt)):
            raise IndexError("list index out of range")
        if e.branch(it < 0):
            it = it + nt
        off = z3.IntVal(0)
        for idx, p in enumerate(self.parts):
            ln = iterm(p.n) if isinstance(p, Seg) else z3.IntVal(1)
            if idx == len(self.parts) - 1 or e.branch(it < off + ln):
                if isinstance(p, Seg):
                    return p.get(mkint(it - off))
                return p
            off = z3.simplify(off + ln)
        raise IndexError("list index out of range")

    def pop(self, i=-1):
        e = eng()
        if self.concrete():
            p = list(self.parts)
            v = p.pop(i)
            self._set(p)
            return v
        if i == 0:
            parts = self.parts
            while parts and isinstance(parts[0], Seg):
                s = parts[0]
                if e.branch(iterm(s.n) > 0):
                    v = s.get(0)
                    n1 = mkint(iterm(s.n) - 1)
                    rest = shift_seg(s, 1, n1)
                    self._set([rest] + parts[1:])
                    return v
                parts = parts[1:]
            if not parts:
                raise IndexError("pop from empty list")
            self._set(parts[1:])
            return parts[0]
        if i == -1:
            parts = self.parts
            while parts and isinstance(parts[-1], Seg):
                s = parts[-1]
                if e.branch(iterm(s.n) > 0):
                    n1 = mkint(iterm(s.n) - 1)
                    v = s.get(n1)
                    rest = shift_seg(s, 0, n1)
                    self._set(parts[:-1] + [rest])
                    return v
                parts = parts[:-1]
            if not parts:
                raise IndexError("pop from empty list")
            self._set(parts[:-1])
            return parts[-1]
        raise Unsupported("pop(%r) on a list of unknown length" % (i,))

    def index(self, x, *bounds):
        if bounds:
            raise Unsupported("list.index with bounds")
        e = eng()
        off = 0
        for p in self.parts:
            if isinstance(p, Seg):
                # either it occurs in this segment, at a first index, or it does not
                if e.choose(2) == 0:
                    i = fresh_int("ix_%s" % p.tag, 0, inp=False)
                    e.assume(z3.And(i.t >= 0, i.t < iterm(p.n)))
                    e.assume(to_bool_term(val_eq(p.get(i), x)))
                    p.forall(lambda s, j, i=i: z3.Implies(z3.And(iterm(j) >= 0, iterm(j) < i.t),
                                                          z3.Not(bt(val_eq(s.get(j), x)))))
                    return i + off
                p.forall(lambda s, j: z3.Implies(z3.And(iterm(j) >= 0, iterm(j) < iterm(s.n)),
                                                 z3.Not(bt(val_eq(s.get(j), x)))))
                off = p.n + off
            else:
                if truth(val_eq(p, x)):
                    return off
                off = off + 1
        raise ValueError("%r is not in list" % (x,))

    def remove(self, x):
        for k, p in enumerate(self.parts):
            if isinstance(p, Seg):
                return self._remove_seg(k, p, x)
            if val_eq(p, x):
                self._set(self.parts[:k] + self.parts[k + 1:])
                return
        raise ValueError("list.remove(x): x not in list")

    def _remove_seg(self, k, seg, x):
        """remove the first occurrence of x from a segment: either it occurs (at a first index) or it does not"""
        e = eng()
        if e.choose(2) == 0:
            i = fresh_int("rm_%s" % seg.tag, 0, inp=False)
            e.assume(z3.And(i.t >= 0, i.t < iterm(seg.n)))
            e.assume(to_bool_term(val_eq(seg.get(i), x)))
            seg.forall(lambda s, j: z3.Implies(z3.And(iterm(j) >= 0, iterm(j) < i.t),
                                               z3.Not(bt(val_eq(s.get(j), x)))))
            left = shift_seg(seg, 0, i)
            right = shift_seg(seg, mkint(i.t + 1), mkint(iterm(seg.n) - i.t - 1))
            self._set(self.parts[:k] + [left, right] + self.parts[k + 1:])
            return
        seg.forall(lambda s, j: z3.Implies(z3.And(iterm(j) >= 0, iterm(j) < iterm(s.n)),
                                           z3.Not(bt(val_eq(s.get(j), x)))))
        rest = PList(self.parts[k + 1:])
        rest.remove(x)
        self._set(self.parts[:k + 1] + rest.parts)

    def __len__(self):
        n = self.length()
        if isinstance(n, int):
            return n
        raise Unsupported("native len() of a list of unknown length")

    def __iter__(self):
        self.require_concrete("native iteration")
        return iter(list(self.parts))

    def __getitem__(self, i):
        from .interp import getitem
        return getitem(self, i)

    def __eq__(self, o):
        if isinstance(o, list):
            o = PList(o)
        if not isinstance(o, PList):
            return False
        if o is self:
            return True
        if self.concrete() and o.concrete():
            if len(self.parts) != len(o.parts):
                return False
            return and_(*[val_eq(a, b) for a, b in zip(self.parts, o.parts)])
        raise Unsupported("== on lists of unknown length")

    def __ne__(self, o):
        return not_(self == o)

    __hash__ = None

    def __bool__(self):
        n = self.length()
        if isinstance(n, int):
            return n > 0
        return eng().branch(iterm(n) > 0)

    def __add__(self, o):
        return PList(self.parts + seq_parts(o))

    def __repr__(self):
        return "PList(%r)" % (self.parts,)


def bt(c):
    c = to_bool_term(c)
    return z3.BoolVal(c) if isinstance(c, bool) else c


def shift_seg(seg, off, n):
    s = Seg(seg.tag, n, None)
    s.base = seg
    if isinstance(off, int) and off == 0:
        s.getter = lambda i: seg.get(i)
    else:
        s.getter = lambda i: seg.get(mkint(iterm(i) + iterm(off)))
    s.off = off
    return s


def seq_parts(xs):
    """parts of an iterable (list of elements / Seg)"""
    if isinstance(xs, PList):
        return list(xs.parts)
    if isinstance(xs, PView):
        return xs.view_parts()
    if isinstance(xs, (list, tuple)):
        return list(xs)
    if isinstance(xs, PDict):
        return xs.keys_view().view_parts()
    if isinstance(xs, PIter):
        return xs.take_rest()
    if isinstance(xs, str):
        return list(xs)
    if isinstance(xs, Sym):
        from .strings import SymStr
        if isinstance(xs, SymStr):
            raise Unsupported("iteration over a symbolic string")
        raise Unsupported("iteration over %r" % (xs,))
    if hasattr(xs, "pv_parts"):
        return xs.pv_parts()
    return list(xs)


class PView(object):
    """a lazily evaluated view (dict keys/values/items, range, enumerate, zip, reversed, sorted, map...)"""

    def __init__(self, fn, kind="view"):
        self.fn = fn
        self.kind = kind

    def view_parts(self):
        return list(self.fn())

    def __iter__(self):
        ps = self.view_parts()
        if any(isinstance(p, Seg) for p in ps):
            raise Unsupported("native iteration over a view of unknown length")
        return iter(ps)

    def __bool__(self):
        return bool(PList(self.view_parts()))

    def __len__(self):
        return len(PList(self.view_parts()))


class PIter(object):
    """iterator object / evaluated generator"""

    def __init__(self, parts):
        self.parts = list(parts)
        eng().new_serial(self)

    def _set(self, new):
        old = self.parts

        def undo():
            self.parts = old

        def redo():
            self.parts = new
        eng().write((id(self), "iter"), self, undo, redo)

    def take_rest(self):
        p = self.parts
        self._set([])
        return p

    def next(self, *default):
        lst = PList(self.parts)
        if not lst:
            if default:
                return default[0]
            raise StopIteration()
        v = lst.pop(0)
        self._set(lst.parts)
        return v

    def __iter__(self):
        ps = self.take_rest()
        if any(isinstance(p, Seg) for p in ps):
            raise Unsupported("native iteration over an iterator of unknown length")
        return iter(ps)

    def __next__(self):
        return self.next()


# ------------------------------------------------------------------------------------------------ dicts
class Layer(object):
    """updates d[key(i)] = val(i) made by a summarised loop, for i in 0..n-1 (later i win)"""

    def __init__(self, seg, n):
        self.seg = seg      # Seg of (key, value) pairs or None when the iteration makes no update
        self.n = n


class LostSeg(Seg):
    """contents lost in a summarised loop"""

    def __init__(self, why):
        self.why = why

    def _no(self, *a):
        raise Unsupported("use of contents lost in a summarised loop (%s)" % self.why)
    n = property(_no)
    get = forall = forall_pairs = _no


class PDict(object):
    """dict object of the interpreted program.
    entries: list of parts, in insertion order: [key, value] pairs or a SymMap (arbitrary further entries)."""

    def __init__(self, *args, **kwargs):
        self.entries = []           # list of (key, value) tuples or SymMap objects
        eng().new_serial(self)
        if args:
            if len(args) > 1:
                raise TypeError("dict expected at most 1 argument")
            self.update(args[0])
        if kwargs:
            self.update(kwargs)

    @staticmethod
    def from_pairs(pairs):
        d = PDict()
        for k, v in pairs:
            d.setitem(k, v)
        return d

    def _set(self, new, what="items"):
        old = self.entries

        def undo():
            self.entries = old

        def redo():
            self.entries = new
        eng().write((id(self), "items"), self, undo, redo)

    def find(self, key):
        """(index, value) of the entry with this key, or None; forks on symbolic equality.
        Latest entry wins is not needed: keys are unique among live entries."""
        _hashable(key)
        for idx in range(len(self.entries) - 1, -1, -1):
            en = self.entries[idx]
            if isinstance(en, SymMap):
                if en.has(key):
                    return idx, en.get(key)
                continue
            k, v = en
            if truth(key_eq(k, key)):
                return idx, v
        return None

    loose = False       # filled by a summarised loop: later entries win over earlier ones with the same key

    def setitem(self, key, value):
        _hashable(key)
        if self.loose:
            self._set(self.entries + [(key, value)])
            return
        for idx in range(len(self.entries) - 1, -1, -1):
            en = self.entries[idx]
            if isinstance(en, SymMap):
                if en.has(key):
                    new = list(self.entries)
                    new[idx] = en.override(key, value)
                    self._set(new)
                    return
                continue
            if truth(key_eq(en[0], key)):
                new = list(self.entries)
                new[idx] = (en[0], value)
                self._set(new)
                return
        self._set(self.entries + [(key, value)])

    def _strict(self, what):
        if not self.loose:
            return
        if len(self.entries) == 1:
            return
        if any(isinstance(e, SymMap) for e in self.entries):
            # entries added by a loop: fine when they cannot clash
            raise Unsupported("%s of a dict filled by a loop" % what)
        d = PDict()
        for k, v in self.entries:
            d.setitem(k, v)
        self._set(d.entries)

    def delitem(self, key):
        self._strict("deletion from")
        r = self.find(key)
        if r is None:
            raise KeyError(key)
        idx, v = r
        en = self.entries[idx]
        new = list(self.entries)
        if isinstance(en, SymMap):
            new[idx] = en.remove(key)
        else:
            del new[idx]
        self._set(new)
        return v

    def _select(self, key):
        """the entry for a text of a few possible values in a table of enumeration members, without a case split"""
        import enum
        p = getattr(key, "parts", None)
        vals = getattr(p[0], "vals", None) if p is not None and len(p) == 1 else None
        if vals is None or len(self.entries) < 2 or self.loose:
            return False
        d = {}
        for en in self.entries:
            if isinstance(en, SymMap) or not isinstance(en[0], str) or not isinstance(en[1], enum.Enum):
                return False
            d[en[0]] = en[1]
        hits = [v for v in vals if v in d]
        if len(set(type(d[v]) for v in hits)) != 1:
            return False
        if len(hits) < len(vals) and not truth(or_(*[p[0].eq_lit(v) for v in set(hits)])):
            return None
        return 0, SymEnum(type(d[hits[0]]), p[0].i, [d.get(v, d[hits[0]]) for v in vals])

    def contains(self, key):
        r = self._select(key)
        return (self.find(key) if r is False else r) is not None

    def getitem(self, key):
        r = self._select(key)
        if r is False:
            r = self.find(key)
        if r is None:
            raise KeyError(key)
        return r[1]

    # methods of dict
    def get(self, key, default=None):
        r = self._select(key)
        if r is False:
            r = self.find(key)
        return default if r is None else r[1]

    def setdefault(self, key, default=None):
        r = self.find(key)
        if r is None:
            self._set(self.entries + [(key, default)])
            return default
        return r[1]

    _nodef = object()

    def pop(self, key, default=_nodef):
        r = self.find(key)
        if r is None:
            if default is PDict._nodef:
                raise KeyError(key)
            return default
        self.delitem(key)
        return r[1]

    def popitem(self):
        if not self.entries:
            raise KeyError("popitem(): dictionary is empty")
        if isinstance(self.entries[-1], SymMap):
            raise Unsupported("popitem")
        k, v = self.entries[-1]
        self._set(self.entries[:-1])
        return k, v

    def clear(self):
        self._set([])

    def copy(self):
        d = PDict()
        d._set(list(self.entries))
        return d

    def update(self, *args, **kwargs):
        if args:
            o = args[0]
            if isinstance(o, PDict):
                for en in o.entries:
                    if isinstance(en, SymMap):
                        if self.entries:
                            self.loose = True
                        self._set(self.entries + [en])
                    else:
                        self.setitem(*en)
            elif isinstance(o, dict):
                for k, v in o.items():
                    self.setitem(k, v)
            else:
                parts = seq_parts(o)
                for p in parts:
                    if isinstance(p, Seg):
                        if self.entries:
                            self.loose = True
                        self._set(self.entries + [LoopMap.of_pairs(p)])
                        continue
                    k, v = seq_parts(p)
                    self.setitem(k, v)
        for k, v in kwargs.items():
            self.setitem(k, v)

    def keys_view(self):
        return PView(lambda: self._strict("iteration") or [en.key_seg() if isinstance(en, SymMap) else en[0] for en in self.entries], "keys")

    def keys(self):
        return self.keys_view()

    def values(self):
        return PView(lambda: self._strict("iteration") or [en.value_seg() if isinstance(en, SymMap) else en[1] for en in self.entries], "values")

    def items(self):
        return PView(lambda: self._strict("iteration") or [en.item_seg() if isinstance(en, SymMap) else (en[0], en[1]) for en in self.entries],
                     "items")

    def concrete(self):
        return not any(isinstance(e, SymMap) for e in self.entries)

    def length(self):
        self._strict("size")
        n = 0
        for en in self.entries:
            n = n + (en.size() if isinstance(en, SymMap) else 1)
        return n

    def __len__(self):
        n = self.length()
        if isinstance(n, int):
            return n
        raise Unsupported("native len() of a dict of unknown size")

    def __bool__(self):
        n = self.length()
        if isinstance(n, int):
            return n > 0
        return eng().branch(iterm(n) > 0)

    def __iter__(self):
        return iter(self.keys_view())

    def __getitem__(self, key):
        return self.getitem(key)

    def __setitem__(self, key, value):
        self.setitem(key, value)

    def __delitem__(self, key):
        self.delitem(key)

    def __contains__(self, key):
        return self.contains(key)

    def __eq__(self, o):
        if o is self:
            return True
        self._strict("comparison")
        if isinstance(o, dict):
            o = PDict(o)
        if not isinstance(o, PDict):
            return False
        if self.concrete() and o.concrete():
            if len(self.entries) != len(o.entries):
                return False
            for k, v in self.entries:
                r = o.find(k)
                if r is None or not truth(val_eq(v, r[1])):
                    return False
            return True
        raise Unsupported("== on dicts of unknown size")

    def __ne__(self, o):
        return not_(self == o)

    __hash__ = None

    def __repr__(self):
        return "PDict(%r)" % (self.entries,)


def truth(v):
    """truth value (forks)"""
    if v is True or v is False:
        return v
    return bool(v)


def _hashable(k):
    if isinstance(k, (PList, PDict, list, dict)):
        raise TypeError("unhashable type: '%s'" % ("list" if isinstance(k, (PList, list)) else "dict"))


def key_eq(a, b):
    if a is b:
        return True
    if isinstance(a, Sym) or isinstance(b, Sym):
        return val_eq(a, b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return val_eq(a, b)
    try:
        return bool(hash(a) == hash(b) and a == b)
    except TypeError:
        return False


class SymMap(object):
    """an arbitrary finite map: n entries, the i-th has key keyf(i) and value valf(i); keys pairwise distinct.
    overrides / removals made by the program are layered on top."""

    def __init__(self, tag, n, keyf, valf, indexf=None, over=(), removed=()):
        self.tag = tag
        self.n = n
        self.keyf = keyf
        self.valf = valf
        self.indexf = indexf        # key -> index term function (uninterpreted inverse), optional
        self.over = list(over)      # [(key, index, value)]
        self.removed = list(removed)    # [(key,index)]
        self.memo = {}
        self.seg = None

    def _clone(self, over=None, removed=None):
        m = SymMap(self.tag, self.n, self.keyf, self.valf, self.indexf,
                   self.over if over is None else over, self.removed if removed is None else removed)
        m.root = self.rootmap()
        return m

    def rootmap(self):
        return getattr(self, "root", self)

    def root_seg(self):
        r = self.rootmap()
        if r.seg is None:
            r.seg = Seg(self.tag, self.n, lambda i: (self.keyf(i), self.valf(i)))
            r.seg.facts.append(lambda s, i: implies_t(in_range(i, s.n), bt(val_eq(
                r.lookup_index(self.keyf(i)), i))) if r.indexf else True)
            if not r.indexf:
                r.seg.pairfacts.append(lambda s, i, j: z3.Or(iterm(i) == iterm(j),
                                                             z3.Not(bt(key_eq(self.keyf(i), self.keyf(j))))))
        return r.seg

    def lookup_index(self, key):
        return self.indexf(key)

    def find_index(self, key):
        """index of key in the root map, or None (forks)"""
        r = self.rootmap()
        e = eng()
        seg = r.root_seg()
        # known entries first
        for it in list(seg.uses):
            k, _ = seg.get(mkint(it))
            if truth(and_(in_range_b(mkint(it), self.n), key_eq(k, key))):
                return mkint(it)
        for k2 in r.memo.values():
            if k2[1] is None and truth(key_eq(k2[0], key)):
                return None
        if e.choose(2) == 0:
            i = fresh_int("ix_%s" % self.tag, inp=False)
            e.assume(z3.And(i.t >= 0, i.t < iterm(self.n)))
            k, _ = seg.get(i)
            e.assume(bt(key_eq(k, key)))
            return i
        seg.forall(lambda s, j: z3.Implies(bt(in_range_b(j, s.n)), z3.Not(bt(key_eq(self.keyf(j), key)))))
        e.assume(True)
        if e._check() == z3.unsat:
            from .engine import PathEnd
            raise PathEnd()
        r.memo[len(r.memo)] = (key, None)
        return None

    def has(self, key):
        for k, i, v in reversed(self.over):
            if truth(key_eq(k, key)):
                return True
        for k, i in self.removed:
            if truth(key_eq(k, key)):
                return False
        return self.find_index(key) is not None

    def get(self, key):
        for k, i, v in reversed(self.over):
            if truth(key_eq(k, key)):
                return v
        i = self.find_index(key)
        return self.rootmap().root_seg().get(i)[1]

    def override(self, key, value):
        i = self.find_index(key)
        return self._clone(over=[o for o in self.over if o[0] is not key] + [(key, i, value)])

    def remove(self, key):
        i = self.find_index(key)
        return self._clone(over=[o for o in self.over if not truth(key_eq(o[0], key))],
                           removed=self.removed + [(key, i)])

    def size(self):
        return mkint(iterm(self.n) - len(self.removed))

    def _item(self, i):
        k, v = self.rootmap().root_seg().get(i)
        for ok, oi, ov in reversed(self.over):
            if truth(mkbool(iterm(oi) == iterm(i))):
                return (k, ov)
        return (k, v)

    def item_seg(self):
        if self.removed:
            raise Unsupported("iteration over an arbitrary dict after deletions")
        return with_base(Seg(self.tag, self.n, self._item), self.rootmap().root_seg())

    def key_seg(self):
        if self.removed:
            raise Unsupported("iteration over an arbitrary dict after deletions")
        return with_base(Seg(self.tag, self.n, lambda i: self._item(i)[0]), self.rootmap().root_seg())

    def value_seg(self):
        if self.removed:
            raise Unsupported("iteration over an arbitrary dict after deletions")
        return with_base(Seg(self.tag, self.n, lambda i: self._item(i)[1]), self.rootmap().root_seg())

    def __repr__(self):
        return "SymMap(%s)" % self.tag


class LoopMap(SymMap):
    """entries written by a summarised loop: iteration i sets key(i) -> val(i); later iterations win"""

    def __init__(self, seg, distinct=False):
        SymMap.__init__(self, seg.tag + ".map", seg.n, lambda i: seg.get(i)[0], lambda i: seg.get(i)[1])
        self.useg = seg
        self.distinct = distinct

    @staticmethod
    def of_pairs(seg):
        pair = with_base(Seg(seg.tag, seg.n, lambda i: tuple(seq_parts(seg.get(i)))), seg)
        return LoopMap(pair)

    def _clone(self, over=None, removed=None):
        m = SymMap._clone(self, over, removed)
        m.__class__ = LoopMap
        m.useg = self.useg
        m.distinct = self.distinct
        return m

    def root_seg(self):
        r = self.rootmap()
        if r.seg is None:
            r.seg = with_base(Seg(self.tag, self.n, lambda i: self.useg.get(i)), self.useg)
        return r.seg

    def find_index(self, key):
        r = self.rootmap()
        e = eng()
        seg = r.root_seg()
        for idx, (k2, i2) in r.memo.items():
            if truth(key_eq(k2, key)):
                return i2
        if e.choose(2) == 0:
            # the last iteration that wrote this key
            i = fresh_int("ix_%s" % self.tag, inp=False)
            e.assume(z3.And(i.t >= 0, i.t < iterm(self.n)))
            k, _ = seg.get(i)
            e.assume(bt(key_eq(k, key)))
            seg.forall(lambda s, j: z3.Implies(z3.And(iterm(j) > i.t, iterm(j) < iterm(s.n)),
                                               z3.Not(bt(key_eq(s.get(j)[0], key)))))
            r.memo[len(r.memo)] = (key, i)
            return i
        seg.forall(lambda s, j: z3.Implies(bt(in_range_b(j, s.n)), z3.Not(bt(key_eq(s.get(j)[0], key)))))
        for it in uses_of(r.useg):
            if e.known(z3.And(it >= 0, it < iterm(self.n))):
                seg.get(mkint(it))
        if e._check() == z3.unsat:
            from .engine import PathEnd
            raise PathEnd()
        r.memo[len(r.memo)] = (key, None)
        return None

    def _check_distinct(self):
        """iterations write pairwise different keys?"""
        if self.distinct:
            return
        e = eng()
        seg = self.rootmap().root_seg()
        a, b = fresh_int("da", 0, inp=False), fresh_int("db", 0, inp=False)
        if not e.branch(iterm(self.n) >= 2):
            return
        e.assume(z3.And(a.t < b.t, b.t < iterm(self.n)))
        ok = e.known(z3.Not(bt(key_eq(seg.get(a)[0], seg.get(b)[0]))))
        if not ok:
            raise Unsupported("dict filled by a loop whose keys may repeat")
        self.distinct = True

    def size(self):
        self._check_distinct()
        return SymMap.size(self)

    def item_seg(self):
        self._check_distinct()
        return SymMap.item_seg(self)

    def key_seg(self):
        self._check_distinct()
        return SymMap.key_seg(self)

    def value_seg(self):
        self._check_distinct()
        return SymMap.value_seg(self)


class LostMap(SymMap):
    def __init__(self, why):
        self.why = why

    def _no(self, *a, **k):
        raise Unsupported("use of contents lost in a summarised loop (%s)" % self.why)
    has = get = override = remove = size = item_seg = key_seg = value_seg = _no


def in_range(i, n):
    return z3.And(iterm(i) >= 0, iterm(i) < iterm(n))


def in_range_b(i, n):
    return mkbool(in_range(i, n))


def implies_t(a, b):
    return z3.Implies(a, b)


class AnyError(Exception):
    """an error of any class derived from Exception: which classes it belongs to, and its truth value, are decided (and all
    possibilities explored) when the code asks"""

    def is_a(self, t):
        if issubclass(AnyError, t):
            return True
        if not issubclass(t, Exception) or t is AnyError:
            return False
        known = self.__dict__.setdefault("_is_a", {})
        for c, v in known.items():
            if v and issubclass(c, t):
                return True
            if not v and issubclass(t, c):
                return False
        known[t] = bool(eng().choose(2))
        return known[t]

    def _other(self, n):
        if n not in self.__dict__:
            self.__dict__[n] = None if not eng().choose(2) else AnyError("an earlier error")
        return self.__dict__[n]

    __cause__ = property(lambda self: self._other("_cause"), lambda self, v: self.__dict__.__setitem__("_cause", v))
    __context__ = property(lambda self: self._other("_context"), lambda self, v: self.__dict__.__setitem__("_context", v))

    def __bool__(self):
        if "_truth" not in self.__dict__:
            self.__dict__["_truth"] = not eng().choose(2)
        return self.__dict__["_truth"]

    def __getattr__(self, n):
        if n in ("errno", "strerror", "filename", "code", "msg", "name", "value", "reason", "returncode"):
            raise Unsupported("attribute %s of an arbitrary error" % n)
        raise AttributeError(n)
