# -*- coding: utf-8 -*-
"""what contract modules use"""
import ast
import datetime as pydt

import z3

from .engine import eng, Unsupported, PathEnd, Restart, Signal, OutOfTime
from .harness import harness
from .values import *       # noqa
from .values import (truth, val_eq, bt, fresh_int, fresh_bool, fresh_real, fresh_obj, fresh_enum, SymMap, LoopMap, Seg, PList,
                     PDict, and_, or_, not_, implies, ite, mkint, mkbool, mkreal, iterm, rterm, in_range, in_range_b,
                     concretize_enum, seq_parts, key_eq, AnyError)
from .strings import SymStr, fresh_str, mk, str_fun, num, Num, Fun, str_eq, Atom, SymBytes, enum_str
from . import dt
from .loops import position, loop_instance, produced, touch, follow, whole
from .dt import SymDT, SymDate, SymTime, SymTD, mkdt, mkdate, mktime, mktd, dt_us, date_ord, time_us, td_us, D, EPOCH


def prove(name, cond, detail=""):
    return eng().prove(name, cond, detail)


def assume(c):
    eng().assume(c)


def fact(c):
    eng().add_fact(c)


def cover(label):
    eng().cover(label)


def fail(name, detail=""):
    eng().fail(name, detail)


def iff(a, b):
    return and_(implies(a, b), implies(b, a))


def choose(n):
    return eng().choose(n)


def catch(I, f, *a, **k):
    """(result, exception)"""
    try:
        return I.call(f, list(a), k), None
    except Signal:
        raise
    except BaseException as e:      # noqa
        return None, e


def less(I, a, b):
    return I.compare(ast.Lt(), a, b)


def fresh_dt(name):
    """an arbitrary naive instant between 1971 and 2099, in microseconds"""
    u = fresh_int(name + "_us", 365 * D, 47000 * D)
    return SymDT(u)


def fresh_date(name):
    o = fresh_int(name + "_ord", EPOCH + 365, EPOCH + 47000)
    return SymDate(o)


def fresh_time(name, sub=False):
    h, m, s = fresh_int(name + "_h", 0, 23), fresh_int(name + "_m", 0, 59), fresh_int(name + "_s", 0, 59)
    u = fresh_int(name + "_u", 0, 999999) if sub else 0
    return mktime(h, m, s, u)


class Cell(object):
    """ghost variables of a harness: their values are tracked through summarised loops like program variables"""


def cell(I, name, **init):
    c = Cell()
    e = eng()
    c.__dict__.update(init)
    e.new_serial(c)
    e.ghost["cell_" + name] = c
    return c


def put(I, c, name, value):
    I.store_attr(c, name, value)


def witness(r, base, j):
    """let the solver consider the place, in the dict r filled by loops over the sequence `base`, of what stems from
    element j"""
    for en in r.entries:
        if isinstance(en, LoopMap):
            p = position(en.useg, base, j)
            if p is not None:
                en.root_seg().get(p)
