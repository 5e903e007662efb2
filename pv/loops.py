# -*- coding: utf-8 -*-
"""Loops over an unknown number of iterations are verified by induction.

A loop is cut: one path verifies an arbitrary iteration k from the summarised state S(k), the other continues after the
loop from S(n).  S is a loop invariant made of one clause per location the body writes:
    same        never changes
    linear      entry value + k * constant
    append      entry list ++ the elements appended by the iterations 0..k-1 (obtained lazily by executing iteration j)
    update      entry dict, then the items set by the iterations 0..k-1
    havoc       an arbitrary value of the same type
    lost        unusable (reading it is an error of the machinery, never silently assumed)
The clauses start as strong as possible and are weakened until every iteration path re-establishes S(k+1).  A harness
can supply an invariant of its own for the loop over a given sequence (by the sequence's tag)."""
import ast
import types

import z3

from .engine import eng, Unsupported, PathEnd, Restart, Signal, CUR
from . import values as V
from .values import (Sym, SymBool, SymInt, SymReal, Seg, PList, PDict, PView, PIter, SymMap, LoopMap, mkint, mkreal, mkbool,
                     iterm, rterm, bterm, val_eq, truth, bt, fresh_int)


class Poison(object):
    def __init__(self, why):
        self.why = why

    def _no(self, *a, **k):
        raise Unsupported("use of a value lost in a summarised loop (%s)" % self.why)
    __bool__ = __eq__ = __ne__ = __lt__ = __gt__ = __le__ = __ge__ = __iter__ = __len__ = __call__ = _no
    __hash__ = object.__hash__


_UNB = object()


class _Weakened(Exception):
    """a location is not what it was taken for"""


class LoopInfo(object):
    def __init__(self):
        self.cut = False
        self.kinds = {}         # location path -> kind
        self.consumes = False   # iterations modify the element they are about


def assigned_names(body, fi=None):
    """names bound by the statements (not inside nested functions/classes)"""
    names = set()

    def target(t):
        if isinstance(t, ast.Name):
            names.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                target(x)
        elif isinstance(t, ast.Starred):
            target(t.value)

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(n.name)
            for d in n.decorator_list:
                visit(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, ast.Assign):
            for t in n.targets:
                target(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            target(n.target)
        elif isinstance(n, (ast.For, ast.AsyncFor)):
            target(n.target)
        elif isinstance(n, ast.With):
            for i in n.items:
                if i.optional_vars is not None:
                    target(i.optional_vars)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, ast.NamedExpr):
            target(n.target)
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                target(t)
        elif isinstance(n, ast.Global) and fi is not None:
            fi.globs |= set(n.names)
        elif isinstance(n, ast.Nonlocal) and fi is not None:
            fi.nonloc |= set(n.names)
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # only walrus targets escape
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    target(c.target)
            return
        for c in ast.iter_child_nodes(n):
            visit(c)
    for s in body:
        visit(s)
    return names


# ------------------------------------------------------------------------------------------------ locations
def find_path(fr, interp, want):
    """an access path (deterministic across re-executions) from the loop's frame to the object with id `want`"""
    seen = set()
    queue = []

    def push(path, o):
        if id(o) in seen:
            return
        if isinstance(o, (int, float, str, bytes, bool, type(None))) or isinstance(o, type) and not getattr(
                o, "__pv__", False):
            return
        seen.add(id(o))
        queue.append((path, o))

    f, i = fr, 0
    while f is not None:
        if id(f.locals) == want:
            return (("F", i),)
        if f.yields is not None:
            push((("Y", i),), f.yields)
        for k in list(f.locals):
            if f.kind == "module":
                break
            push((("L", i, k),), f.locals[k])
        f = f.parent
        i += 1
    for k in sorted(eng().ghost, key=str):
        if isinstance(k, str):
            push((("H", k),), eng().ghost[k])
    for mname in sorted(interp.modules):
        for k, v in list(interp.modules[mname].__dict__.items()):
            if not k.startswith("__"):
                push((("G", mname, k),), v)
    n = 0
    while queue:
        path, o = queue.pop(0)
        if id(o) == want:
            return path
        n += 1
        if n > 20000 or len(path) > 12:
            continue
        for step, c in children(o):
            push(path + (step,), c)
    return None


def children(o):
    if isinstance(o, PDict):
        for en in o.entries:
            if isinstance(en, tuple) and isinstance(en[0], (str, int, type)):
                yield ("K", en[0]), en[1]
        if type(o) is PDict:
            return
    if isinstance(o, PList):
        for i, p in enumerate(o.parts):
            if not isinstance(p, (Sym, Seg)):
                yield ("I", i), p
        if type(o) is PList:
            return
    if isinstance(o, tuple):
        for i, p in enumerate(o):
            yield ("I", i), p
        return
    if isinstance(o, dict):
        for k, p in list(o.items()):
            if isinstance(k, (str, int)):
                yield ("D", k), p
        return
    if isinstance(o, types.MethodType):
        yield ("S",), o.__self__
        return
    if type(o).__name__ == "IFunc":
        f = o.fr
        if f.kind != "module":
            for k, v in list(f.locals.items()):
                yield ("C", k), v
        return
    if isinstance(o, types.ModuleType):
        return
    if isinstance(o, type):
        for k, v in list(o.__dict__.items()):
            if not k.startswith("__") and not type(v).__name__ == "IFunc":
                yield ("A", k), v
        return
    d = getattr(o, "__dict__", None)
    if isinstance(d, dict) and not isinstance(o, (Sym, PView)):
        for k, v in list(d.items()):
            yield ("A", k), v


def resolve(path, fr, interp):
    try:
        o = None
        for st in path:
            t = st[0]
            if t in ("F", "L"):
                f = fr
                for _ in range(st[1]):
                    f = f.parent
                o = f.locals if t == "F" else f.locals[st[2]]
            elif t == "Y":
                f = fr
                for _ in range(st[1]):
                    f = f.parent
                o = f.yields
            elif t == "H":
                o = eng().ghost[st[1]]
            elif t == "G":
                o = interp.modules[st[1]].__dict__[st[2]]
            elif t == "K":
                for en in o.entries:
                    if isinstance(en, tuple) and isinstance(en[0], (str, int, type)) and en[0] == st[1]:
                        o = en[1]
                        break
                else:
                    return None
            elif t == "I":
                o = (o.parts if isinstance(o, PList) else o)[st[1]]
            elif t == "D":
                o = o[st[1]]
            elif t == "S":
                o = o.__self__
            elif t == "C":
                o = o.fr.locals[st[1]]
            elif t == "A":
                o = o.__dict__[st[1]]
        return o
    except (KeyError, IndexError, AttributeError):
        return None


# ------------------------------------------------------------------------------------------------ one cut loop
class Cut(object):
    """one dynamic instance of a cut loop"""

    def __init__(self, interp, node, fr, one, stmts, target, n, tag, cond, info):
        e = eng()
        self.interp, self.node, self.fr, self.one = interp, node, fr, one
        self.n, self.tag, self.cond, self.info = n, tag, cond, info
        self.names = assigned_names(stmts) if stmts else set()
        if target is not None:
            fake = ast.For(target=target, iter=None, body=[], orelse=[])
            self.names |= assigned_names([fake])
        self.serial = e.serial
        self.logpos = len(e.log)
        self.entry = fr.clone()
        self.entry_lists = {}
        self.fresh0 = dict(e.fresh_n)
        self.funs = {}
        self.done = {}
        self.active = set()
        self.weakened = False
        self.targets = assigned_names([ast.For(target=target, iter=None, body=[], orelse=[])]) if target is not None \
            else set()
        for n in self.names - self.targets:
            if n not in fr.locals:
                info.kinds.setdefault(("local", n), ("lost",))      # bound by an iteration only

    def old(self, obj):
        return eng().birth(obj) <= self.serial

    # -- applying the summary
    def fun(self, key, sort):
        if key not in self.funs:
            nm = eng().fresh_name("lp_%s" % key)
            self.funs[key] = z3.Function(nm, z3.IntSort(), sort)
        return self.funs[key]

    def apply(self, k, fr):
        """establish S(k) in frame fr (a clone of the entry frame) and the heap (currently in the entry state)"""
        for name in sorted(self.targets):
            fr.locals[name] = Poison("loop variable %s" % name)
        for path, kind in sorted(self.info.kinds.items(), key=repr):
            self.apply_one(path, kind, k, fr)

    def apply_one(self, path, kind, k, fr):
        e = eng()
        where = path[0]
        if where == "local":
            name = path[1]
            v0 = self.entry.locals.get(name, _UNB)
            v = self.summary_value(path, kind, v0, k)
            if v is _UNB:
                fr.locals.pop(name, None)
            else:
                fr.locals[name] = v
            return
        obj = resolve(path[1], fr if path[1] and path[1][0][0] != "L" else self.entry, self.interp)
        if obj is None:
            return
        if where == "items":
            if isinstance(obj, PList):
                obj._set(self.list_parts(path, kind, obj, k))
            elif isinstance(obj, PDict):
                obj._set(self.dict_entries(path, kind, obj, k))
            return
        if where == "attr":
            d = obj.__dict__
            v0 = d.get(path[2], _UNB)
            v = self.summary_value(path, kind, v0, k, obj)
            self.interp.store_attr(obj, path[2], v) if not isinstance(obj, dict) else None
            return
        if where == "var":
            v = self.summary_value(path, kind, obj.get(path[2], _UNB), k)
            name = path[2]
            old = obj.get(name, _UNB)

            def undo():
                obj[name] = old

            def redo():
                obj[name] = v
            e.write((id(obj), name), None, undo, redo)
            return
        if where == "glob":
            m = self.interp.modules.get(path[1])
            if m is not None:
                from .interp import Frame
                v = self.summary_value(path, kind, m.__dict__.get(path[2], _UNB), k)
                self.interp.store_global(path[2], v, Frame(m.__dict__))

    def summary_value(self, path, kind, v0, k, obj=None):
        from . import dt
        from .strings import SymStr, str_of_term
        t = kind[0]
        if t == "same":
            return v0
        if t == "lost":
            return Poison(str(path[-1]))
        if t == "linear":
            c = kind[1]
            if isinstance(v0, (dt.SymDT, dt._dt.datetime)):
                return dt.mkdt(dt.dt_us(v0) + k * c)
            if isinstance(v0, (dt.SymDate, dt._dt.date)):
                return dt.mkdate(dt.date_ord(v0) + k * c)
            if isinstance(v0, (dt.SymTD, dt._dt.timedelta)):
                return dt.mktd(dt.td_us(v0) + k * c)
            return v0 + k * c
        if t == "havoc":
            ty = kind[1]
            key = repr(path)
            if ty == "int":
                v = mkint(self.fun(key, z3.IntSort())(iterm(k)))
                if type(obj).__name__ == "Clock" and isinstance(v0, (int, SymInt)):
                    eng().add_fact(iterm(v) >= iterm(v0))
                return v
            if ty == "bool":
                return mkbool(self.fun(key, z3.BoolSort())(iterm(k)))
            if ty == "real":
                return mkreal(self.fun(key, z3.RealSort())(iterm(k)))
            if ty == "dt":
                return dt.mkdt(mkint(self.fun(key, z3.IntSort())(iterm(k))))
            if ty == "date":
                return dt.mkdate(mkint(self.fun(key, z3.IntSort())(iterm(k))))
            if ty == "str":
                return str_of_term("lp", self.fun(key, z3.StringSort())(iterm(k)))
        raise Unsupported("summary %r" % (kind,))

    def list_parts(self, path, kind, obj, k):
        if kind[0] == "same":
            return obj.parts
        if kind[0] == "lost":
            return [V.LostSeg(str(path))]
        base = list(obj.parts)
        counts = kind[1]
        if counts == frozenset([1]):
            seg = Seg("%s.out" % (self.tag,), k, lambda j: self.delta(path, j)[0])
            seg.source = (self, path, None)
            return base + [seg]
        return base + [self.filtered(path, k, lambda d: d[0])]

    def filtered(self, path, k, pick):
        """elements produced by those iterations j<k that produce one"""
        e = eng()
        key = repr(path)
        cnt = self.fun(key + ".cnt", z3.IntSort())
        src = self.fun(key + ".src", z3.IntSort())
        pos = self.fun(key + ".pos", z3.IntSort())
        n = mkint(cnt(iterm(k)))
        e.add_fact(z3.And(iterm(n) >= 0, iterm(n) <= iterm(k)))

        def get(i):
            j = mkint(src(iterm(i)))
            e.add_fact(z3.Implies(z3.And(iterm(i) >= 0, iterm(i) < iterm(n)),
                                  z3.And(iterm(j) >= 0, iterm(j) < iterm(k), pos(iterm(j)) == iterm(i))))
            if not e.branch(z3.And(iterm(i) >= 0, iterm(i) < iterm(n))):
                raise Unsupported("element of a filtered list outside its range")
            d = self.delta(path, j)
            if len(d) != 1:
                raise PathEnd()
            return pick(d)
        seg = Seg("%s.flt" % (self.tag,), n, get)
        seg.pairfacts.append(lambda s, a, b: z3.And(
            z3.Implies(iterm(a) < iterm(b), src(iterm(a)) < src(iterm(b))),
            z3.Implies(iterm(b) < iterm(a), src(iterm(b)) < src(iterm(a)))))
        seg.source = (self, path, (cnt, src, pos, k))
        return seg

    def dict_entries(self, path, kind, obj, k):
        if kind[0] == "same":
            return obj.entries
        if kind[0] == "lost":
            return [V.LostMap(str(path))]
        counts = kind[1]
        obj.loose = True
        if counts == frozenset([1]):
            seg = Seg("%s.upd" % (self.tag,), k, lambda j: self.delta(path, j)[0])
            seg.source = (self, path, None)
        else:
            seg = self.filtered(path, k, lambda d: d[0])
        if isinstance(k, int) and k == 0:
            return obj.entries
        return list(obj.entries) + [LoopMap(seg)]

    # -- executing iteration j on demand
    def delta(self, path, j):
        return self.exec_at(j).get(path, [])

    def exec_at(self, j):
        """effects of iteration j (0 <= j < number of completed iterations): {location: appended elements / set items}"""
        e = eng()
        it = z3.simplify(iterm(j))
        key = it.get_id()
        if key in self.done:
            return self.done[key][1]
        for kk, (jt, val) in list(self.done.items()):
            if e.known(jt == it):
                return val
        if key in self.active:
            raise Unsupported("circular loop summary")
        done = getattr(self, "completed", self.n)
        if done is not None and not e.known(z3.And(it >= 0, it < iterm(done))):
            raise Unsupported("an iteration that need not have taken place")
        self.active.add(key)
        # rewind the heap to the loop entry (old objects only); what an iteration being executed further out has rewound
        # already stays as it is
        keep0 = len(e.keep)
        saved = self._undo_old(self.logpos)
        pos1 = len(e.log)
        fr = self.entry.clone()
        e.quiet += 1
        try:
            self.apply(mkint(it), fr)
            before = self._snapshot(fr)
            self.ops_begin()
            only = self.only(mkint(it))
            try:
                r = self.one(mkint(it), fr)
            except Signal:
                raise
            except BaseException:
                raise PathEnd()
            finally:
                self.only(None, only)
            if r not in (None, "continue"):
                raise PathEnd()
            eff = self._effects(before, fr)
        finally:
            e.quiet -= 1
            self.active.discard(key)
            # restore, also if the iteration turns out not to be understood
            self._drop_tail(pos1)
            self._redo(saved)
        for o in e.keep[keep0:]:
            e.births[id(o)] = 0
        self.done[key] = (it, eff)
        return eff

    def _undo_old(self, pos):
        e = eng()
        saved = []
        tail = e.log[pos:]
        for ent in reversed(tail):
            if self._is_old(ent) and id(ent) not in e.rewound:
                ent[2]()
                saved.append(ent)
                e.rewound.add(id(ent))
        saved.reverse()
        return saved

    def _is_old(self, ent):
        key, obj = ent[0], ent[1]
        if obj is None:
            return True
        o = getattr(obj, "o", obj) if type(obj).__name__ == "AttrLoc" else obj
        return eng().births.get(id(o), 0) <= self.serial

    def _redo(self, saved):
        for ent in saved:
            ent[3]()
            eng().rewound.discard(id(ent))

    def _drop_tail(self, pos):
        """undo the writes to old objects made since log position pos; forget the writes to new objects"""
        e = eng()
        tail = e.log[pos:]
        for ent in reversed(tail):
            if self._is_old(ent):
                ent[2]()
        del e.log[pos:]

    def ops_begin(self):
        pass

    def _tracked(self, fr):
        out = []
        for path, kind in self.info.kinds.items():
            if path[0] == "items" and kind[0] in ("append", "update"):
                obj = resolve(path[1], self.entry, self.interp)
                if obj is not None:
                    out.append((path, kind, obj))
        return out

    def _snapshot(self, fr):
        return [(path, kind, obj, obj.parts if isinstance(obj, PList) else obj.entries)
                for path, kind, obj in self._tracked(fr)]

    def _effects(self, before, fr):
        eff = {}
        for path, kind, obj, b in before:
            now = obj.parts if isinstance(obj, PList) else obj.entries
            eff[path] = list(now[len(b):])
        return eff

    # -- the inductive step
    def step(self):
        e = eng()
        k = fresh_int("k", inp=False)
        e.add_fact(k.t >= 0)
        if self.n is not None:
            e.assume(k.t < iterm(self.n))
        fr = self.fr
        self.apply(k, fr)
        inv = self.invariant()
        if inv is not None:
            inv.assume(k)
        if self.n is None and inv is None and e.branch(k.t > 0):
            self.exec_at(mkint(k.t - 1))        # the previous iteration did not leave the loop
        pos = len(e.log)
        before = {}
        # values at the start of the iteration
        loc0 = dict(fr.locals)
        heads = {}
        for path in self.info.kinds:
            if path[0] == "items":
                obj = resolve(path[1], self.entry, self.interp)
                if obj is not None:
                    heads[id(obj)] = obj.parts if isinstance(obj, PList) else obj.entries
        # first-write values
        only = self.only(k)
        r = self.one(k, fr)
        self.only(None, only)
        if r not in (None, "continue"):
            if self.info.consumes:
                self.dom.only = None, "left"
            self.completed = k
            e.ghost.setdefault("left", []).append(self)
            return r
        self.check_step(k, fr, loc0, pos, heads)
        if inv is not None:
            inv.check(mkint(k.t + 1))
        raise PathEnd()

    def invariant(self):
        """the harness's invariant for loops over this sequence, or over sequences derived from it (`derived`)"""
        if self.n is None:
            for v in self.interp.while_invariants:
                if v.applies(self.fr):
                    return v
        if not isinstance(self.tag, str):
            return None
        v = self.interp.invariants.get(self.tag)
        if v is None:
            v = self.interp.invariants.get(self.tag.split(".")[0])
            if not getattr(v, "derived", False):
                return None
        return v

    def check_step(self, k, fr, loc0, pos, heads):
        e = eng()
        k1 = mkint(k.t + 1)
        inv = self.invariant()
        # locals
        for name in sorted(set(fr.locals) | set(loc0)):
            a, b = loc0.get(name, _UNB), fr.locals.get(name, _UNB)
            if name in self.targets:
                continue
            if a is b and ("local", name) not in self.info.kinds:
                continue
            self.check_loc(("local", name), self.entry.locals.get(name, _UNB), a, b, k, k1)
        # heap
        seen, checked = {}, set()
        for ent in e.log[pos:]:
            if not self._is_old(ent):
                continue
            seen.setdefault(ent[0], []).append(ent)
        for key, ents in seen.items():
            obj = ents[0][1]
            if inv is not None and inv.owns(key, obj):
                continue
            tn = type(obj).__name__
            if isinstance(obj, (PList, PDict)) and find_path(self.entry, self.interp, id(obj)) is None \
                    and self.own_element(obj, k):
                if not self.info.consumes:
                    self.info.consumes = True
                    raise Restart()
                continue
            if isinstance(obj, (PList, PDict)):
                p = self.path_of(obj)
                checked.add(("items", p))
                self.check_items(("items", p), obj, ents, heads)
            elif tn == "AttrLoc":
                o = obj.o
                if isinstance(o, type) or hasattr(o, "__dict__"):
                    p = self.path_of(o)
                    loc = ("attr", p, obj.name)
                    checked.add(loc)
                    now = o.__dict__.get(obj.name, _UNB)
                    ents[-1][2] if False else None
                    first = self.value_before(ents, lambda: o.__dict__.get(obj.name, _UNB))
                    self.check_loc(loc, self.value_at_entry(key, lambda: o.__dict__.get(obj.name, _UNB)), first, now,
                                   k, k1, o)
                else:
                    raise Unsupported("write to %r in a summarised loop" % (o,))
            elif tn == "GlobObj":
                g, name = obj.g, obj.name
                loc = ("glob", g.get("__name__"), name)
                checked.add(loc)
                first = self.value_before(ents, lambda: g.get(name, _UNB))
                self.check_loc(loc, self.value_at_entry(key, lambda: g.get(name, _UNB)), first, g.get(name, _UNB), k, k1)
            elif obj is None and isinstance(key, tuple) and len(key) == 2:
                # variable of an enclosing function
                f = self.fr
                i = 0
                while f is not None and id(f.locals) != key[0]:
                    f = f.parent
                    i += 1
                if f is None:
                    p = find_path(self.fr, self.interp, key[0])
                    raise Unsupported("write to a captured variable in a summarised loop")
                lo = f.locals
                name = key[1]
                loc = ("var", (("F", i),), name)
                checked.add(loc)
                first = self.value_before(ents, lambda: lo.get(name, _UNB))
                self.check_loc(loc, self.value_at_entry(key, lambda: lo.get(name, _UNB)), first, lo.get(name, _UNB), k,
                               k1)
            elif tn == "Clock":
                raise Unsupported("clock")
            else:
                raise Unsupported("write to a %s in a summarised loop" % tn)

        if self.weakened:
            raise Restart()
        # locations this iteration did not write
        for loc, kind in list(self.info.kinds.items()):
            if loc[0] == "local" or loc in checked or kind[0] in ("same", "lost", "havoc"):
                continue
            if loc[0] == "items":
                if 0 not in kind[1]:
                    obj = resolve(loc[1], self.entry, self.interp)
                    if obj is None or (inv is not None and inv.owns((id(obj), "items"), obj)):
                        continue
                    c = kind[1] | frozenset([0])
                    self.info.kinds[loc] = (kind[0], c) if max(c) == 1 else ("lost",)
                    self.weakened = True
            elif kind[0] == "linear":
                obj = resolve(loc[1], self.entry, self.interp) if loc[0] != "glob" else True
                if obj is not None and not same_val(kind[1] * 1, kind[1] - kind[1]):
                    self.info.kinds[loc] = ("havoc", self._lin_type(loc))
                    self.weakened = True
        if self.weakened:
            raise Restart()

    def _lin_type(self, loc):
        if loc[0] == "glob":
            v = self.interp.modules[loc[1]].__dict__.get(loc[2])
        else:
            o = resolve(loc[1], self.entry, self.interp)
            v = o.__dict__.get(loc[2]) if loc[0] == "attr" else o.get(loc[2])
        return type_tag(v)

    def own_element(self, o, k):
        """o is (part of) the element iteration k is about: only this iteration sees it, and after the loop nobody may"""
        if self.dom is None:
            return False
        seen, st = set(), [self.dom.get(k)]
        while st:
            x = st.pop()
            if id(x) in seen:
                continue
            seen.add(id(x))
            if x is o:
                return True
            if isinstance(x, PDict):
                st.extend(en[1] for en in x.entries if isinstance(en, tuple))
            elif isinstance(x, PList):
                st.extend(y for y in x.parts if not isinstance(y, Seg))
            elif isinstance(x, tuple):
                st.extend(x)
        return False

    def path_of(self, o):
        p = find_path(self.entry, self.interp, id(o))
        if p is None:
            raise Unsupported("write to an object of unknown origin (%s) in a summarised loop" % type(o).__name__)
        return p

    def value_before(self, ents, read):
        for ent in reversed(ents):
            ent[2]()
        v = read()
        for ent in ents:
            ent[3]()
        return v

    def value_at_entry(self, key, read):
        e = eng()
        ents = [x for x in e.log[self.logpos:] if x[0] == key]
        return self.value_before(ents, read)

    def weaken(self, loc, kind):
        self.info.kinds[loc] = kind
        raise _Weakened()

    def check_loc(self, *a):
        try:
            self._check_loc(*a)
        except _Weakened:
            self.weakened = True

    def check_items(self, *a):
        try:
            self._check_items(*a)
        except _Weakened:
            self.weakened = True

    def _check_loc(self, loc, v0, before, after, k, k1, obj=None):
        """value before the iteration is S(k); after it must be S(k+1)"""
        kind = self.info.kinds.get(loc, ("same",))
        t = kind[0]
        if t == "lost":
            return
        if t == "havoc":
            if type_tag(after) == kind[1]:
                if type(obj).__name__ == "Clock":
                    pass
                return
            self.weaken(loc, ("lost",))
        if t == "same":
            if after is v0 or after is before:
                return
            if v0 is not _UNB and after is not _UNB and same_val(v0, after):
                return
            c = self.lin_step(before, after)
            if c is not None and v0 is not _UNB:
                self.weaken(loc, ("linear", c))
        if t == "linear":
            want = self.summary_value(loc, kind, v0, k1)
            if same_val(want, after):
                return
        ty = type_tag(after)
        if ty is not None and type_tag(v0) == ty:
            self.weaken(loc, ("havoc", ty))
        self.weaken(loc, ("lost",))

    def lin_step(self, a, b):
        from . import dt
        if type_tag(a) != type_tag(b):
            return None
        ty = type_tag(a)
        if ty == "int":
            d = b - a
        elif ty == "real":
            d = b - a
        elif ty == "dt":
            d = dt.dt_us(b) - dt.dt_us(a)
        elif ty == "date":
            d = dt.date_ord(b) - dt.date_ord(a)
        elif ty == "td":
            d = dt.td_us(b) - dt.td_us(a)
        else:
            return None
        if isinstance(d, (int, float)):
            return d
        if self.entry_only(d.t):
            return d
        return None

    def entry_only(self, t):
        """only constants that existed when the loop was entered"""
        st, seen = [t], set()
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = x.decl().name()
                base, _, idx = nm.partition("!")
                if self.fresh0.get(base, 0) <= (int(idx) if idx else 0):
                    return False
            elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith("lp_"):
                nm = x.decl().name()
                base, _, idx = nm.partition("!")
                if self.fresh0.get(base, 0) <= (int(idx) if idx else 0):
                    return False
            st.extend(x.children())
        return True

    def _check_items(self, loc, obj, ents, heads):
        kind = self.info.kinds.get(loc, ("same",))
        if kind[0] == "lost":
            return
        now = obj.parts if isinstance(obj, PList) else obj.entries
        head = heads.get(id(obj))
        if head is None:
            head = self.value_before(ents, lambda: obj.parts if isinstance(obj, PList) else obj.entries)
        n = len(head)
        delta = None
        if len(now) >= n and all(same_entry(x, y) for x, y in zip(now, head)):
            delta = now[n:]
            if any(isinstance(d, (Seg, SymMap)) for d in delta):
                delta = None
        what = "append" if isinstance(obj, PList) else "update"
        if delta is None:
            if len(now) == n and isinstance(obj, PDict):
                # an existing item was replaced: let later writes simply win
                obj.loose = True
                if kind[0] == "same":
                    self.weaken(loc, ("update", frozenset([1])))
            self.weaken(loc, ("lost",))
        if kind[0] == "same":
            if not delta:
                return
            self.weaken(loc, (what, frozenset([len(delta)])))
        if len(delta) not in kind[1]:
            c = kind[1] | frozenset([len(delta)])
            if max(c) > 1:
                self.weaken(loc, ("lost",))
            self.weaken(loc, (what, c))
        if max(kind[1]) > 1:
            self.weaken(loc, ("lost",))

    def only(self, k, back=None):
        """while an iteration that modifies its element runs, no other element of the sequence may be looked at"""
        if not self.info.consumes:
            return None
        old = self.dom.only
        self.dom.only = back if k is None else (self, k)
        return old

    def exit(self):
        e = eng()
        fr = self.fr
        if self.info.consumes:
            self.dom.only = None, "done"
        inv = self.invariant()
        if self.n is not None:
            self.apply(self.n, fr)
            if inv is not None:
                inv.assume(self.n)
            e.ghost.setdefault("cuts", []).append(self)
            return None
        K = fresh_int("K", inp=False)
        e.add_fact(K.t >= 0)
        if inv is None and e.branch(K.t > 0):
            # the last completed iteration did not leave the loop
            self.exec_at(mkint(K.t - 1))
        self.n = K
        self.apply(K, fr)
        if inv is not None:
            inv.assume(K)
        e.ghost.setdefault("cuts", []).append(self)
        if self.cond(fr):
            raise PathEnd()
        return None


def same_entry(a, b):
    if a is b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(x is y for x, y in zip(a, b))
    return False


def type_tag(v):
    from . import dt
    from .strings import SymStr
    if isinstance(v, (bool, SymBool)):
        return "bool"
    if isinstance(v, (int, SymInt)):
        return "int"
    if isinstance(v, (float, SymReal)):
        return "real"
    if isinstance(v, (str, SymStr)):
        return "str"
    if isinstance(v, (dt.SymDT, dt._dt.datetime)):
        return "dt"
    if isinstance(v, (dt.SymDate, dt._dt.date)):
        return "date"
    if isinstance(v, (dt.SymTD, dt._dt.timedelta)):
        return "td"
    return None


def same_val(a, b):
    if a is b:
        return True
    if type_tag(a) is None or type_tag(a) != type_tag(b):
        return False
    r = val_eq(a, b)
    if r is True or r is False:
        return r
    return eng().known(r.t)


def cut_loop(interp, node, fr, one, stmts, target, n=None, tag=None, cond=None, dom=None):
    e = eng()
    key = ("loop", fr.g.get("__name__"), getattr(node, "lineno", None) or getattr(target, "lineno", 0),
           getattr(node, "col_offset", None) or getattr(target, "col_offset", 0), str(tag) if n is not None else "while")
    info = e.loops.get(key)
    if info is None:
        info = e.loops[key] = LoopInfo()
        info.cut = True
    c = Cut(interp, node, fr, one, stmts, target, n, tag, cond, info)
    c.dom = dom
    inv = c.invariant()
    if inv is not None:
        inv.check(0)
    def one_full(k, f):
        r = one(k, f)
        return r
    if e.choose(2) == 0:
        r = c.step()
        if r == "exit":
            raise PathEnd()         # covered by the exit path
        return r
    return c.exit()


def position(seg, base, j):
    """index in `seg` of the element that stems from element j of the sequence `base`, or None (forks): follows the
    loops that built `seg` back to `base`"""
    if seg is base:
        return j
    src = getattr(seg, "source", None)
    if src is None:
        if seg.tag == base.tag and seg.n is base.n:
            return j
        off = getattr(seg, "off", None)
        if off is not None:         # a slice
            p = position(seg.base, base, j)
            if p is None or not truth(mkbool(z3.And(iterm(p) >= iterm(off), iterm(p) < iterm(off) + iterm(seg.n)))):
                return None
            return mkint(iterm(p) - iterm(off))
        raise Unsupported("origin of %r" % (seg,))
    cut, path, flt = src
    p = position(cut.dom, base, j)
    if p is None or flt is None:
        return p
    cnt, srcf, posf, k = flt
    if len(cut.delta(path, p)) != 1:
        return None
    e = eng()
    r = mkint(posf(iterm(p)))
    e.add_fact(z3.And(iterm(r) >= 0, iterm(r) < cnt(iterm(k)), srcf(iterm(r)) == iterm(p)))
    return r


def produced(cut, obj, j):
    """what iteration j of a finished loop appended to the list (or set in the dict) obj"""
    if obj is None:
        return []
    eff = cut.exec_at(j)
    for path, kind in cut.info.kinds.items():
        if path[0] == "items" and resolve(path[1], cut.entry, cut.interp) is obj:
            if kind[0] == "lost":
                raise Unsupported("the elements appended by a loop were lost")
            return eff.get(path, [])
    return []


def loop_instance(tag):
    """the finished loops over the sequence with this tag, for harnesses"""
    return [c for c in eng().ghost.get("cuts", []) if c.tag == tag]


def touch(base, j):
    """let the solver consider, in every list filled by a loop over `base` (or over a list filled by such a loop), what stems
    from element j"""
    for c in list(eng().ghost.get("cuts", [])):
        for path, kind in list(c.info.kinds.items()):
            if path[0] != "items" or kind[0] == "lost":
                continue
            try:
                obj = resolve(path[1], c.entry, c.interp)
            except (KeyError, AttributeError, IndexError):
                continue
            for part in (obj.parts if isinstance(obj, PList) else []):
                if getattr(part, "source", None) is None:
                    continue
                try:
                    p = position(part, base, j)
                except Unsupported:
                    continue
                if p is not None:
                    part.get(p)


def whole(seg):
    """the sequence a slice was taken from"""
    while getattr(seg, "base", None) is not None:
        seg = seg.base
    return seg


def follow(base, j):
    """execute, in every finished loop over `base` or over a list that loops built from it, the iteration that stems from
    element j (which is what tells that it raised nothing), and consider what came out of it; `base`: a list or its tag"""
    if isinstance(base, str):
        base = [c.dom for c in loop_instance(base) + eng().ghost.get("left", []) if c.tag == base]
        if not base:
            return
        base = whole(base[0])
    for c in list(eng().ghost.get("cuts", [])):
        try:
            p = position(c.dom, base, j)
        except Unsupported:
            continue
        if p is not None:
            c.exec_at(p)
    for c in list(eng().ghost.get("left", [])):     # loops left early: the iterations before that
        try:
            p = position(c.dom, base, j) if c.dom is not None else None
        except Unsupported:
            continue
        if p is not None and truth(p < c.completed):
            c.exec_at(p)
    touch(base, j)
